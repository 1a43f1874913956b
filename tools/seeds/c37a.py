ID='c37-reference-after-other'; PROPERTY='C37'
EDITS=[('formation/sql_to_py.py', '            if column.name not in c.foreign_columns:\n                continue\n', '            if column.name not in c.foreign_columns:\n                break\n')]
NEEDS='a table with two foreign keys, and the column of the second'
BREAKS='the reference is represented as a plain number'
DEMO='\nimport sys, types, typing, dataclasses\nfrom pysqlsync.formation.object_types import Column, ConstraintReference, ForeignConstraint, Table, UniqueConstraint\nfrom pysqlsync.formation.sql_to_py import SqlConverterOptions, table_to_dataclass\nfrom pysqlsync.model.data_types import SqlIntegerType, SqlVariableCharacterType\nfrom pysqlsync.model.id_types import LocalId, QualifiedId\n\nmodule = types.ModuleType("demo_tables")\nsys.modules["demo_tables"] = module\noptions = SqlConverterOptions({"ns": module})\n\n\ndef table(name, columns, constraints=None):\n    return Table(QualifiedId("ns", name), columns, primary_key=(LocalId("id"),), constraints=constraints)\n\n\nkey = Column(LocalId("id"), SqlIntegerType(8), False)\n\nconstraints = [ForeignConstraint(LocalId(f"fk_{n}"), (LocalId(n),), ConstraintReference(QualifiedId("ns", t), (LocalId("id"),))) for n, t in (("a", "one"), ("b", "two"))]\ncls = table_to_dataclass(table("t", [key, Column(LocalId("a"), SqlIntegerType(8), False), Column(LocalId("b"), SqlIntegerType(8), False)], constraints), options)\ntypes_ = {f.name: f.type for f in dataclasses.fields(cls)}\nassert "one" in str(types_["a"]) and "two" in str(types_["b"]), types_\n'
