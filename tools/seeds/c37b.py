ID='c37-falsy-default'; PROPERTY='C37'
EDITS=[('formation/sql_to_py.py', '        if column.default is not None:\n            default = column.default\n', '        if column.default:\n            default = column.default\n')]
NEEDS='a column whose default is zero, false or the empty text'
BREAKS='the default is lost and the field is mandatory'
DEMO='\nimport sys, types, typing, dataclasses\nfrom pysqlsync.formation.object_types import Column, ConstraintReference, ForeignConstraint, Table, UniqueConstraint\nfrom pysqlsync.formation.sql_to_py import SqlConverterOptions, table_to_dataclass\nfrom pysqlsync.model.data_types import SqlIntegerType, SqlVariableCharacterType\nfrom pysqlsync.model.id_types import LocalId, QualifiedId\n\nmodule = types.ModuleType("demo_tables")\nsys.modules["demo_tables"] = module\noptions = SqlConverterOptions({"ns": module})\n\n\ndef table(name, columns, constraints=None):\n    return Table(QualifiedId("ns", name), columns, primary_key=(LocalId("id"),), constraints=constraints)\n\n\nkey = Column(LocalId("id"), SqlIntegerType(8), False)\n\ncls = table_to_dataclass(table("t", [key] + [Column(LocalId(n), SqlIntegerType(8), False, default=d) for n, d in (("a", 1), ("b", 0), ("c", ""))]), options)\nobj = cls(id=1)\nassert (obj.a, obj.b, obj.c) == (1, 0, "")\n'
