ID='c37-keyword-case'; PROPERTY='C37'
EDITS=[('formation/sql_to_py.py', 'keyword.iskeyword(id) else id', 'keyword.iskeyword(id.lower()) else id')]
NEEDS='a column whose name is a keyword only in another case (From, Class)'
BREAKS='the field no longer has the name of the column'
DEMO='\nimport sys, types, typing, dataclasses\nfrom pysqlsync.formation.object_types import Column, ConstraintReference, ForeignConstraint, Table, UniqueConstraint\nfrom pysqlsync.formation.sql_to_py import SqlConverterOptions, table_to_dataclass\nfrom pysqlsync.model.data_types import SqlIntegerType, SqlVariableCharacterType\nfrom pysqlsync.model.id_types import LocalId, QualifiedId\n\nmodule = types.ModuleType("demo_tables")\nsys.modules["demo_tables"] = module\noptions = SqlConverterOptions({"ns": module})\n\n\ndef table(name, columns, constraints=None):\n    return Table(QualifiedId("ns", name), columns, primary_key=(LocalId("id"),), constraints=constraints)\n\n\nkey = Column(LocalId("id"), SqlIntegerType(8), False)\n\ncls = table_to_dataclass(table("t", [key, Column(LocalId("From"), SqlIntegerType(8), False), Column(LocalId("class"), SqlIntegerType(8), False)]), options)\nassert {f.name for f in dataclasses.fields(cls)} == {"id", "From", "class_"}\n'
