ID='c37-medium-integers'; PROPERTY='C37'
EDITS=[('formation/sql_to_py.py', '        if sql_type.width == 2:\n            return int16\n        elif sql_type.width == 4:\n            return int32\n', '        if sql_type.width <= 2:\n            return int16\n        elif sql_type.width <= 4:\n            return int16 if sql_type.width == 3 else int32\n')]
NEEDS='a column of a three byte integer type'
BREAKS='its type cannot hold the values of the column'
DEMO='\nimport sys, types, typing, dataclasses\nfrom pysqlsync.formation.object_types import Column, ConstraintReference, ForeignConstraint, Table, UniqueConstraint\nfrom pysqlsync.formation.sql_to_py import SqlConverterOptions, table_to_dataclass\nfrom pysqlsync.model.data_types import SqlIntegerType, SqlVariableCharacterType\nfrom pysqlsync.model.id_types import LocalId, QualifiedId\n\nmodule = types.ModuleType("demo_tables")\nsys.modules["demo_tables"] = module\noptions = SqlConverterOptions({"ns": module})\n\n\ndef table(name, columns, constraints=None):\n    return Table(QualifiedId("ns", name), columns, primary_key=(LocalId("id"),), constraints=constraints)\n\n\nkey = Column(LocalId("id"), SqlIntegerType(8), False)\n\nfrom pysqlsync.formation.sql_to_py import sql_type_to_python\nfrom strong_typing.auxiliary import int16\n\nfor width in (1, 2):\n    sql_type_to_python(SqlIntegerType(width))\nassert sql_type_to_python(SqlIntegerType(3)) is not int16\nassert sql_type_to_python(SqlIntegerType(3)) != int16\n'
