ID="c28-mysql-storage"; PROPERTY="C28"
EDITS=[("formation/data_types.py",'''        elif isinstance(sql_type, SqlFixedBinaryType):
            if character_maximum_length is not None:
                sql_type.storage = character_maximum_length
        elif isinstance(sql_type, SqlVariableBinaryType):
            if character_maximum_length is not None and character_maximum_length > 0:
                sql_type.storage = character_maximum_length
''','''        elif isinstance(sql_type, (SqlFixedBinaryType, SqlVariableBinaryType)):
            if sql_type.storage is None and (character_maximum_length or 0) > 1:
                sql_type.storage = character_maximum_length
''')]
NEEDS="a database whose catalog gives the size apart from the type (SQL Server, Oracle), and a binary column of one byte"
BREAKS="binary(1) and raw(1) columns are discovered without their size, as another type (blob in Oracle)"
DEMO='''
from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
from pysqlsync.dialect.oracle.data_types import OracleVariableBinaryType

discovery = SqlDiscovery(SqlDiscoveryOptions(substitutions={"RAW": OracleVariableBinaryType()}))
for size in (16, 1, 2000):
    found = discovery.sql_data_type_from_spec(type_name="RAW", type_def="RAW", character_maximum_length=size)
    print(size, str(found))
    assert str(found) == f"raw({size})"
'''
