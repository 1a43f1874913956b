ID="c28-shared-substitution"; PROPERTY="C28"
EDITS=[("formation/data_types.py",'''            sql_type = copy.copy(self.options.substitutions.get(type_name))
''','''            sql_type = self.options.substitutions.get(type_name)
''')]
NEEDS="two columns of a type with a substitution (for example varchar of MySQL) and of different sizes"
BREAKS="the size of the last column is that of all columns of the type: the same type object is modified for each"
DEMO='''
from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
from pysqlsync.dialect.mysql.data_types import MySQLVariableCharacterType

discovery = SqlDiscovery(SqlDiscoveryOptions(substitutions={"varchar": MySQLVariableCharacterType()}))
columns = [
    discovery.sql_data_type_from_spec(type_name="varchar", type_def=None, character_maximum_length=n)
    for n in (10, 20, 300)
]
print([str(c) for c in columns])
assert [str(c) for c in columns] == ["varchar(10)", "varchar(20)", "varchar(300)"]
'''
