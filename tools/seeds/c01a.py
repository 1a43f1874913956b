ID="c01-migrated-enum-value"; PROPERTY="C01"
EDITS=[("dialect/postgresql/mutation.py",'''f"({quote(v)})" for v in enum_type.values''','''f"('{v}')" for v in enum_type.values''')]
NEEDS="an enumeration type that changes to a lookup table, with a value that has an apostrophe"
BREAKS="the value ends its literal in the statement that copies the enumeration values to the lookup table"
DEMO='''
from pysqlsync.dialect.postgresql.mutation import PostgreSQLMutator
from pysqlsync.formation.object_types import EnumType, Table, Column
from pysqlsync.model.data_types import SqlIntegerType
from pysqlsync.model.id_types import LocalId, QualifiedId

table = Table(QualifiedId("ns", "lookup"), [Column(LocalId("id"), SqlIntegerType(4), False)], primary_key=(LocalId("id"),))
for values in (["a", "b"], ["it's", "x'); DROP TABLE t; --"]):
    stmt = PostgreSQLMutator().migrate_enum_stmt(EnumType(QualifiedId("ns", "e"), values), table)
    print(stmt)
    for v in values:
        assert "('" + v.replace("'", "''") + "')" in stmt, v
'''
