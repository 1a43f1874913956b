ID="c22-swapped-parameters"; PROPERTY="C22"
EDITS=[("dialect/postgresql/mutation.py","    def migrate_enum_stmt(self, enum_type: EnumType, table: Table) -> Optional[str]:","    def migrate_enum_stmt(self, table: Table, enum_type: EnumType) -> Optional[str]:")]
NEEDS="an enumeration type that changes to a lookup table"
BREAKS="the base class passes the enumeration first: the statement cannot be generated"
DEMO='''
from pysqlsync.dialect.postgresql.mutation import PostgreSQLMutator
from pysqlsync.formation.mutation import Mutator
from pysqlsync.formation.object_types import Column, EnumType, Table
from pysqlsync.model.data_types import SqlIntegerType
from pysqlsync.model.id_types import LocalId, QualifiedId

table = Table(QualifiedId("ns", "lookup"), [Column(LocalId("id"), SqlIntegerType(4), False)], primary_key=(LocalId("id"),))
for mutator in (Mutator(), PostgreSQLMutator()):
    stmt = mutator.migrate_enum_stmt(EnumType(QualifiedId("ns", "e"), ["a"]), table)
    assert stmt is None or "('a')" in stmt
'''
