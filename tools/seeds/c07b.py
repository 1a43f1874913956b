ID="c07-identity-and-default"; PROPERTY="C07"
EDITS=[("formation/mutation.py","""        if source.identity and not target.identity:
            statements.append("DROP IDENTITY")
        elif not""","""        elif source.identity and not target.identity:
            statements.append("DROP IDENTITY")
        elif not""")]
NEEDS="one column loses its identity property and gains a default in the same synchronization"
BREAKS="the identity property is kept, because the branch belongs to the default value"
DEMO='''
from pysqlsync.formation.mutation import Mutator
from pysqlsync.formation.object_types import Column, Table
from pysqlsync.model.data_types import SqlIntegerType
from pysqlsync.model.id_types import LocalId, QualifiedId


def table(**kw):
    return Table(QualifiedId("ns", "t"), [Column(LocalId("id"), SqlIntegerType(8), False), Column(LocalId("n"), SqlIntegerType(8), False, **kw)], primary_key=(LocalId("id"),))


script = Mutator().mutate_table_stmt(table(identity=True), table(default="1")) or ""
print(script)
assert "SET DEFAULT 1" in script
assert "DROP IDENTITY" in script
'''
