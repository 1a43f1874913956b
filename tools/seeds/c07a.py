ID="c07-comment-of-added-column"; PROPERTY="C07"
EDITS=[("dialect/postgresql/mutation.py","""        for target_column in target.columns.values():
            source_column = source.columns.get(target_column.name.id)

            source_desc = (
                source_column.description if source_column is not None else None
            )
""","""        for source_column, target_column in source.columns.intersection(target.columns):
            source_desc = source_column.description
""")]
NEEDS="a documented field is added to an entity whose table exists already"
BREAKS="the comment of a column that is added to an existing PostgreSQL table is not written"
DEMO='''
from pysqlsync.dialect.postgresql.mutation import PostgreSQLMutator
from pysqlsync.dialect.postgresql.object_types import PostgreSQLTable
from pysqlsync.formation.object_types import Column
from pysqlsync.model.data_types import SqlIntegerType
from pysqlsync.model.id_types import LocalId, QualifiedId


def table(*names):
    columns = [Column(LocalId(n), SqlIntegerType(8), n != "id", description="About " + n + ".") for n in names]
    return PostgreSQLTable(QualifiedId("ns", "t"), columns, primary_key=(LocalId("id"),))


script = PostgreSQLMutator().mutate_table_stmt(table("id"), table("id", "extra")) or ""
print(script)
assert "About extra." in script
'''
