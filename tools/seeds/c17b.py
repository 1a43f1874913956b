ID="c17-referenced-column-from-owner"; PROPERTY="C17"
EDITS=[("formation/discovery.py",'''            "    kcu2.column_name AS uq_column_name,\\n"''','''            "    kcu1.column_name AS uq_column_name,\\n"''')]
NEEDS="a foreign key whose column is not named as the column it refers to"
BREAKS="the discovered foreign key refers to a column that the target table does not have"
DEMO='''
import asyncio, sqlite3
from pysqlsync.formation.discovery import AnsiExplorer
from pysqlsync.model.id_types import QualifiedId

db = sqlite3.connect(":memory:")
db.execute("ATTACH ':memory:' AS information_schema")
db.execute("CREATE TABLE information_schema.referential_constraints (constraint_catalog, constraint_schema, constraint_name, unique_constraint_catalog, unique_constraint_schema, unique_constraint_name)")
db.execute("CREATE TABLE information_schema.key_column_usage (constraint_catalog, constraint_schema, constraint_name, table_schema, table_name, column_name, ordinal_position)")
db.execute("INSERT INTO information_schema.referential_constraints VALUES ('c', 's', 'fk', 'c', 's', 'pk')")
db.executemany("INSERT INTO information_schema.key_column_usage VALUES (?, ?, ?, ?, ?, ?, ?)", [("c", "s", "fk", "s", "child", "parent_id", 1), ("c", "s", "pk", "s", "parent", "id", 1)])

class Conn:
    async def query_all(self, typ, stmt):
        cur = db.execute(stmt)
        names = [d[0] for d in cur.description]
        return [typ(**dict(zip(names, row))) for row in cur.fetchall()]

class Explorer(AnsiExplorer):
    def __init__(self, conn):
        self.conn = conn

Explorer.__abstractmethods__ = frozenset()
(fk,) = asyncio.run(Explorer(Conn()).get_referential_constraints(QualifiedId("s", "child")))
print(fk)
assert [c.local_id for c in fk.foreign_columns] == ["parent_id"]
assert fk.reference.table == QualifiedId("s", "parent") and [c.local_id for c in fk.reference.columns] == ["id"]
'''
