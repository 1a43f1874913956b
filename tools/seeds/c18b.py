ID="c18-unique-columns-of-other-table"; PROPERTY="C18"
EDITS=[("formation/discovery.py",'''            f"WHERE {self._where_table(table_id, 'tab')} AND {self._where_table(table_id, 'kcu')} AND\\n"
            "    tab.constraint_type = 'UNIQUE'\\n"''','''            f"WHERE {self._where_table(table_id, 'tab')} AND\\n"
            "    tab.constraint_type = 'UNIQUE'\\n"''')]
NEEDS="MySQL, where two tables of a schema can have unique constraints of the same name"
BREAKS="a discovered unique constraint also lists the columns of the constraint of the other table"
DEMO='''
import asyncio, sqlite3
from pysqlsync.formation.discovery import AnsiExplorer
from pysqlsync.model.id_types import QualifiedId

db = sqlite3.connect(":memory:")
db.execute("ATTACH ':memory:' AS information_schema")
db.execute("CREATE TABLE information_schema.table_constraints (constraint_catalog, constraint_schema, constraint_name, table_schema, table_name, constraint_type)")
db.execute("CREATE TABLE information_schema.key_column_usage (constraint_catalog, constraint_schema, constraint_name, table_schema, table_name, column_name, ordinal_position)")
for table, column in (("a", "x"), ("b", "y")):
    db.execute("INSERT INTO information_schema.table_constraints VALUES ('c', 's', 'uq', 's', ?, 'UNIQUE')", (table,))
    db.execute("INSERT INTO information_schema.key_column_usage VALUES ('c', 's', 'uq', 's', ?, ?, 1)", (table, column))

class Conn:
    async def query_all(self, typ, stmt):
        cur = db.execute(stmt)
        names = [d[0] for d in cur.description]
        return [typ(**dict(zip(names, row))) for row in cur.fetchall()]

class Explorer(AnsiExplorer):
    def __init__(self, conn):
        self.conn = conn

Explorer.__abstractmethods__ = frozenset()
(uq,) = asyncio.run(Explorer(Conn()).get_unique_constraints(QualifiedId("s", "a")))
print(uq)
assert [c.local_id for c in uq.unique_columns] == ["x"]
'''
