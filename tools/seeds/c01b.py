ID="c01-table-name-in-catalog-query"; PROPERTY="C01"
EDITS=[("formation/discovery.py",'''        table_name = quote(table_id.local_id)
        conditions = [''','''        table_name = f"'{table_id.local_id}'"
        conditions = [''')]
NEEDS="looking up a table whose name has an apostrophe"
BREAKS="the name ends its literal in the catalog query and the rest of the name is executed as SQL"
DEMO='''
import asyncio
from pysqlsync.formation.discovery import AnsiExplorer
from pysqlsync.model.id_types import LocalId, QualifiedId

class Conn:
    def __init__(self):
        self.queries = []
    async def query_one(self, typ, stmt):
        self.queries.append(stmt)
        return 1

class Explorer(AnsiExplorer):
    def __init__(self, conn):
        self.conn = conn

Explorer.__abstractmethods__ = frozenset()
conn = Conn()
explorer = Explorer(conn)
asyncio.run(explorer.has_table(QualifiedId("ns", "plain")))
asyncio.run(explorer.has_column(QualifiedId("n's", "o'brien"), LocalId("c'd")))
print(conn.queries)
assert "table_name = 'plain'" in conn.queries[0]
for text in ("'n''s'", "'o''brien'", "'c''d'"):
    assert text in conn.queries[1], text
'''
