ID="c18-views-of-every-schema"; PROPERTY="C18"
EDITS=[("dialect/postgresql/discovery.py",'''f"WHERE nsp.nspname = {quote(namespace_id.id)} AND (cls.relkind = 'r' OR cls.relkind = 'v')\\n"''','''f"WHERE nsp.nspname = {quote(namespace_id.id)} AND cls.relkind = 'r' OR cls.relkind = 'v'\\n"''')]
NEEDS="a view in another schema of the database"
BREAKS="discovery of a schema also finds the views of every other schema (AND binds stronger than OR)"
DEMO='''
import asyncio, sqlite3
from pysqlsync.dialect.postgresql.discovery import PostgreSQLExplorer
from pysqlsync.model.id_types import LocalId

db = sqlite3.connect(":memory:")
db.execute("ATTACH ':memory:' AS pg_catalog")
db.execute("CREATE TABLE pg_catalog.pg_class (oid, relname, relnamespace, relkind)")
db.execute("CREATE TABLE pg_catalog.pg_namespace (oid, nspname)")
db.execute("CREATE TABLE pg_catalog.pg_type (oid, typname, typnamespace)")
db.execute("CREATE TABLE pg_catalog.pg_enum (enumtypid, enumlabel, enumsortorder)")
db.executemany("INSERT INTO pg_catalog.pg_namespace VALUES (?, ?)", [(1, "mine"), (2, "other")])
db.executemany("INSERT INTO pg_catalog.pg_class VALUES (?, ?, ?, ?)", [(10, "t", 1, "r"), (11, "v", 1, "v"), (12, "i", 1, "i"), (20, "x", 2, "r"), (21, "y", 2, "v")])

class Conn:
    async def query_all(self, typ, stmt):
        return [row[0] for row in db.execute(stmt).fetchall()]

found = []

class Explorer(PostgreSQLExplorer):
    async def get_table(self, table_id):
        found.append(table_id.local_id)
        return self.factory.table_class(name=table_id, columns=[], primary_key=())

asyncio.run(Explorer(Conn()).get_namespace(LocalId("mine")))
print(found)
assert sorted(found) == ["t", "v"]
'''
