ID="c36-null-scalar"; PROPERTY="C36"
EDITS=[("resultset.py",'''        while True:
            try:
                item = next(it)
            except StopIteration:
                return scalar_results
            scalar_results.append(item[0])
''','''        scalar_results.extend(value for value, *_ in it if value is not None)
        return scalar_results
''')]
NEEDS="a query with a simple signature, and a NULL in a row other than the first"
BREAKS="the row whose value is NULL is missing from the result"
DEMO='''
import asyncio
from pysqlsync.dialect.postgresql.connection import PostgreSQLContext

class Native:
    async def fetch(self, statement):
        return [(1,), (None,), (3,)]

class Connection:
    connection = Native()
    native = Native()

class Context(PostgreSQLContext):
    native_connection = Native()

context = Context(Connection())
rows = asyncio.run(context.query_all(int, "SELECT id FROM t ORDER BY id"))
print(rows)
assert rows == [1, None, 3]
'''
