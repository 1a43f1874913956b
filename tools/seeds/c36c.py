ID="c36-batch-fetch"; PROPERTY="C36"
EDITS=[("dialect/mssql/connection.py",'''            records = cur.execute(statement).fetchall()

''','''            cur.execute(statement)
            records = []
            while batch := cur.fetchmany(1000):
                records.extend(batch)
                if len(batch) < 1000 or not cur.nextset():
                    break

''')]
NEEDS="a query in SQL Server whose result has more than 1000 rows"
BREAKS="rows after the first thousand are cut off"
DEMO='''
import asyncio
from pysqlsync.dialect.mssql.connection import MSSQLContext

class Cursor:
    def __init__(self): self.rows = [(k,) for k in range(2500)]
    def __enter__(self): return self
    def __exit__(self, *args): pass
    def execute(self, statement): return self
    def nextset(self): return False
    def fetchmany(self, n):
        rows, self.rows = self.rows[:n], self.rows[n:]
        return rows
    def fetchall(self): return self.fetchmany(len(self.rows))

class Native:
    def cursor(self): return Cursor()

class Connection:
    pass

class Context(MSSQLContext):
    native_connection = Native()

rows = asyncio.run(Context(Connection()).query_all(int, "SELECT id FROM t"))
print(len(rows))
assert rows == list(range(2500))
'''
