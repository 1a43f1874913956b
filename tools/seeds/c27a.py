ID="c27-commit-on-rowcount"; PROPERTY="C27"
EDITS=[("dialect/mysql/connection.py","""            async with self.native_connection.cursor() as cur:
                await cur.executemany(statement, batch)
""","""            rows = list(batch)
            await self.native_connection.begin()
            async with self.native_connection.cursor() as cur:
                affected = await cur.executemany(statement, rows)
            if affected >= len(rows):
                await self.native_connection.commit()
""")]
NEEDS="a batch in which some row is left as it is, such as an upsert whose values are already stored (MySQL counts it as zero affected rows), and no later batch that commits"
BREAKS="the transaction opened for the batch is never committed: the rows are lost when the connection is closed"
DEMO='''
import asyncio

import pysqlsync.base as base
from pysqlsync.dialect.mysql.connection import MySQLContext


class Cursor:
    def __init__(self, native):
        self.native = native

    async def __aenter__(self):
        return self

    async def __aexit__(self, *args):
        pass

    async def executemany(self, statement, rows):
        count = 0
        for key, value in rows:
            if self.native.visible.get(key) != value:
                count += 1
            self.native.pending[key] = value
        if not self.native.manual:
            await self.native.commit()
        return count


class Native:
    def __init__(self):
        self.visible, self.pending, self.manual = {}, {}, False

    def cursor(self, *args):
        return Cursor(self)

    async def begin(self):
        await self.commit()
        self.manual = True

    async def commit(self):
        self.visible.update(self.pending)
        self.pending.clear()
        self.manual = False


class Connection:
    def __init__(self):
        self.native = Native()


async def main():
    connection = Connection()
    connection.native.visible = {1: "a"}
    context = MySQLContext.__new__(MySQLContext)
    context.connection = connection
    await context._execute_all("INSERT ... ON DUPLICATE KEY UPDATE", base.to_data_source([(1, "a"), (2, "b")]))
    assert connection.native.visible == {1: "a", 2: "b"}, connection.native.visible


asyncio.run(main())
'''
