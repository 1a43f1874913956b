ID="c13-timeout-not-wrapped"; PROPERTY="C13"
EDITS=[("base.py","""        try:
            return await self._query_all(signature, statement)
        except QueryException:
            raise
""","""        try:
            return await self._query_all(signature, statement)
        except (QueryException, TimeoutError):
            raise
""")]
NEEDS="a query for which the driver raises TimeoutError"
BREAKS="the error reaches the caller without the statement, not as a query exception"
DEMO='''
import asyncio

from pysqlsync.base import BaseContext, QueryException


class Context(BaseContext):
    async def _execute(self, statement):
        raise TimeoutError()

    async def _execute_all(self, statement, source):
        raise TimeoutError()

    async def _query_all(self, signature, statement):
        raise TimeoutError()


for error in (TimeoutError,):
    try:
        asyncio.run(Context(None).query_all(int, "SELECT 1"))
    except QueryException as e:
        assert isinstance(e.__cause__, error)
    else:
        raise AssertionError
'''
