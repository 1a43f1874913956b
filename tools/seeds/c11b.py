ID="c11-oracle-close-on-loop"; PROPERTY="C11"
EDITS=[("dialect/oracle/connection.py","""    @override
    @thread_dispatch
    def close(self) -> None:
        self.native.close()
""","""    @override
    async def close(self) -> None:
        self.native.close()
""")]
NEEDS="closing an Oracle connection while other coroutines are to run"
BREAKS="the network round trip that closes the session blocks the event loop"
DEMO='''
import asyncio
import threading

from pysqlsync.connection import ConnectionParameters
from pysqlsync.factory import get_dialect

threads = []


class Native:
    def close(self):
        threads.append(threading.get_ident())


async def main():
    conn = get_dialect("oracle").get_connection_type()(None, ConnectionParameters())
    conn.native = Native()
    await conn.close()
    assert threads and threading.get_ident() not in threads


asyncio.run(main())
'''
