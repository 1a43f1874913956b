ID="c11-dispatch-inline"; PROPERTY="C11"
EDITS=[("util/dispatch.py","        loop = asyncio.get_running_loop()\n","        loop = asyncio.get_running_loop()\n        if len(asyncio.all_tasks(loop)) == 1:\n            return fn(*args, **kwargs)\n")]
NEEDS="a dispatched call made while only one task is running, and work scheduled with call_later, or another task started meanwhile"
BREAKS="the blocking call runs on the event loop thread"
DEMO='''
import asyncio
import threading

from pysqlsync.util.dispatch import thread_dispatch


@thread_dispatch
def work() -> int:
    return threading.get_ident()


async def main():
    here = threading.get_ident()
    assert await work() != here
    assert here not in await asyncio.gather(work(), work())


asyncio.run(main())
'''
