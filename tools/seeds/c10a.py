ID="c10-async-batch-overflow"; PROPERTY="C10"
EDITS=[("base.py","""        async for record in self.records:
            rows.append(record)
            if len(rows) >= BATCH_SIZE:
                yield rows
                rows = []
""","""        async for record in self.records:
            if len(rows) < BATCH_SIZE:
                rows.append(record)
            else:
                yield rows
                rows = []
""")]
NEEDS="an asynchronous stream of records longer than a batch"
BREAKS="the record that arrives when the batch is full is not delivered"
DEMO='''
import asyncio
import pysqlsync.base as base

base.BATCH_SIZE = 10


async def stream(n):
    for k in range(n):
        yield (k,)


async def collect(n):
    return [record for record_list in [batch async for batch in base.to_data_source(stream(n)).batches()] for record in record_list]


for n in [0, 1, 9, 10, 11, 20, 21, 35]:
    records = asyncio.run(collect(n))
    assert records == [(k,) for k in range(n)], (n, records)
'''
