ID="c09-empty-value-as-null"; PROPERTY="C09"
EDITS=[("base.py","""                        (fn(field) if field is not None else None)
                        if fn is not None
                        else field
                    )
                    for fn, field in zip(fns, (record[i] for i in indices))""","""                        (fn(field) if field else None)
                        if fn is not None
                        else field
                    )
                    for fn, field in zip(fns, (record[i] for i in indices))""")]
NEEDS="a source record with an omitted field and an empty (but not missing) value in a field that is converted, e.g. an empty JSON array"
BREAKS="the empty value is stored as NULL"
DEMO='''
import asyncio

from pysqlsync.base import IterableDataSource, ScalarTransformer, SelectorTransformerDataSource
import json


async def run():
    source = IterableDataSource([("a", 1, []), ("b", 2, [1]), ("c", 3, None)])
    selected = SelectorTransformerDataSource(source, [1, 2], [ScalarTransformer(None), ScalarTransformer(json.dumps)])
    rows = [row async for batch in selected.batches() for row in batch]
    assert rows == [(1, "[]"), (2, "[1]"), (3, None)], rows


asyncio.run(run())
'''
