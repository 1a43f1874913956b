ID="c12-unawaited-transformer"; PROPERTY="C12"
EDITS=[("base.py","""        indices = self.indices
        async for batch in self.source.batches():
            fns: list[Optional[Callable[[Any], Any]]] = []
            for transformer in self.transformers:
                fns.append(await transformer.get(batch))
""","""        indices = self.indices
        async for batch in self.source.batches():
            fns: list[Any] = []
            for transformer in self.transformers:
                fns.append(transformer.get(batch))
""")]
NEEDS="records of which only some fields are selected, with a field that needs conversion"
BREAKS="the coroutine that supplies the conversion function is used as the function"
DEMO='''
import asyncio

from pysqlsync.base import IterableDataSource, ScalarTransformer, SelectorTransformerDataSource


async def main():
    source = SelectorTransformerDataSource(IterableDataSource([(1, "a", "b")]), [0, 2], [ScalarTransformer(None), ScalarTransformer(str.upper)])
    return [row async for batch in source.batches() for row in batch]


assert asyncio.run(main()) == [(1, "B")]
'''
