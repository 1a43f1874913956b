ID="c22-required-field-names"; PROPERTY="C22"
EDITS=[("dialect/redshift/connection.py","        field_names: Optional[tuple[str, ...]] = None,\n    ) -> None:\n        order","        field_names: tuple[str, ...],\n    ) -> None:\n        order"),
("base.py","        await self._insert_rows(\n            table, source, field_types=field_types, field_names=field_names\n        )","        if field_names is None:\n            await self._insert_rows(table, source, field_types=field_types)\n        else:\n            await self._insert_rows(\n                table, source, field_types=field_types, field_names=field_names\n            )")]
NEEDS="rows inserted in Redshift without stating field names"
BREAKS="TypeError: the override requires a parameter that is optional in the base class"
DEMO='''
import asyncio
import inspect

from pysqlsync.base import BaseContext
from pysqlsync.dialect.redshift.connection import RedshiftContext

called = []


class Context(RedshiftContext):
    native_connection = None

    def _get_column_order(self, *args, **kwargs):
        called.append("order")
        return None

    async def _generate_records(self, *args, **kwargs):
        class Source:
            async def batches(self):
                return
                yield

        return Source()


class Table:
    name = "t"

    def get_columns(self, order=None):
        return []

    def get_column_list(self, order=None):
        return []


for kwargs in ({}, {"field_names": None}, {"field_names": ("a",)}):
    asyncio.run(Context(None).insert_rows(Table(), [(1,)], field_types=(int,), **kwargs))
assert len(called) >= 3
'''
