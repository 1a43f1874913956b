ID="c10-delete-falsy-key"; PROPERTY="C10"
EDITS=[("base.py","source = IterableDataSource((key,) for key in key_values)","source = IterableDataSource((key,) for key in key_values if key)")]
NEEDS="a key value that is false in a Boolean context, such as zero"
BREAKS="the row whose key is zero is not deleted"
DEMO='''
import asyncio
import sys
from dataclasses import dataclass

from pysqlsync.base import GeneratorOptions
from pysqlsync.dialect.postgresql.connection import PostgreSQLContext
from pysqlsync.factory import get_dialect
from pysqlsync.model.key_types import PrimaryKey


@dataclass
class Item:
    id: PrimaryKey[int]
    name: str


generator = get_dialect("postgresql").create_generator(GeneratorOptions(namespaces={sys.modules[__name__]: "demo"}))
generator.create(tables=[Item])


class Native:
    def __init__(self):
        self.records = []

    async def executemany(self, statement, records):
        self.records.extend(records)


class Connection:
    def __init__(self):
        self.generator = generator
        self.native = Native()


connection = Connection()
context = PostgreSQLContext(connection)
asyncio.run(context.delete_rows(context.get_table(Item), int, [0, 1, 2]))
assert sorted(connection.native.records) == [(0,), (1,), (2,)], connection.native.records
'''
