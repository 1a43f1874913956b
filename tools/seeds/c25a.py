ID="c25-index-after-omission"; PROPERTY="C25"
EDITS=[("base.py","""            transformer = self._get_transformer(
                table, generator, index, field_type, field_name
            )
""","""            transformer = self._get_transformer(
                table, generator, len(indices) - 1, field_type, field_name
            )
""")]
NEEDS="a source record with an omitted field before a field whose values are kept in a lookup table"
BREAKS="the values registered are those of the field before: the values looked up are missing from the lookup table"
DEMO='''
import asyncio
import enum
import sys
from dataclasses import dataclass

from pysqlsync.base import GeneratorOptions
from pysqlsync.dialect.postgresql.connection import PostgreSQLContext
from pysqlsync.factory import get_dialect
from pysqlsync.formation.py_to_sql import EnumMode
from pysqlsync.model.key_types import PrimaryKey
from pysqlsync.model.properties import get_field_properties


class State(enum.Enum):
    open = "open"
    closed = "closed"


@dataclass
class Item:
    id: PrimaryKey[int]
    state: State


generator = get_dialect("postgresql").create_generator(
    GeneratorOptions(enum_mode=EnumMode.RELATION, namespaces={sys.modules[__name__]: "demo"})
)
generator.create(tables=[Item])


class Connection:
    pass


connection = Connection()
connection.generator = generator


class Context(PostgreSQLContext):
    def __init__(self, connection):
        super().__init__(connection)
        self.lookup = {}

    async def execute_all(self, statement, records):
        for record in records:
            self.lookup.setdefault(record[0], len(self.lookup) + 1)

    async def query_all(self, signature, statement):
        return list(self.lookup.items())


async def run():
    context = Context(connection)
    table = context.get_table(Item)
    from pysqlsync.base import IterableDataSource

    for types, names, rows in [
        ((int, str), ("id", "state"), [(1, "open"), (2, "closed")]),
        ((type(None), int, str), ("", "id", "state"), [("x", 1, "open"), ("y", 2, "closed")]),
    ]:
        source = await context._generate_records(table, IterableDataSource(rows), field_types=types, field_names=names)
        result = [row async for batch in source.batches() for row in batch]
        assert sorted(context.lookup) == ["closed", "open"], context.lookup
        assert result == [(1, context.lookup["open"]), (2, context.lookup["closed"])], result


asyncio.run(run())
'''
