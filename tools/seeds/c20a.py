ID="c20-state-before-execution"; PROPERTY="C20"
EDITS=[("base.py","            await self.conn.execute(stmt)\n            generator.state = target_state\n","            generator.state = target_state\n            await self.conn.execute(stmt)\n")]
NEEDS="a synchronization whose change script is rejected by the database, after which the same connection is used again"
BREAKS="after a failed synchronization the library believes the database is in the target state, and generates no change script for what is missing"
DEMO='''
import asyncio
import dataclasses
import sys
import types

from strong_typing.auxiliary import int32

from pysqlsync.base import Explorer, GeneratorOptions
from pysqlsync.formation.object_types import Catalog, Namespace
from pysqlsync.factory import get_dialect
from pysqlsync.model.id_types import LocalId
from pysqlsync.model.key_types import PrimaryKey

module = types.ModuleType("demo_model")
sys.modules["demo_model"] = module


@dataclasses.dataclass
class Item:
    id: PrimaryKey[int]
    size: int


Item.__module__ = "demo_model"
module.Item = Item

generator = get_dialect("postgresql").create_generator(
    GeneratorOptions(namespaces={module: "demo"})
)


class Connection:
    def __init__(self):
        self.generator = generator


class Context:
    def __init__(self):
        self.connection = Connection()

    async def execute(self, statement):
        raise RuntimeError("rejected")


class DemoExplorer(Explorer):
    async def get_table_names(self):
        return []

    async def has_table(self, table_id):
        return False

    async def has_column(self, table_id, column_id):
        return False

    async def get_table(self, table_id):
        raise NotImplementedError()

    async def get_namespace(self, namespace_id):
        return Namespace(name=namespace_id, enums=[], structs=[], tables=[])

    async def get_namespace_current(self):
        return Namespace(name=LocalId("demo"), enums=[], structs=[], tables=[])


explorer = DemoExplorer(Context())
try:
    asyncio.run(explorer.synchronize(module=module))
except RuntimeError:
    pass
else:
    raise AssertionError("the statement was not executed")
for namespace in generator.state.namespaces.values():
    assert not list(namespace.tables.values()), "the table is tracked, but it was not created"
'''
