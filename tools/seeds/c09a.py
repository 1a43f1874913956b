ID="c09-copy-columns-in-table-order"; PROPERTY="C09"
EDITS=[("dialect/postgresql/connection.py","columns=[str(col.name.local_id) for col in table.get_columns(order)],","""columns=[
                    str(col.name.local_id)
                    for col in table.columns.values()
                    if order is None or col.name.local_id in order
                ],""")]
NEEDS="rows inserted in bulk whose fields are in an order other than that of the columns of the table"
BREAKS="the columns listed for the bulk copy are in the order of the table, the values in the order of the source: values are stored in the wrong columns"
DEMO='''
import asyncio
import sys
from dataclasses import dataclass

from pysqlsync.base import GeneratorOptions
from pysqlsync.dialect.postgresql.connection import PostgreSQLContext
from pysqlsync.factory import get_dialect
from pysqlsync.model.key_types import PrimaryKey


@dataclass
class Person:
    id: PrimaryKey[int]
    given: str
    family: str


generator = get_dialect("postgresql").create_generator(GeneratorOptions(namespaces={sys.modules[__name__]: "demo"}))
generator.create(tables=[Person])
stored = []


class Native:
    async def copy_records_to_table(self, *, schema_name, table_name, columns, records):
        stored.extend(dict(zip(columns, record)) for record in records)


class Connection:
    pass


connection = Connection()
connection.generator = generator
connection.native = Native()
context = PostgreSQLContext(connection)
table = context.get_table(Person)
asyncio.run(context.insert_rows(table, [("Doe", 1, "John")], field_types=(str, int, str), field_names=("family", "id", "given")))
asyncio.run(context.insert_rows(table, [(2, "Jane", "Roe")], field_types=(int, str, str), field_names=("id", "given", "family")))
assert stored == [{"id": 1, "given": "John", "family": "Doe"}, {"id": 2, "given": "Jane", "family": "Roe"}], stored
'''
