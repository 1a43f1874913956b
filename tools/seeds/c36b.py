ID="c36-default-for-null"; PROPERTY="C36"
EDITS=[("resultset.py",'''        signature(**{name: value for name, value in record.items()})  # type: ignore
''','''        signature(**{name: value for name, value in record.items() if value is not None or name not in defaults})  # type: ignore
'''),("resultset.py",'''    return [
        signature(**{name: value for''','''    defaults = {
        field.name
        for field in dataclasses.fields(signature)
        if field.default is not dataclasses.MISSING
    }
    return [
        signature(**{name: value for'''),("resultset.py",'''import typing
from collections''','''import dataclasses
import typing
from collections''')]
NEEDS="a data-class signature with a default value other than None, and a NULL in that column"
BREAKS="the NULL that the database returned is replaced with the default value of the field"
DEMO='''
import asyncio
from dataclasses import dataclass
from typing import Optional
from pysqlsync.dialect.postgresql.connection import PostgreSQLContext

@dataclass
class Row:
    id: int
    rating: Optional[int] = 5

class Native:
    async def fetch(self, statement):
        return [{"id": 1, "rating": None}, {"rating": 2, "id": 2}]

class Connection:
    pass

class Context(PostgreSQLContext):
    native_connection = Native()

rows = asyncio.run(Context(Connection()).query_all(Row, "SELECT id, rating FROM t"))
print(rows)
assert rows == [Row(1, None), Row(2, 2)]
'''
