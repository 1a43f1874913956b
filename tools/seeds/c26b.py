ID = "c26-async-header-strip"
PROPERTY = "C26"
EDITS = [("data/exchange.py", """        line = await self.stream.readline()
        header = line.rstrip(b"\\n")
""", """        line = await self.stream.readline()
        header = line.strip()
""")]
NEEDS = "a file read asynchronously whose first column name starts with a space, or whose last column name ends in one"
BREAKS = "the header is trimmed by the asynchronous reader only, so that a column that the file has is not found under its name"
DEMO = '''
import asyncio, io
from pysqlsync.data.exchange import AsyncTextReader, TextReader

data = b"id\\tfull name \\n1\\tAlice\\n"
types = {"id": int, "full name ": str}

class Stream:
    def __init__(self, data):
        self.stream = io.BytesIO(data)
    async def readline(self, limit=-1):
        return self.stream.readline(limit)

async def read():
    reader = AsyncTextReader(Stream(data), types)
    await reader.read_header()
    return reader.columns, await reader.read_records()

reader = TextReader(io.BytesIO(data), types)
expected = (reader.columns, reader.read_records())
assert expected == (("id", "full name "), [(1, "Alice")]), expected
assert asyncio.run(read()) == expected
'''
