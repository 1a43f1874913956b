ID = "c26-decimal-precision"
PROPERTY = "C26"
EDITS = [("model/properties.py", """    elif plain_type is decimal.Decimal:
        return decimal.Decimal
""", """    elif plain_type is decimal.Decimal:
        return float
""")]
NEEDS = "an entity with a field of type decimal.Decimal whose value has more digits than a double-precision number holds"
BREAKS = "decimal values are read back from a delimited text file as binary floating-point numbers, and lose digits"
DEMO = '''
import decimal, io
from dataclasses import dataclass
from pysqlsync.data.exchange import TextReader, TextWriter, fields_to_types

@dataclass
class Row:
    id: int
    amount: decimal.Decimal

rows = [Row(1, decimal.Decimal("12345678901234567890.123456789")), Row(2, decimal.Decimal("0.10"))]
stream = io.BytesIO()
TextWriter(stream, Row).write_objects(rows)
stream.seek(0)
got = TextReader(stream, fields_to_types(Row)).read_records()
assert got == [(r.id, r.amount) for r in rows], got
assert all(isinstance(v, decimal.Decimal) for _, v in got), got
'''
