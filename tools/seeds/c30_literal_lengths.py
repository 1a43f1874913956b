ID = "c30-literal-lengths"
PROPERTY = "C30"
EDITS = [("formation/py_to_sql.py", "                    SqlFixedCharacterType(limit=len(v)) for v in literal_values\n", "                    SqlFixedCharacterType(limit=len(v.strip())) for v in literal_values\n")]
NEEDS = "a field of a literal type whose longest value has a space at either end"
BREAKS = "The column is declared shorter than the longest value of the literal type, so this value does not fit."
DEMO = '''
import sys
from dataclasses import dataclass
from typing import Literal
from strong_typing.auxiliary import int64
from pysqlsync.model.key_types import PrimaryKey
from pysqlsync.formation.py_to_sql import dataclass_to_table, DataclassConverterOptions
from pysqlsync.model.data_types import SqlFixedCharacterType

@dataclass
class Entry:
    id: PrimaryKey[int]
    marker: Literal["- ", "+"]

from pysqlsync.formation.py_to_sql import NamespaceMapping
table = dataclass_to_table(Entry, options=DataclassConverterOptions(namespaces=NamespaceMapping({sys.modules[__name__]: "demo"})))
column = [c for c in table.columns.values() if c.name.local_id == "marker"][0]
print(column)
assert column.data_type.limit >= 2, column
'''
