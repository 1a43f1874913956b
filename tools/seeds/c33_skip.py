ID = "c33-skip-annotation"
PROPERTY = "C33"
EDITS = [("formation/py_to_sql.py", "                if isinstance(meta, self.options.skip_annotations):\n                    continue\n", "                if isinstance(meta, self.options.skip_annotations):\n                    break\n")]
NEEDS = "a field with an application annotation that is to be skipped, followed by an annotation that bounds its values"
BREAKS = "Annotations that follow a skipped one are dropped, and the column type does not hold the values that they declare (e.g. decimal without scale in MySQL)."
DEMO = '''
import sys
from dataclasses import dataclass
from decimal import Decimal
from typing import Annotated
from strong_typing.auxiliary import Precision
from pysqlsync.model.key_types import PrimaryKey
from pysqlsync.formation.py_to_sql import dataclass_to_table, DataclassConverterOptions, NamespaceMapping

class Note:
    pass

@dataclass
class Payment:
    id: PrimaryKey[int]
    amount: Annotated[Decimal, Note(), Precision(18, 4)]

options = DataclassConverterOptions(namespaces=NamespaceMapping({sys.modules[__name__]: "demo"}), skip_annotations=(Note,))
table = dataclass_to_table(Payment, options=options)
column = [c for c in table.columns.values() if c.name.local_id == "amount"][0]
print(column)
assert column.data_type.scale == 4, column
'''
