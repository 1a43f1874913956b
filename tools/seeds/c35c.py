ID="c35-unique-optional"; PROPERTY="C35"
EDITS=[("formation/py_to_sql.py",'''            if props.is_unique:
''','''            if props.is_unique and not props.nullable:
''')]
NEEDS="an optional field with the unique annotation"
BREAKS="the column has no unique constraint"
DEMO='''
import sys
from dataclasses import dataclass
from typing import Optional
from pysqlsync.formation.py_to_sql import DataclassConverter, DataclassConverterOptions, NamespaceMapping
from pysqlsync.formation.object_types import UniqueConstraint
from pysqlsync.model.key_types import PrimaryKey, Unique

@dataclass
class Person:
    id: PrimaryKey[int]
    email: Optional[Unique[str]]
    phone: Unique[Optional[str]]

converter = DataclassConverter(options=DataclassConverterOptions(namespaces=NamespaceMapping({sys.modules[__name__]: "demo"})))
table = converter.dataclass_to_table(Person)
unique = [c for c in table.constraints.values() if isinstance(c, UniqueConstraint)]
print(unique)
assert len(unique) == 2
'''
