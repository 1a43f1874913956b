ID="c35-optional-list"; PROPERTY="C35"
EDITS=[("formation/py_to_sql.py",'''        if is_type_optional(field_type):
            field_type = unwrap_optional_type(field_type)

        field_type = unwrap_annotated_type(field_type)
''','''        field_type = unwrap_annotated_type(field_type)
''')]
NEEDS="a field whose type is an optional list of data-classes with a primary key"
BREAKS="the field is not taken for a relationship: there is no join table for it"
DEMO='''
import sys
from dataclasses import dataclass
from typing import Optional
from pysqlsync.formation.py_to_sql import DataclassConverter, DataclassConverterOptions, NamespaceMapping
from pysqlsync.model.key_types import PrimaryKey

@dataclass
class Person:
    id: PrimaryKey[int]

@dataclass
class Student:
    id: PrimaryKey[int]
    guardians: Optional[list[Person]]

converter = DataclassConverter(options=DataclassConverterOptions(namespaces=NamespaceMapping({sys.modules[__name__]: "demo"})))
catalog = converter.dataclasses_to_catalog([Person, Student])
names = [str(t.name) for n in catalog.namespaces.values() for t in n.tables.values()]
print(names)
assert len(names) == 3
'''
