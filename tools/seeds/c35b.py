ID="c35-join-key-type"; PROPERTY="C35"
EDITS=[("formation/py_to_sql.py",'''                        dataclass_primary_key_type(item_type), item_type
''','''                        dataclass_primary_key_type(entity), entity
''')]
NEEDS="a list of data-classes whose primary key has a type other than the key of the class with the list"
BREAKS="the column of the join table that refers to the item has the type of the key of the owner"
DEMO='''
import sys
import uuid
from dataclasses import dataclass
from pysqlsync.formation.py_to_sql import DataclassConverter, DataclassConverterOptions, NamespaceMapping
from pysqlsync.model.key_types import PrimaryKey

@dataclass
class Person:
    id: PrimaryKey[uuid.UUID]

@dataclass
class Student:
    id: PrimaryKey[int]
    guardians: list[Person]

converter = DataclassConverter(options=DataclassConverterOptions(namespaces=NamespaceMapping({sys.modules[__name__]: "demo"})))
catalog = converter.dataclasses_to_catalog([Person, Student])
tables = {t.name.local_id: t for n in catalog.namespaces.values() for t in n.tables.values()}
join = tables["Student_guardians_Person"]
person = tables["Person"]
print(join.columns["Person_id"].data_type, person.columns["id"].data_type)
assert str(join.columns["Person_id"].data_type) == str(person.columns["id"].data_type)
'''
