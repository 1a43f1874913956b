ID="c35-nested-identity"; PROPERTY="C35"
EDITS=[("model/properties.py",'''    metadata.extend(_get_field_metadata(plain_type))
    plain_type = unwrap_annotated_type(plain_type)
''','''    if nullable:
        metadata.extend(_get_field_metadata(plain_type))
    plain_type = unwrap_annotated_type(plain_type)
''')]
NEEDS="a key annotation within an identity annotation, Identity[PrimaryKey[int]]"
BREAKS="the annotation is not seen: the data-class is taken for a composite type"
DEMO='''
import sys
from dataclasses import dataclass
from pysqlsync.formation.py_to_sql import DataclassConverter, DataclassConverterOptions, NamespaceMapping
from pysqlsync.model.key_types import Identity, PrimaryKey
from pysqlsync.model.properties import get_field_properties

props = get_field_properties(Identity[PrimaryKey[int]])
print(props)
assert props.is_primary and props.is_identity
'''
