ID="c04-array-mode-lost"; PROPERTY="C04"
EDITS=[("dialect/postgresql/generator.py","array_mode=options.array_mode or ArrayMode.ARRAY","array_mode=(\n                    ArrayMode.JSON\n                    if options.struct_mode is StructMode.JSON\n                    else options.array_mode or ArrayMode.ARRAY\n                )")]
NEEDS="a PostgreSQL generator with struct_mode=JSON and array_mode=ARRAY"
BREAKS="the array mode stated by the user is replaced by JSON"
DEMO='''
import sys
from dataclasses import dataclass

from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.py_to_sql import ArrayMode, StructMode
from pysqlsync.model.key_types import PrimaryKey


@dataclass
class Item:
    id: PrimaryKey[int]
    tags: list[str]


for struct_mode in (None, StructMode.TYPE, StructMode.JSON):
    options = GeneratorOptions(struct_mode=struct_mode, array_mode=ArrayMode.ARRAY, namespaces={sys.modules[__name__]: None})
    script = get_dialect("postgresql").create_generator(options).create(tables=[Item])
    print(script)
    assert "ARRAY" in script or "[]" in script, struct_mode
'''
