ID="c24-modules-by-set"; PROPERTY="C24"
EDITS=[("formation/py_to_sql.py","for module_name in dict.fromkeys([*tables, *enums, *structs])","for module_name in {*tables, *enums, *structs}")]
NEEDS="classes in several modules whose namespaces do not refer to each other, in processes with different hash seeds"
BREAKS="the order in which namespaces and their tables are created depends on the hash seed"
DEMO='''
import os
import subprocess
import sys

PROGRAM = """
import dataclasses
import sys
import types
from pysqlsync.base import GeneratorOptions
from pysqlsync.dialect.postgresql.generator import PostgreSQLGenerator
from pysqlsync.model.key_types import PrimaryKey

source = "import dataclasses\\\\nfrom pysqlsync.model.key_types import PrimaryKey\\\\n@dataclasses.dataclass\\\\nclass {name}:\\\\n    id: PrimaryKey[int]\\\\n"
modules = []
for name in ("Alpha", "Beta", "Gamma", "Delta", "Epsilon"):
    module = types.ModuleType("mod_" + name.lower())
    sys.modules[module.__name__] = module
    exec(source.format(name=name), module.__dict__)
    modules.append(module)
generator = PostgreSQLGenerator(GeneratorOptions(namespaces={m: m.__name__ for m in modules}))
print(generator.create(modules=modules))
"""

texts = set()
for seed in range(8):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    texts.add(subprocess.run([sys.executable, "-c", PROGRAM], env=env, check=True, capture_output=True, text=True).stdout)
assert len(texts) == 1, texts
assert "Gamma" in texts.pop()
'''
