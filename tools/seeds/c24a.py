ID="c24-difference-by-set"; PROPERTY="C24"
EDITS=[("formation/object_dict.py","""        for key, item in self.items():
            if key not in op:
                yield item
""","""        for key in self.keys() - op.keys():
            yield self[key]
""")]
NEEDS="a change that adds or removes several objects of a kind at once, in processes with different hash seeds"
BREAKS="the order of the statements that create or drop the objects, and of the columns of the table, depends on the hash seed"
DEMO='''
import os
import subprocess
import sys

PROGRAM = """
from pysqlsync.formation.object_types import Column, Table, Catalog, Namespace
from pysqlsync.formation.mutation import Mutator
from pysqlsync.model.data_types import SqlIntegerType
from pysqlsync.model.id_types import LocalId, QualifiedId

def catalog(*names):
    columns = [Column(LocalId(name), SqlIntegerType(4), False) for name in ("id", *names)]
    return Catalog([Namespace(LocalId("ns"), tables=[Table(QualifiedId("ns", "t"), columns, primary_key=(LocalId("id"),))])])

names = ("alpha", "beta", "gamma", "delta", "epsilon")
print(Mutator().mutate_catalog_stmt(catalog(), catalog(*names)))
"""

texts = set()
for seed in range(8):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    texts.add(subprocess.run([sys.executable, "-c", PROGRAM], env=env, check=True, capture_output=True, text=True).stdout)
assert len(texts) == 1, texts
assert "gamma" in texts.pop()
'''
