ID="c16-undeclared-driver"; PROPERTY="C16"
EDITS=[("dialect/mysql/dependency.py","import aiomysql  # noqa: F401\nimport cryptography","import cryptography")]
NEEDS="an environment that has the package cryptography but lacks aiomysql"
BREAKS="the whole library fails to import, instead of the dialect being reported as unavailable"
DEMO='''
import sys


class Absent:
    def find_spec(self, name, path=None, target=None):
        if name.partition(".")[0] in ("aiomysql", "pymysql"):
            raise ModuleNotFoundError(name, name=name)


sys.meta_path.insert(0, Absent())
from pysqlsync.factory import get_dialect

get_dialect("postgresql").get_generator_type()
try:
    get_dialect("mysql").get_generator_type()
except RuntimeError:
    pass
else:
    raise AssertionError
'''
