ID = "c23-merge-shares-columns"
PROPERTY = "C23"
EDITS = [("formation/object_types.py", "                self.tables.add(copy.deepcopy(op_table))", "                self.tables.add(copy.copy(op_table))")]
NEEDS = "a catalog that was merged into another is changed afterwards (or the other one is)"
BREAKS = "the collections of columns and constraints of the merged table are shared between the two catalogs: a change in one appears in the other"
DEMO = '''
from pysqlsync.formation.object_types import Catalog, Column, Namespace, Table
from pysqlsync.model.data_types import SqlIntegerType
from pysqlsync.model.id_types import LocalId, QualifiedId

def column(name):
    return Column(LocalId(name), SqlIntegerType(8), False)

def catalog(table):
    return Catalog([Namespace(LocalId("demo"), enums=[], structs=[], tables=[Table(QualifiedId("demo", table), [column("id")], primary_key=(LocalId("id"),))])])

state, addition = catalog("first"), catalog("second")
state.merge(addition)
state.namespaces["demo"].tables["second"].columns.add(column("more"))
assert list(state.namespaces["demo"].tables["second"].columns) == ["id", "more"]
assert list(addition.namespaces["demo"].tables["second"].columns) == ["id"], addition
'''
