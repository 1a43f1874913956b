ID = "c38a-values-of-the-last-type-only"
PROPERTY = "C38"
EDITS = [("formation/mutation.py", "                if enum_type.name != table.name:\n                    continue\n\n                statements", "                if enum_type.name != table.name:\n                    break\n\n                statements")]
NEEDS = "two enumeration types that become lookup tables at once, or another table that is created before the lookup table"
BREAKS = "the values of the type are not put in the lookup table, and the rows that refer to them find no key"
DEMO = '''
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import Column, EnumType, Namespace
from pysqlsync.model.data_types import SqlIntegerType, SqlVariableCharacterType
from pysqlsync.model.id_types import LocalId, QualifiedId

g = get_dialect("postgresql").create_generator(GeneratorOptions())
f = g.converter.options.factory
def lookup(n):
    return f.table_class(name=QualifiedId("ns", n), columns=[f.column_class(LocalId("id"), SqlIntegerType(4), False, identity=True), f.column_class(LocalId("value"), SqlVariableCharacterType(), False)], primary_key=(LocalId("id"),), constraints=None, description=None)
def other(n):
    return f.table_class(name=QualifiedId("ns", n), columns=[f.column_class(LocalId("id"), SqlIntegerType(4), False)], primary_key=(LocalId("id"),), constraints=None, description=None)
src = f.namespace_class(LocalId("ns"), enums=[EnumType(QualifiedId("ns", "A"), ["a1"]), EnumType(QualifiedId("ns", "B"), ["b1"])], structs=[], tables=[])
tgt = f.namespace_class(LocalId("ns"), enums=[], structs=[], tables=[other("X"), lookup("A"), lookup("B")])
s = g.mutator.mutate_namespace_stmt(src, tgt)
assert "'a1'" in s and "'b1'" in s, s
'''
