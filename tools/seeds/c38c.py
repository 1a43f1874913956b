ID = "c38c-first-name-dropped-with-the-second"
PROPERTY = "C38"
EDITS = [("formation/mutation.py", "                    enum_type.hard_drop_stmt()\n                    if enum_type in enum_soft_deleted\n", "                    enum_type.hard_drop_stmt()\n                    if enum_soft_deleted\n")]
NEEDS = "an enumeration type that becomes a lookup table together with one that is just removed"
BREAKS = "the script drops a type under a name that it never had, and fails"
DEMO = '''
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import EnumType
from pysqlsync.model.data_types import SqlIntegerType, SqlVariableCharacterType
from pysqlsync.model.id_types import LocalId, QualifiedId

g = get_dialect("postgresql").create_generator(GeneratorOptions())
f = g.converter.options.factory
def lookup(n):
    return f.table_class(name=QualifiedId("ns", n), columns=[f.column_class(LocalId("id"), SqlIntegerType(4), False, identity=True), f.column_class(LocalId("value"), SqlVariableCharacterType(), False)], primary_key=(LocalId("id"),), constraints=None, description=None)
src = f.namespace_class(LocalId("ns"), enums=[EnumType(QualifiedId("ns", "A"), ["a1"]), EnumType(QualifiedId("ns", "B"), ["b1"])], structs=[], tables=[])
tgt = f.namespace_class(LocalId("ns"), enums=[], structs=[], tables=[lookup("A")])
s = g.mutator.mutate_namespace_stmt(src, tgt)
dropped = [l for l in s.splitlines() if l.startswith("DROP TYPE")]
renamed = [l for l in s.splitlines() if "RENAME TO" in l]
assert len(dropped) == 2 and len(renamed) == 1, s
assert any(l == 'DROP TYPE "ns"."B";' for l in dropped), s
'''
