ID = "c38d-only-the-last-column-is-translated"
PROPERTY = "C38"
EDITS = [("formation/mutation.py", "                    migrated_columns.append(pair)\n", "                    migrated_columns = [pair]\n")]
NEEDS = "a table with two enumeration columns that become keys at once"
BREAKS = "the values of the first column are not translated to the new column, which stays empty"
DEMO = '''
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import ConstraintReference, ForeignConstraint
from pysqlsync.model.data_types import SqlEnumType, SqlIntegerType
from pysqlsync.model.id_types import LocalId, QualifiedId

g = get_dialect("mysql").create_generator(GeneratorOptions())
f = g.converter.options.factory
def table(ty, cs):
    return f.table_class(name=QualifiedId("ns", "t"), columns=[f.column_class(LocalId("id"), SqlIntegerType(4), False), f.column_class(LocalId("c"), ty, True), f.column_class(LocalId("d"), ty, True)], primary_key=(LocalId("id"),), constraints=cs, description=None)
def fk(c, t):
    return ForeignConstraint(LocalId("fk_" + c), (LocalId(c),), ConstraintReference(QualifiedId("ns", t), (LocalId("id"),)))
s = g.mutator.mutate_table_stmt(table(SqlEnumType(["x", "y"]), []), table(SqlIntegerType(4), [fk("c", "choice"), fk("d", "decision")]))
assert s.count("UPDATE \\"ns\\".\\"t\\"") == 2, s
'''
