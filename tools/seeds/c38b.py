ID = "c38b-key-of-another-relation"
PROPERTY = "C38"
EDITS = [("formation/object_types.py", "            if column_id not in constraint.foreign_columns:\n                continue\n            return constraint.reference", "            if column_id.id not in self.columns:\n                continue\n            return constraint.reference")]
NEEDS = "a table with another foreign key in front of that of the enumeration"
BREAKS = "the values of the column are looked up in the table of another relation"
DEMO = '''
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import ConstraintReference, ForeignConstraint
from pysqlsync.model.data_types import SqlEnumType, SqlIntegerType
from pysqlsync.model.id_types import LocalId, QualifiedId

g = get_dialect("mysql").create_generator(GeneratorOptions())
f = g.converter.options.factory
def table(ty, cs):
    return f.table_class(name=QualifiedId("ns", "t"), columns=[f.column_class(LocalId("id"), SqlIntegerType(4), False), f.column_class(LocalId("owner"), SqlIntegerType(4), True), f.column_class(LocalId("c"), ty, True)], primary_key=(LocalId("id"),), constraints=cs, description=None)
def fk(c, t):
    return ForeignConstraint(LocalId("fk_" + c), (LocalId(c),), ConstraintReference(QualifiedId("ns", t), (LocalId("id"),)))
s = g.mutator.mutate_table_stmt(table(SqlEnumType(["x", "y"]), [fk("owner", "people")]), table(SqlIntegerType(4), [fk("owner", "people"), fk("c", "choice")]))
assert "people" not in s and "choice" in s, s
'''
