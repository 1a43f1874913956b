ID="c06-constraints-before-tables"; PROPERTY="C06"
EDITS=[("formation/mutation.py","""        statements.extend(table.create_stmt() for table in table_create)
        statements.extend(table.add_constraints_stmt() for table in table_create)
""","""        for table in table_create:
            statements.append(table.create_stmt())
            statements.append(table.add_constraints_stmt())
""")]
NEEDS="two tables added to an existing namespace, the first of which refers to the second"
BREAKS="a foreign key is added before the table it refers to exists"
DEMO='''
from pysqlsync.formation.mutation import Mutator
from pysqlsync.formation.object_types import Catalog, Column, ConstraintReference, ForeignConstraint, Namespace, Table
from pysqlsync.model.data_types import SqlIntegerType
from pysqlsync.model.id_types import LocalId, QualifiedId


def table(name, ref=None):
    columns = [Column(LocalId("id"), SqlIntegerType(8), False), Column(LocalId("ref"), SqlIntegerType(8), True)]
    constraints = []
    if ref:
        constraints.append(ForeignConstraint(LocalId("fk_" + name), (LocalId("ref"),), ConstraintReference(QualifiedId("ns", ref), (LocalId("id"),))))
    return Table(QualifiedId("ns", name), columns, primary_key=(LocalId("id"),), constraints=constraints)


def catalog(*tables):
    return Catalog([Namespace(LocalId("ns"), enums=[], structs=[], tables=list(tables))])


script = Mutator().mutate_catalog_stmt(catalog(table("o")), catalog(table("o"), table("a", "b"), table("b"))) or ""
print(script)
assert script.index('CREATE TABLE "ns"."b"') < script.index('REFERENCES "ns"."b"')
'''
