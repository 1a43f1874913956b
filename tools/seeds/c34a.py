ID = "c34-composite-reference-order"
PROPERTY = "C34"
EDITS = [("formation/object_types.py", 'target_columns = ", ".join(str(column) for column in self.reference.columns)', 'target_columns = ", ".join(\n            sorted(str(column) for column in self.reference.columns)\n        )')]
NEEDS = "a foreign key of two or more columns whose referenced columns are not in alphabetical order"
BREAKS = "The columns of a composite foreign key are matched with the wrong columns of the referenced table."
DEMO = '''
from pysqlsync.formation.object_types import ForeignConstraint, ConstraintReference
from pysqlsync.model.id_types import LocalId, QualifiedId
c = ForeignConstraint(LocalId("fk"), (LocalId("order_year"), LocalId("order_no")), ConstraintReference(QualifiedId("s", "orders"), (LocalId("year"), LocalId("no"))))
print(c.spec)
assert c.spec.replace(" ", "").endswith('("order_year","order_no")REFERENCES"s"."orders"("year","no")'), c.spec
'''
