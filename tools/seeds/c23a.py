ID = "c23-discovery-template"
PROPERTY = "C23"
EDITS = [("formation/data_types.py", """            sql_type = copy.copy(self.options.substitutions.get(type_name))
""", """            sql_type = self.options.substitutions.get(type_name)
            if isinstance(sql_type, SqlVariableCharacterType):
                # the limit is set below
                sql_type = copy.copy(sql_type)
""")]
NEEDS = "a type with a substitution other than a character type (such as a number), discovered in two columns of which one has a precision or scale and the other does not"
BREAKS = "the precision of one column is stored in the template, and all columns of the type that were discovered (before and after) have it"
DEMO = '''
from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
from pysqlsync.model.data_types import SqlDecimalType

template = SqlDecimalType()
discovery = SqlDiscovery(SqlDiscoveryOptions(substitutions={"NUMBER": template}))
first = discovery.sql_data_type_from_spec(type_name="NUMBER", numeric_precision=10, numeric_scale=2)
second = discovery.sql_data_type_from_spec(type_name="NUMBER")
assert (first.precision, first.scale) == (10, 2)
assert (second.precision, second.scale) == (None, None), second
assert (template.precision, template.scale) == (None, None), template
'''
