ID="c05-redshift-array-mode"; PROPERTY="C05"
EDITS=[("dialect/redshift/generator.py","self.check_array_mode(include=[ArrayMode.JSON, ArrayMode.RELATION])","self.check_array_mode(include=list(ArrayMode))")]
NEEDS="a Redshift generator created with array mode ARRAY"
BREAKS="Redshift has no array types, yet the mode is accepted and array columns are generated"
DEMO='''
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import FormationError
from pysqlsync.formation.py_to_sql import ArrayMode

engine = get_dialect("redshift")
for mode in (ArrayMode.JSON, ArrayMode.RELATION, None):
    engine.create_generator(GeneratorOptions(array_mode=mode))
try:
    engine.create_generator(GeneratorOptions(array_mode=ArrayMode.ARRAY))
except FormationError:
    pass
else:
    raise AssertionError
'''
