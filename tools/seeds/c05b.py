ID="c05-modes-checked-when-namespaced"; PROPERTY="C05"
EDITS=[("dialect/mssql/generator.py","        self.check_enum_mode(exclude=[EnumMode.TYPE, EnumMode.INLINE])\n        self.check_struct_mode(matches=StructMode.JSON)\n","        if not options.skip_annotations:\n            self.check_enum_mode(exclude=[EnumMode.TYPE, EnumMode.INLINE])\n        self.check_struct_mode(matches=StructMode.JSON)\n")]
NEEDS="a SQL Server generator created with an unsupported enum mode and with annotations to skip"
BREAKS="the unsupported mode is not refused"
DEMO='''
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import FormationError
from pysqlsync.formation.py_to_sql import EnumMode

engine = get_dialect("mssql")
for skip in ((), (str,)):
    engine.create_generator(GeneratorOptions(enum_mode=EnumMode.CHECK, skip_annotations=skip))
    for mode in (EnumMode.TYPE, EnumMode.INLINE):
        try:
            engine.create_generator(GeneratorOptions(enum_mode=mode, skip_annotations=skip))
        except FormationError:
            continue
        raise AssertionError(f"{mode} accepted")
'''
