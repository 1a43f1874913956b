ID="c21-unavailable-explorer"; PROPERTY="C21"
EDITS=[("factory.py","""    def get_explorer_type(self) -> type[Explorer]:
        self._raise_error()
""","""    def get_explorer_type(self) -> type[Explorer]:
        return Explorer
""")]
NEEDS="asking for the explorer of a dialect whose driver is not installed"
BREAKS="an abstract class is returned instead of the error that names the missing driver"
DEMO='''
from pysqlsync.factory import get_dialect, UnavailableEngine

engine = get_dialect("test")
for fn in (engine.get_generator_type, engine.get_connection_type, engine.get_explorer_type):
    try:
        fn()
    except RuntimeError as e:
        assert "module_not_found" in str(e)
    else:
        raise AssertionError(fn)
'''
