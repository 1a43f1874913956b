ID="c21-reregistered"; PROPERTY="C21"
EDITS=[("factory.py","    if engine_name in _engines:\n","    if type(_engines.get(engine_name)) is type(engine_factory):\n")]
NEEDS="an engine registered by the application under the name of a bundled dialect"
BREAKS="the bundled engine is silently replaced"
DEMO='''
from pysqlsync.base import BaseEngine
from pysqlsync.factory import get_dialect, register_dialect

original = get_dialect("postgresql")


class Engine(type(original)):
    pass


for engine in (original, Engine()):
    try:
        register_dialect("postgresql", engine)
    except ValueError:
        assert get_dialect("postgresql") is original
    else:
        raise AssertionError
'''
