ID="c16-broken-driver-hidden"; PROPERTY="C16"
EDITS=[("factory.py","        except ModuleNotFoundError as e:\n            LOGGER.debug(","        except ImportError as e:\n            LOGGER.debug(")]
NEEDS="a driver that is installed but fails to load (e.g. a shared library it depends on is missing)"
BREAKS="the failure is hidden and reported as a driver that is not installed"
DEMO='''
import sys


class Broken:
    def find_spec(self, name, path=None, target=None):
        if name == "pyodbc":
            raise ImportError("libodbc.so.2: cannot open shared object file", name=name)


sys.meta_path.insert(0, Broken())
try:
    import pysqlsync.factory
except ModuleNotFoundError:
    raise AssertionError
except ImportError as e:
    assert "libodbc" in str(e)
else:
    raise AssertionError("hidden")
'''
