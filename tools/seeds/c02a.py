ID="c02-like-escape-last"; PROPERTY="C02"
EDITS=[("model/data_types.py",'''        value.replace("'", "''")
        .replace(escape_char, f"{escape_char}{escape_char}")
        .replace("_", f"{escape_char}_")
''','''        value.replace("'", "''")
        .replace("_", f"{escape_char}_")
        .replace(escape_char, f"{escape_char}{escape_char}")
''')]
NEEDS="a schema name that contains an underscore, in a dialect that prefixes table names with the schema name"
BREAKS="the underscore is left as a wildcard behind an escaped escape character: the pattern matches no table of the schema"
DEMO='''
import re
from pysqlsync.model.data_types import escape_like

def matches(pattern, escape, text):
    out, i = "", 0
    while i < len(pattern):
        c = pattern[i]
        if c == escape:
            i += 1
            out += re.escape(pattern[i])
        elif c == "%":
            out += ".*"
        elif c == "_":
            out += "."
        else:
            out += re.escape(c)
        i += 1
    return re.fullmatch(out, text, re.DOTALL) is not None

for name in ["sample", "100%", "my_app", "a~b"]:
    pattern = escape_like(name, "~")
    print(name, pattern)
    assert matches(pattern, "~", name), name
    assert not matches(pattern, "~", name.replace("_", "x").replace("%", "yz")) or "_" not in name and "%" not in name
'''
