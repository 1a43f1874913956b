ID="c02-e-string-backslash"; PROPERTY="C02"
EDITS=[("dialect/postgresql/object_types.py",'''        "\\\\": "\\\\\\\\",
        "'": "\\\\'",
        "\\b": "\\\\b",''','''        "'": "\\\\'",
        "\\b": "\\\\b",''')]
NEEDS="a description with a line break and a backslash before a quote"
BREAKS="a backslash is copied into an E'' literal, where it escapes the character that follows: a comment can end its literal"
DEMO='''
from pysqlsync.dialect.postgresql.object_types import sql_quoted_string

def read(sql):
    if sql.startswith("E'"):
        i, out = 2, ""
        while sql[i] != "'" or sql[i:i+2] == "''":
            if sql[i] == "\\\\":
                out += {"n": "\\n", "t": "\\t", "r": "\\r", "b": "\\b", "f": "\\f"}.get(sql[i+1], sql[i+1])
                i += 2
            elif sql[i] == "'":
                out += "'"
                i += 2
            else:
                out += sql[i]
                i += 1
        assert i == len(sql) - 1, sql
        return out
    assert sql[0] == "'" and sql[-1] == "'"
    return sql[1:-1].replace("''", "'")

for text in ["plain", "it's", "two\\nlines", "tab\\tand 'quote'", "path C:\\\\new", "C:\\\\new\\nline", "\\\\'; DROP TABLE t; --\\n"]:
    sql = sql_quoted_string(text)
    print(sql)
    assert read(sql) == text, (text, sql)
'''
