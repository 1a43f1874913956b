ID="c19-quote-safe-slash"; PROPERTY="C19"
EDITS=[("connection.py","quote(self.username, safe='')","quote(self.username)")]
NEEDS="a user name that contains a slash"
BREAKS="the text form of connection parameters does not parse back: the slash in the user name ends the authority component"
DEMO='''
from pysqlsync.connection import ConnectionParameters
from pysqlsync.factory import get_parameters

for name in ["user", "a b", "dom/user", "x@y:z"]:
    parameters = ConnectionParameters(host="server", port=5432, username=name, database="db")
    _, parsed = get_parameters(f"postgresql://{parameters}")
    print(name, parsed)
    assert parsed.username == name
    assert parsed.host == "server"
    assert parsed.database == "db"
'''
