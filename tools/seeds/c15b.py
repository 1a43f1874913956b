ID="c15-password-as-userinfo"; PROPERTY="C15"
EDITS=[("connection.py","""        username = f"{quote(self.username, safe='')}@" if self.username else ""
""","""        userinfo = self.username or self.password
        username = f"{quote(userinfo, safe='')}@" if userinfo else ""
""")]
NEEDS="a password (or token) without a user name"
BREAKS="the text form of connection parameters, which is logged, includes the password"
DEMO='''
from pysqlsync.connection import ConnectionParameters

for username in ["root", None]:
    text = str(ConnectionParameters(host="server", username=username, password="s3cret", database="db"))
    print(text)
    assert "s3cret" not in text
'''
