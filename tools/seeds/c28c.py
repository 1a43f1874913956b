ID="c28-oracle-clob"; PROPERTY="C28"
EDITS=[("dialect/oracle/discovery.py",'''            if col.data_type in ["BLOB", "CLOB"]:
                char_length = None
            else:
                char_length = col.char_length or col.data_length
''','''            char_length = col.char_length or col.data_length or None
''')]
NEEDS="an Oracle table with a CLOB or BLOB column: dba_tab_columns reports the size of the locator, 4000, as the length"
BREAKS="a CLOB column is discovered as varchar2(4000)"
DEMO='''
import asyncio
from dataclasses import fields
from pysqlsync.dialect.oracle import discovery
from pysqlsync.dialect.oracle.discovery import OracleColumnMeta, OracleConstraintMeta, OracleExplorer
from pysqlsync.model.id_types import PrefixedId

ROWS = [
    dict(column_name="id", data_type="NUMBER", data_length=22),
    dict(column_name="name", data_type="VARCHAR2", data_length=80, char_length=80),
    dict(column_name="token", data_type="RAW", data_length=16),
    dict(column_name="body", data_type="CLOB", data_length=4000),
    dict(column_name="image", data_type="BLOB", data_length=4000),
]

class Generator:
    def get_current_schema_stmt(self):
        return "USER"

class Connection:
    generator = Generator()

class Conn:
    connection = Connection()

    async def query_all(self, signature, statement):
        if signature is OracleColumnMeta:
            out = []
            for r in ROWS:
                values = {f.name: None for f in fields(OracleColumnMeta)}
                values.update(is_nullable=False, is_identity=False, char_length=0)
                values.update(r)
                out.append(OracleColumnMeta(**values))
            return out
        if signature is OracleConstraintMeta:
            values = {f.name: None for f in fields(OracleConstraintMeta)}
            values.update(constraint_name="pk", constraint_type="P", source_column="id")
            return [OracleConstraintMeta(**values)]
        return []

class Explorer(OracleExplorer):
    __abstractmethods__ = frozenset()

table = asyncio.run(Explorer(Conn()).get_table(PrefixedId(None, "doc")))
found = {c.name.local_id: str(c.data_type) for c in table.columns.values()}
print(found)
assert found == {"id": "number", "name": "varchar2(80)", "token": "raw(16)", "body": "clob", "image": "blob"}
'''
