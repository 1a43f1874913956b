ID="c17-oracle-columns-swapped"; PROPERTY="C17"
EDITS=[("dialect/oracle/discovery.py",'''            "    t.data_precision,\\n"
            "    t.data_scale,\\n"
''','''            "    t.data_scale,\\n"
            "    t.data_precision,\\n"
''')]
NEEDS="a decimal column in an Oracle table, whose rows are decoded by position"
BREAKS="precision and scale of decimal columns are exchanged by discovery"
DEMO='''
import asyncio, re
from pysqlsync.dialect.oracle.discovery import OracleExplorer
from pysqlsync.dialect.oracle.generator import OracleGenerator
from pysqlsync.formation.py_to_sql import *
from pysqlsync.base import GeneratorOptions
from pysqlsync.model.id_types import PrefixedId

ROW = {"column_name": "amount", "data_type": "DECIMAL", "data_type_owner": None, "data_length": 22, "data_precision": 12, "data_scale": 3, "is_nullable": True, "data_default": None, "char_length": None, "is_identity": False, "comments": None}

class Connection:
    generator = OracleGenerator(GeneratorOptions())

class Conn:
    connection = Connection()
    async def query_all(self, typ, stmt):
        if "dba_tab_columns" not in stmt:
            return []
        columns = [re.search(r"(\\w+),?$", line.strip()).group(1) for line in re.match(r"SELECT\\s(.*)FROM", stmt, re.S).group(1).strip().splitlines()]
        return [typ(*[ROW[c] for c in columns])]

table = asyncio.run(OracleExplorer(Conn()).get_table(PrefixedId("ns", "t")))
(column,) = table.columns.values()
print(column)
assert (column.data_type.precision, column.data_type.scale) == (12, 3)
'''
