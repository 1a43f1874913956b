ID = "c33-text-boundary"
PROPERTY = "C33"
EDITS = [("dialect/mysql/data_types.py", "        elif self.limit < 16777216:\n            return \"mediumtext\"\n", "        elif self.limit < 67108864:\n            return \"mediumtext\"\n")]
NEEDS = "a field whose maximum length is between 16 and 64 million characters"
BREAKS = "MySQL mediumtext holds 16777215 bytes only; the column does not hold the longest values that the field allows."
DEMO = '''
import sys
from dataclasses import dataclass
from typing import Annotated
from strong_typing.auxiliary import MaxLength
from pysqlsync.dialect.mysql.data_types import MySQLVariableCharacterType
assert str(MySQLVariableCharacterType(16777215)) in ("mediumtext", "longtext")
for n in (16777216, 20000000, 67108863):
    assert str(MySQLVariableCharacterType(n)) == "longtext", n
'''
