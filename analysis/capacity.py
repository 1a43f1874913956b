"""
What the column types of each database can hold. The tables below are taken from the manuals of the products; they map the text of
a type, as the database reads it, to the length of the longest value that a column of this type takes.
"""

from __future__ import annotations

import re
from typing import Optional

INF = float("inf")

FIXED = {"char", "character", "nchar", "binary"}
# longest value of a type without a size, where not unbounded (None: there is no such type)
BARE: dict[str, dict[str, Optional[float]]] = {
    "mysql": {"tinytext": 255, "text": 65535, "mediumtext": 16777215, "longtext": 4294967295, "tinyblob": 255, "blob": 65535, "mediumblob": 16777215, "longblob": 4294967295},
    "redshift": {"text": 256, "varchar": 256, "varbyte": 64000, "varbinary": 64000, "binary varying": 64000, "blob": None},
    "oracle": {"varchar2": None, "raw": None},
    "mssql": {"varchar": 1, "nvarchar": 1, "varbinary": 1},
}
# types without a size that are not of fixed size in spite of their name
UNSIZED = {"delta": {"binary": INF, "string": INF}, "snowflake": {"binary": 8388608, "varbinary": 8388608, "text": 16777216, "varchar": 16777216}}
# the greatest size that can be declared
MAXIMUM: dict[str, dict[str, int]] = {
    "mysql": {"varchar": 65535, "varbinary": 65535, "char": 255, "binary": 255},
    "redshift": {"varchar": 65535, "char": 4096, "varbyte": 1024000, "varbinary": 1024000},
    "oracle": {"varchar2": 4000, "raw": 2000, "char": 2000},
    "mssql": {"varchar": 8000, "nvarchar": 4000, "varbinary": 8000, "char": 8000, "binary": 8000},
    "snowflake": {"varchar": 16777216, "binary": 8388608, "varbinary": 8388608},
}


def size(dialect: str, text: str) -> Optional[float]:
    "Length of the longest value of a character or binary type, or None if the type cannot be declared."
    m = re.fullmatch(r"\s*([a-z0-9_ ]+?)\s*(?:\(\s*(\d+|max)\s*(?:byte|char)?\s*\))?\s*", text.lower())
    if m is None:
        return None
    name, n = m.group(1), m.group(2)
    if n == "max":
        return INF
    if n is not None:
        if int(n) < 1:
            return None
        limit = MAXIMUM.get(dialect, {}).get(name)
        return None if limit is not None and int(n) > limit else int(n)
    if name in UNSIZED.get(dialect, {}):
        return UNSIZED[dialect][name]
    if name in BARE.get(dialect, {}):
        return BARE[dialect][name]
    return 1 if name in FIXED else INF
