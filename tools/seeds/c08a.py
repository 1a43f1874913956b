ID="c08-value-columns-identity"; PROPERTY="C08"
EDITS=[("base.py","column for column in insert_columns if not table.is_lookup_column(column)","column\n            for column in insert_columns\n            if column.name != columns[0].name and not table.is_unique_column(column)")]
NEEDS="an upsert with an explicit column order in which the primary key is not the first column, in a dialect that uses MERGE"
BREAKS="the update clause assigns the primary key column"
DEMO='''
from dataclasses import dataclass
import sys

from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import Table, Column
from pysqlsync.model.data_types import SqlIntegerType
from pysqlsync.model.id_types import LocalId, QualifiedId

generator = get_dialect("mssql").create_generator(GeneratorOptions())
table = Table(
    QualifiedId("ns", "t"),
    [Column(LocalId(n), SqlIntegerType(8), False) for n in ("id", "a", "b")],
    primary_key=(LocalId("id"),),
)
for order in (None, ("id", "a"), ("a", "id"), ("b", "a", "id")):
    text = generator.get_table_upsert_stmt(table, order)
    for line in text.splitlines():
        if line.startswith("UPDATE SET"):
            print(line)
            assert 'target."id"' not in line, order
'''
