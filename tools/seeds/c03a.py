ID="c03-soft-deleted-enum"; PROPERTY="C03"
EDITS=[("formation/mutation.py","""        if self.options.allow_drop_enum:
            for enum_type in enum_drop:
                statements.append(
                    enum_type.hard_drop_stmt()
                    if enum_type in enum_soft_deleted
                    else enum_type.drop_stmt()
                )
""","""        for enum_type in enum_drop:
            if enum_type in enum_soft_deleted:
                statements.append(enum_type.hard_drop_stmt())
            elif self.options.allow_drop_enum:
                statements.append(enum_type.drop_stmt())
""")]
NEEDS="an enumeration type that is replaced by a table of the same name, with dropping enumerations disallowed"
BREAKS="the renamed enumeration type is dropped although allow_drop_enum is off"
DEMO='''
from pysqlsync.formation.mutation import Mutator, MutatorOptions
from pysqlsync.formation.object_types import Catalog, Column, EnumType, Namespace, Table
from pysqlsync.model.data_types import SqlIntegerType
from pysqlsync.model.id_types import LocalId, QualifiedId

table = Table(QualifiedId("ns", "E"), [Column(LocalId("id"), SqlIntegerType(4), False)], primary_key=(LocalId("id"),))
source = Catalog([Namespace(LocalId("ns"), enums=[EnumType(QualifiedId("ns", "E"), ["a", "b"])], structs=[], tables=[])])
target = Catalog([Namespace(LocalId("ns"), enums=[], structs=[], tables=[table])])
off = MutatorOptions(allow_drop_enum=False, allow_drop_struct=False, allow_drop_table=False, allow_drop_namespace=False)
script = Mutator(off).mutate_catalog_stmt(source, target) or ""
print(script)
assert "DROP TYPE" not in script
'''
