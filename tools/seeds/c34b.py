ID = "c34-struct-member-comments"
PROPERTY = "C34"
EDITS = [("dialect/postgresql/object_types.py", '''        for member in self.members.values():
            if member.description is not None:
                statements.append(
                    f"COMMENT ON COLUMN {self.name}.{member.name} IS {sql_quoted_string(member.description)};"
                )
''', '''            for member in self.members.values():
                if member.description is not None:
                    statements.append(
                        f"COMMENT ON COLUMN {self.name}.{member.name} IS {sql_quoted_string(member.description)};"
                    )
''')]
NEEDS = "a composite type without a description that has members with descriptions"
BREAKS = "The comments on the members of a composite type are not created."
DEMO = '''
from pysqlsync.dialect.postgresql.object_types import PostgreSQLStructType
from pysqlsync.formation.object_types import StructMember
from pysqlsync.model.data_types import SqlIntegerType
from pysqlsync.model.id_types import LocalId, QualifiedId
for d in (None, "A point."):
    t = PostgreSQLStructType(QualifiedId("s", "point"), [StructMember(LocalId("x"), SqlIntegerType(4), "Abscissa."), StructMember(LocalId("y"), SqlIntegerType(4))], d)
    text = t.create_stmt()
    print(text)
    assert "'Abscissa.'" in text
'''
