ID = "c34-identity-comment"
PROPERTY = "C34"
EDITS = [("dialect/mysql/object_types.py", '''        description = f" COMMENT {self.comment}" if self.description is not None else ""
        return f"{self.data_type}{charset}{nullable}{default}{identity}{description}"
''', '''        if self.identity:
            return f"{self.data_type}{charset}{nullable}{default}{identity}"
        description = f" COMMENT {self.comment}" if self.description is not None else ""
        return f"{self.data_type}{charset}{nullable}{default}{description}"
''')]
NEEDS = "an identity column with a description, in MySQL"
BREAKS = "The description of an identity column is not written as its comment."
DEMO = '''
from pysqlsync.dialect.mysql.object_types import MySQLColumn
from pysqlsync.model.data_types import SqlIntegerType
from pysqlsync.model.id_types import LocalId
for identity in (False, True):
    c = MySQLColumn(LocalId("id"), SqlIntegerType(8), False, identity=identity, description="Number of the order.")
    print(c.column_spec)
    assert ("AUTO_INCREMENT" in c.column_spec) == identity
    assert "COMMENT 'Number of the order.'" in c.column_spec
'''
