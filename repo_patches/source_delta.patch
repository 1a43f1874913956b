From b369d5eb7d3ac782a54e01d0f320d30a47168c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 01/60] fix: implement namespace discovery in Trino explorer

The explorer class left abstract operations unimplemented, hence any attempt to create it raised a TypeError.
---
 pysqlsync/dialect/trino/discovery.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/trino/discovery.py b/pysqlsync/dialect/trino/discovery.py
index f754e7e..fe3a4ff 100644
--- a/pysqlsync/dialect/trino/discovery.py
+++ b/pysqlsync/dialect/trino/discovery.py
@@ -1,7 +1,8 @@
 from pysqlsync.base import BaseContext
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.discovery import AnsiExplorer
-from pysqlsync.formation.object_types import ObjectFactory
+from pysqlsync.formation.object_types import Namespace, ObjectFactory
+from pysqlsync.model.id_types import LocalId
 
 
 class TrinoExplorer(AnsiExplorer):
@@ -19,3 +20,9 @@ class TrinoExplorer(AnsiExplorer):
             SqlDiscovery(SqlDiscoveryOptions(substitutions={})),
             ObjectFactory(),
         )
+
+    async def get_namespace_current(self) -> Namespace:
+        return await self.get_namespace_qualified()
+
+    async def get_namespace(self, namespace_id: LocalId) -> Namespace:
+        return await self.get_namespace_qualified(namespace_id)
-- 
2.43.0


From b73000d01cc8c7094a4f122c51b2ecd3e3d0cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 02/60] fix: keep constraints of namespaces that may not be
 dropped

---
 pysqlsync/formation/mutation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 35a5c75..b993775 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -362,9 +362,12 @@ class Mutator:
             for source_ns, target_ns in ns_mutate
         )
 
-        # remove old constraints
-        statements.extend(namespace.drop_constraints_stmt() for namespace in ns_drop)
         if self.options.allow_drop_namespace:
+            # remove old constraints
+            statements.extend(
+                namespace.drop_constraints_stmt() for namespace in ns_drop
+            )
+
             # drop objects in each namespace removed
             statements.extend(namespace.drop_objects_stmt() for namespace in ns_drop)
 
-- 
2.43.0


From a6d57aad834848cd28a6a1785fc917b73a56c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 03/60] fix: drop constraints before the columns they concern

---
 pysqlsync/formation/mutation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index b993775..2de9b2f 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -200,6 +200,13 @@ class Mutator:
         # accumulate object mutation statements
         alter_stmts: list[Optional[str]] = []
 
+        # remove deleted constraints (before any column they may concern)
+        alter_stmts.extend(
+            f"DROP CONSTRAINT {constraint.name}"
+            for constraint in source.constraints.difference(target.constraints)
+            if constraint.is_alter_table()
+        )
+
         # migrate data when data type changes
         try:
             for source_column, target_column in migrated_columns:
@@ -233,12 +240,6 @@ class Mutator:
                 "failed to drop columns in table", target.name
             ) from e
 
-        alter_stmts.extend(
-            f"DROP CONSTRAINT {constraint.name}"
-            for constraint in source.constraints.difference(target.constraints)
-            if constraint.is_alter_table()
-        )
-
         # remove outdated constraints
         common_constraints = source.constraints.intersection(target.constraints)
         for source_constraint, target_constraint in common_constraints:
-- 
2.43.0


From 4dee4a86627c80d7e7cd26f85509b327ac7cccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 04/60] fix: drop tables and composite types in an order that
 permits references between them

---
 pysqlsync/formation/mutation.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 2de9b2f..7b9e3c8 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -14,6 +14,7 @@ from .object_types import (
     Column,
     ColumnFormationError,
     EnumType,
+    ForeignConstraint,
     FormationError,
     Namespace,
     StatementList,
@@ -323,10 +324,27 @@ class Mutator:
 
         # drop old objects
         if self.options.allow_drop_table:
-            statements.extend(table.drop_stmt() for table in table_drop)
+            # remove references between tables to drop
+            table_drop_ids = [table.name for table in table_drop]
+            for table in table_drop:
+                foreign_keys = [
+                    constraint
+                    for constraint in table.constraints.values()
+                    if isinstance(constraint, ForeignConstraint)
+                    and constraint.reference.table != table.name
+                    and constraint.reference.table in table_drop_ids
+                ]
+                if foreign_keys:
+                    statements.append(
+                        table.alter_table_stmt(
+                            [f"DROP CONSTRAINT {c.name}" for c in foreign_keys]
+                        )
+                    )
+
+            statements.extend(table.drop_stmt() for table in reversed(table_drop))
 
         if self.options.allow_drop_struct:
-            statements.extend(struct.drop_stmt() for struct in struct_drop)
+            statements.extend(struct.drop_stmt() for struct in reversed(struct_drop))
 
         if self.options.allow_drop_enum:
             for enum_type in enum_drop:
-- 
2.43.0


From a16d71be0192b14202ca2373e1868cebf0cc604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 05/60] fix: visit namespaces in an order that permits
 references between them

---
 pysqlsync/formation/mutation.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 7b9e3c8..8d81f32 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -372,15 +372,15 @@ class Mutator:
         # create objects in each namespace added
         statements.extend(namespace.create_objects_stmt() for namespace in ns_create)
 
-        # add new constraints
-        statements.extend(namespace.add_constraints_stmt() for namespace in ns_create)
-
         # mutate existing namespaces
         statements.extend(
             self.mutate_namespace_stmt(source_ns, target_ns)
             for source_ns, target_ns in ns_mutate
         )
 
+        # add new constraints
+        statements.extend(namespace.add_constraints_stmt() for namespace in ns_create)
+
         if self.options.allow_drop_namespace:
             # remove old constraints
             statements.extend(
@@ -388,9 +388,13 @@ class Mutator:
             )
 
             # drop objects in each namespace removed
-            statements.extend(namespace.drop_objects_stmt() for namespace in ns_drop)
+            statements.extend(
+                namespace.drop_objects_stmt() for namespace in reversed(ns_drop)
+            )
 
             # drop old namespaces
-            statements.extend(namespace.drop_schema_stmt() for namespace in ns_drop)
+            statements.extend(
+                namespace.drop_schema_stmt() for namespace in reversed(ns_drop)
+            )
 
         return join_or_none(statements)
-- 
2.43.0


From 2e0a26e625c752878fb7a80a4aab0157347b1fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 06/60] fix: pass option auto_default in MySQL generator

---
 pysqlsync/dialect/mysql/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index d7487fc..407ad1b 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -58,6 +58,7 @@ class MySQLGenerator(BaseGenerator):
                 },
                 factory=self.factory,
                 skip_annotations=options.skip_annotations,
+                auto_default=options.auto_default,
             )
         )
 
-- 
2.43.0


From a881ee87d9a3c90abf72b053c6024c9e3a436e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 07/60] fix: honour synchronization options in generators with
 no mutator of their own

---
 pysqlsync/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 0ef6a2c..70f40dc 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -181,7 +181,9 @@ class BaseGenerator(abc.ABC):
     ) -> None:
         self.options = options
         self.factory = factory if factory is not None else ObjectFactory()
-        self.mutator = mutator if mutator is not None else Mutator()
+        self.mutator = (
+            mutator if mutator is not None else Mutator(options.synchronization)
+        )
         self.reset()
 
     def reset(self) -> None:
-- 
2.43.0


From d1d0451e6e46b420b0b8119844560428a418fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 08/60] fix: accept the default enumeration mode of Redshift
 when stated explicitly

---
 pysqlsync/dialect/redshift/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/redshift/generator.py b/pysqlsync/dialect/redshift/generator.py
index 3a1a2cc..24fd664 100644
--- a/pysqlsync/dialect/redshift/generator.py
+++ b/pysqlsync/dialect/redshift/generator.py
@@ -35,7 +35,7 @@ class RedshiftGenerator(BaseGenerator):
             PostgreSQLMutator(options.synchronization),
         )
 
-        self.check_enum_mode(matches=EnumMode.CHECK)
+        self.check_enum_mode(include=[EnumMode.CHECK, EnumMode.RELATION])
         self.check_struct_mode(matches=StructMode.JSON)
         self.check_array_mode(include=[ArrayMode.JSON, ArrayMode.RELATION])
 
-- 
2.43.0


From e3da2687379745612bbb4f2ba1b0b39bb6cc0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 09/60] fix: refuse conversion modes not supported by Trino

---
 pysqlsync/dialect/trino/generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysqlsync/dialect/trino/generator.py b/pysqlsync/dialect/trino/generator.py
index d6c6a19..a0b46cc 100644
--- a/pysqlsync/dialect/trino/generator.py
+++ b/pysqlsync/dialect/trino/generator.py
@@ -13,6 +13,10 @@ from pysqlsync.util.typing import override
 class TrinoGenerator(BaseGenerator):
     def __init__(self, options: GeneratorOptions) -> None:
         super().__init__(options)
+
+        self.check_enum_mode(exclude=[EnumMode.TYPE, EnumMode.INLINE])
+        self.check_struct_mode(matches=StructMode.JSON)
+
         self.converter = DataclassConverter(
             options=DataclassConverterOptions(
                 enum_mode=options.enum_mode or EnumMode.CHECK,
-- 
2.43.0


From ed0e770ea7de875e6e7748ae6e92caa1a078a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 10/60] fix: create types of modules that define no tables

---
 pysqlsync/formation/py_to_sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ef3a4e0..e0cc956 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1184,9 +1184,9 @@ class DataclassConverter:
                     name=LocalId(self.options.namespaces.get(module_name) or ""),
                     enums=enums.get(module_name, []),
                     structs=structs.get(module_name, []),
-                    tables=table_defs,
+                    tables=tables.get(module_name, []),
                 )
-                for module_name, table_defs in tables.items()
+                for module_name in dict.fromkeys([*tables, *enums, *structs])
             ]
         else:
             namespaces = [
-- 
2.43.0


From 260f4b1bb0b5a756b0260af607dc69c12e4689b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 11/60] fix: consider element types of arrays when sorting
 namespaces

---
 pysqlsync/formation/object_types.py | 33 +++++++++++++++++++----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 429a648..0ffc607 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -6,7 +6,12 @@ from typing import Any, Iterable, Optional, overload
 from strong_typing.inspection import is_dataclass_instance
 from strong_typing.topological import topological_sort
 
-from ..model.data_types import SqlDataType, SqlUserDefinedType, constant
+from ..model.data_types import (
+    SqlArrayType,
+    SqlDataType,
+    SqlUserDefinedType,
+    constant,
+)
 from ..model.id_types import LocalId, SupportsQualifiedId
 from .object_dict import ObjectDict
 
@@ -76,6 +81,20 @@ class TableFormationError(FormationError):
         return f"table {self.table}: {self.args[0]}"
 
 
+def get_user_defined_types(
+    data_types: Iterable[SqlDataType],
+) -> set[SupportsQualifiedId]:
+    "Names of user-defined types that the data types refer to, including as array element types."
+
+    items: set[SupportsQualifiedId] = set()
+    for data_type in data_types:
+        while isinstance(data_type, SqlArrayType):
+            data_type = data_type.element_type
+        if isinstance(data_type, SqlUserDefinedType):
+            items.add(data_type.ref)
+    return items
+
+
 @dataclass
 class QualifiedObject(abc.ABC):
     name: SupportsQualifiedId
@@ -162,11 +181,7 @@ class StructType(DatabaseObject, QualifiedObject):
         self.description = description
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            m.data_type.ref
-            for m in self.members.values()
-            if isinstance(m.data_type, SqlUserDefinedType)
-        )
+        return get_user_defined_types(m.data_type for m in self.members.values())
 
     def create_stmt(self) -> str:
         members = ",\n".join(str(m) for m in self.members.values())
@@ -522,11 +537,7 @@ class Table(DatabaseObject, QualifiedObject):
         raise KeyError(f"foreign constraint not found for column: {column_id}")
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            c.data_type.ref
-            for c in self.columns.values()
-            if isinstance(c.data_type, SqlUserDefinedType)
-        )
+        return get_user_defined_types(c.data_type for c in self.columns.values())
 
     def get_referenced_tables(self) -> set[SupportsQualifiedId]:
         items: set[SupportsQualifiedId] = set()
-- 
2.43.0


From afe5c0f79d9c1408be944ab9a2a86260f000edce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 12/60] fix: update only the supplied columns on upsert

---
 pysqlsync/dialect/mysql/generator.py      | 2 +-
 pysqlsync/dialect/postgresql/generator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index 407ad1b..4854a23 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -108,7 +108,7 @@ class MySQLGenerator(BaseGenerator):
         columns = [column for column in table.get_columns(order)]
         statements.append(_field_list([column.name for column in columns]))
         statements.append("ON DUPLICATE KEY UPDATE")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         if value_columns:
             defs = [_field_update(column.name) for column in value_columns]
         else:
diff --git a/pysqlsync/dialect/postgresql/generator.py b/pysqlsync/dialect/postgresql/generator.py
index 4baa8a0..07c9325 100644
--- a/pysqlsync/dialect/postgresql/generator.py
+++ b/pysqlsync/dialect/postgresql/generator.py
@@ -99,7 +99,7 @@ class PostgreSQLGenerator(BaseGenerator):
             self.placeholder(index) for index, _ in enumerate(columns, start=1)
         )
         statements.append(f"({column_list}) VALUES ({value_list})")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         keys = ", ".join(str(key) for key in table.primary_key)
         if value_columns:
             statements.append(f"ON CONFLICT ({keys}) DO UPDATE SET")
-- 
2.43.0


From e5277b6fa723227e301201694607ee8dc89dc560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 13/60] fix: do not use SSL with PostgreSQL when SSL is
 disabled

---
 pysqlsync/dialect/postgresql/connection.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index cea28ed..9dba0a8 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -2,7 +2,7 @@ import dataclasses
 import logging
 import ssl
 import typing
-from typing import Iterable, Optional, TypeVar
+from typing import Iterable, Literal, Optional, TypeVar, Union
 
 import asyncpg
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -28,8 +28,10 @@ class PostgreSQLConnection(BaseConnection):
         LOGGER.info("connecting to %s", self.params)
 
         ssl_mode = self.params.ssl
-        if ssl_mode is None or ssl_mode is ConnectionSSLMode.disable:
+        if ssl_mode is None:
             return await self._open()
+        elif ssl_mode is ConnectionSSLMode.disable:
+            return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.prefer:
             try:
                 return await self._open(create_context(ssl_mode))
@@ -37,8 +39,9 @@ class PostgreSQLConnection(BaseConnection):
                 return await self._open()
         elif ssl_mode is ConnectionSSLMode.allow:
             try:
-                return await self._open()
-            except ConnectionError:
+                return await self._open(False)
+            except (ConnectionError, asyncpg.InvalidAuthorizationSpecificationError):
+                # server may deny access to unencrypted connections
                 return await self._open(create_context(ssl_mode))
         elif (
             ssl_mode is ConnectionSSLMode.require
@@ -49,7 +52,10 @@ class PostgreSQLConnection(BaseConnection):
         else:
             raise ValueError(f"unsupported SSL mode: {ssl_mode}")
 
-    async def _open(self, ctx: Optional[ssl.SSLContext] = None) -> BaseContext:
+    async def _open(
+        self, ctx: Union[ssl.SSLContext, Literal[False], None] = None
+    ) -> BaseContext:
+        # driver would attempt to use SSL when passed `None`
         conn = await asyncpg.connect(
             host=self.params.host,
             port=self.params.port,
-- 
2.43.0


From 95240af4dda1376b63f31bdc1a71617dd820d7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 14/60] fix: percent-decode database name in connection URL

---
 pysqlsync/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/factory.py b/pysqlsync/factory.py
index aef20f1..ef4e3f3 100644
--- a/pysqlsync/factory.py
+++ b/pysqlsync/factory.py
@@ -103,7 +103,7 @@ def get_parameters(url: str) -> tuple[str, ConnectionParameters]:
         port=parts.port,
         username=unquote(parts.username) if parts.username else None,
         password=unquote(parts.password) if parts.password else None,
-        database=parts.path.lstrip("/") if parts.path else None,
+        database=unquote(parts.path.lstrip("/")) if parts.path else None,
         ssl=ssl,
     )
 
-- 
2.43.0


From 1d85936b926983c4902a86649950527dd91ae1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 15/60] fix: quote values in connection string for Microsoft
 SQL Server

---
 pysqlsync/dialect/mssql/connection.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 1639471..60b162f 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -27,6 +27,12 @@ class MSSQLConnection(BaseConnection):
 
     native: pyodbc.Connection
 
+    @staticmethod
+    def _quote_value(value: Optional[str]) -> Optional[str]:
+        "Encloses a value in braces such that it cannot introduce further connection string attributes."
+
+        return "{" + value.replace("}", "}}") + "}" if value is not None else None
+
     @override
     @thread_dispatch
     def open(self) -> BaseContext:
@@ -34,18 +40,18 @@ class MSSQLConnection(BaseConnection):
         params = {
             "DRIVER": "{ODBC Driver 18 for SQL Server}",
             "APP": "pysqlsync",
-            "SERVER": (
+            "SERVER": self._quote_value(
                 f"{self.params.host},{self.params.port}"
                 if self.params.port is not None
                 else self.params.host
             ),
-            "UID": self.params.username,
-            "PWD": self.params.password,
+            "UID": self._quote_value(self.params.username),
+            "PWD": self._quote_value(self.params.password),
             "LongAsMax": "yes",
             "TrustServerCertificate": "yes",
         }
         if self.params.database is not None:
-            params["DATABASE"] = self.params.database
+            params["DATABASE"] = self._quote_value(self.params.database)
         conn_string = ";".join(
             f"{key}={value}" for key, value in params.items() if value is not None
         )
-- 
2.43.0


From 41cc81c65741b96a5a944c40e40dca38dba7b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 16/60] fix: pass Oracle connection parameters separately

---
 pysqlsync/dialect/oracle/connection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index e2032f5..dcebe35 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -43,7 +43,9 @@ class OracleConnection(BaseConnection):
         conn = oracledb.connect(
             user=self.params.username,
             password=self.params.password,
-            dsn=f"{host}:{port}/{database}",
+            host=host,
+            port=port,
+            service_name=database,
         )
         conn.autocommit = True
         with conn.cursor() as cur:
-- 
2.43.0


From b16876df106e947337f71cf96471404e36e1d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 17/60] fix: accept missing values in list-valued enumeration
 columns

---
 pysqlsync/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 70f40dc..7be2094 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -535,7 +535,9 @@ class BaseGenerator(abc.ABC):
     ) -> Callable[[Any], Any]:
         "Returns a callable function object that looks up assigned integer values based on a list of enumeration string values."
 
-        return lambda field: [enum_dict[item] for item in field]
+        return lambda field: [
+            enum_dict[item] if item is not None else None for item in field
+        ]
 
 
 class QueryException(RuntimeError):
@@ -680,7 +682,9 @@ class EnumListTransformer(BaseEnumTransformer):
         # a list of enumeration values represented as a list of strings
         values: set[Optional[str]] = set()
         for record in records:
-            values.update(record[self.index])
+            items = record[self.index]
+            if items is not None:
+                values.update(items)
         values.discard(None)  # do not insert NULL into referenced table
         enum_list_dict = await self._merge_lookup_table(typing.cast(set[str], values))
         return self.generator.get_enum_list_transformer(enum_list_dict)
-- 
2.43.0


From 4424b1fa66cbe1cf1c7f953abeb7e2f7c9677010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 18/60] fix: leave out the password from the printed form of
 connection parameters

---
 pysqlsync/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/connection.py b/pysqlsync/connection.py
index 52a3556..8c385ba 100644
--- a/pysqlsync/connection.py
+++ b/pysqlsync/connection.py
@@ -9,7 +9,7 @@ This module helps create a secure sockets layer (SSL) context.
 import enum
 import ssl
 import sys
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Optional
 from urllib.parse import quote
 
@@ -96,7 +96,7 @@ class ConnectionParameters:
     host: Optional[str] = None
     port: Optional[int] = None
     username: Optional[str] = None
-    password: Optional[str] = None
+    password: Optional[str] = field(default=None, repr=False)
     database: Optional[str] = None
     ssl: Optional[ConnectionSSLMode] = None
 
-- 
2.43.0


From 7c069a8b608f604fb25c43ad22ab84c1727ba43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 19/60] fix: order types of the same name by module (order
 depended on memory addresses)

---
 pysqlsync/formation/py_to_sql.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index e0cc956..70afa42 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -187,6 +187,12 @@ def dataclass_fields_as_required(
             yield DataclassField(field.name, ref, field.default)
 
 
+def _type_sort_key(typ: type) -> tuple[str, str]:
+    "Sort key that tells apart types of the same name in different modules."
+
+    return typ.__name__, typ.__module__
+
+
 def _topological_sort(class_types: list[type]) -> list[type]:
     """
     Returns a list of types in topological order.
@@ -1010,7 +1016,7 @@ class DataclassConverter:
         enums: dict[str, list[EnumType]] = {}
         if self.options.enum_mode is EnumMode.TYPE:
             enum_types = [obj for obj in referenced_types if is_type_enum(obj)]
-            enum_types.sort(key=lambda e: e.__name__)
+            enum_types.sort(key=_type_sort_key)
             for enum_type in enum_types:
                 enum_values = [str(e.value) for e in enum_type]  # type: ignore
                 if len(enum_values) < 2:
@@ -1032,7 +1038,7 @@ class DataclassConverter:
         structs: dict[str, list[StructType]] = {}
         if self.options.struct_mode is StructMode.TYPE:
             struct_types = [obj for obj in referenced_types if is_struct_type(obj)]
-            struct_types.sort(key=lambda s: s.__name__)
+            struct_types.sort(key=_type_sort_key)
             struct_types = _topological_sort(struct_types)
             for struct_type in struct_types:
                 struct_defs = structs.setdefault(struct_type.__module__, [])
@@ -1041,7 +1047,7 @@ class DataclassConverter:
         # create tables
         tables: dict[str, list[Table]] = {}
         table_types = [obj for obj in referenced_types if is_entity_type(obj)]
-        table_types.sort(key=lambda t: t.__name__)
+        table_types.sort(key=_type_sort_key)
         for table_type in table_types:
             table_defs = tables.setdefault(table_type.__module__, [])
             table_defs.append(self.dataclass_to_table(table_type))
@@ -1066,7 +1072,7 @@ class DataclassConverter:
                 ):
                     regular_enum_types.add(unwrap_generic_set(enum_field.type))
 
-        for enum_type in sorted(list(regular_enum_types), key=lambda e: e.__name__):
+        for enum_type in sorted(list(regular_enum_types), key=_type_sort_key):
             table_defs = tables.setdefault(enum_type.__module__, [])
             table_defs.append(self._enum_table(enum_type))
 
@@ -1078,7 +1084,7 @@ class DataclassConverter:
             ):
                 enum_type = unwrap_extensible_enum_type(enum_field.type, entity)
                 extensible_enum_types.add(enum_type)
-        for enum_type in sorted(list(extensible_enum_types), key=lambda e: e.__name__):
+        for enum_type in sorted(list(extensible_enum_types), key=_type_sort_key):
             table_defs = tables.setdefault(enum_type.__module__, [])
             table_defs.append(self._enum_table(enum_type))
 
-- 
2.43.0


From 703cf5b673beda1e16ac728b81fc1c0a6b0f1736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 20/60] fix: create composite types in an order that does not
 depend on memory addresses

---
 pysqlsync/formation/py_to_sql.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 70afa42..ccd2317 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -29,6 +29,7 @@ from strong_typing.docstring import Docstring, parse_type
 from strong_typing.inspection import (
     DataclassField,
     DataclassInstance,
+    TypeCollector,
     TypeLike,
     dataclass_fields,
     enum_value_types,
@@ -49,7 +50,7 @@ from strong_typing.inspection import (
     unwrap_optional_type,
     unwrap_union_types,
 )
-from strong_typing.topological import type_topological_sort
+from strong_typing.topological import topological_sort
 
 from ..model.data_types import (
     CompatibilityError,
@@ -203,7 +204,16 @@ def _topological_sort(class_types: list[type]) -> list[type]:
     :returns: A list of the same types but in topological order.
     """
 
-    return [t for t in type_topological_sort(class_types) if t in class_types]
+    collector = TypeCollector()
+    collector.traverse_all(class_types)
+
+    # visit dependent types in the order they have been discovered
+    order = {typ: index for index, typ in enumerate(collector.graph)}
+    graph = {
+        typ: sorted(references, key=order.__getitem__)
+        for typ, references in collector.graph.items()
+    }
+    return [t for t in topological_sort(graph) if t in class_types]  # type: ignore
 
 
 @dataclasses.dataclass
-- 
2.43.0


From b7b13d7b6f66477dbaef64c755393adc56c38a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 21/60] fix: order namespaces in a way that does not depend on
 the hash seed

---
 pysqlsync/formation/object_types.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 0ffc607..6792a87 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -856,12 +856,16 @@ class Catalog(DatabaseObject):
         items only in the first group of namespaces, etc.
         """
 
-        graph = {
-            ns.name: ns.get_referenced_namespaces() for ns in self.namespaces.values()
-        }
-        for ref_ns in graph.values():
-            ref_ns.intersection_update(graph.keys())
-        order = [name.local_id for name in topological_sort(graph)]
+        # visit namespaces in their current order (and not in the order of an unordered set)
+        graph: dict[LocalId, list[LocalId]] = {}
+        for ns in self.namespaces.values():
+            references = ns.get_referenced_namespaces()
+            graph[ns.name] = [
+                name
+                for name in (other.name for other in self.namespaces.values())
+                if name in references
+            ]
+        order = [name.local_id for name in topological_sort(graph)]  # type: ignore
         self.namespaces.reorder(order)
 
     def merge(self, op: "Catalog") -> None:
-- 
2.43.0


From 15181ec45052f2896a68799a6d295cc84cffece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 22/60] fix: escape backslashes in MySQL comments and
 enumeration values

---
 pysqlsync/dialect/mysql/mutation.py     | 14 ++++++++------
 pysqlsync/dialect/mysql/object_types.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index e199c5d..a1530f6 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -9,10 +9,10 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType, quote
+from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType
 from pysqlsync.model.id_types import LocalId
 
-from .object_types import MySQLColumn, MySQLTable
+from .object_types import MySQLColumn, MySQLTable, sql_quoted_string
 
 
 class MySQLMutator(Mutator):
@@ -22,7 +22,9 @@ class MySQLMutator(Mutator):
         statements: list[str] = []
         ref = target_table.get_constraint(target.name)
         if isinstance(source.data_type, SqlEnumType):
-            enum_values = ", ".join(f"({quote(v)})" for v in source.data_type.values)
+            enum_values = ", ".join(
+                f"({sql_quoted_string(v)})" for v in source.data_type.values
+            )
             statements.append(
                 f'INSERT INTO {ref.table} ("value") VALUES {enum_values}\n'
                 'ON DUPLICATE KEY UPDATE "value" = "value";'
@@ -54,14 +56,14 @@ class MySQLMutator(Mutator):
         if source_desc is None:
             if target_desc is not None:
                 statements.append(
-                    f"ALTER TABLE {target.name} COMMENT = {quote(target_desc)};"
+                    f"ALTER TABLE {target.name} COMMENT = {sql_quoted_string(target_desc)};"
                 )
         else:
             if target_desc is None:
-                statements.append(f"ALTER TABLE {target.name} COMMENT = {quote('')};")
+                statements.append(f"ALTER TABLE {target.name} COMMENT = '';")
             elif source_desc != target_desc:
                 statements.append(
-                    f"ALTER TABLE {target.name} COMMENT = {quote(target_desc)};"
+                    f"ALTER TABLE {target.name} COMMENT = {sql_quoted_string(target_desc)};"
                 )
 
         return join_or_none(statements)
diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index c73b678..9a28e3b 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -12,6 +12,12 @@ from pysqlsync.model.data_types import SqlEnumType, quote
 from pysqlsync.model.id_types import LocalId
 
 
+def sql_quoted_string(text: str) -> str:
+    "Quotes a string for MySQL, which interprets backslash as an escape character in string literals."
+
+    return quote(text.replace("\\", "\\\\"))
+
+
 class MySQLTable(Table):
     @property
     def short_description(self) -> Optional[str]:
@@ -33,7 +39,7 @@ class MySQLTable(Table):
         )
         definition = ",\n".join(defs)
         comment = (
-            f"\nCOMMENT = {quote(self.short_description)}"
+            f"\nCOMMENT = {sql_quoted_string(self.short_description)}"
             if self.short_description
             else ""
         )
@@ -73,7 +79,7 @@ class MySQLColumn(Column):
                     f"comment for column {self.name} too long, expected: maximum 1024; got: {len(description)}"
                 )
 
-            return quote(description)
+            return sql_quoted_string(description)
         else:
             return None
 
-- 
2.43.0


From 8a9f5d38e7665a75b8dfd863928fbb41a4cf8d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 23/60] fix: escape names in statements embedded in string
 literals

---
 pysqlsync/dialect/mssql/object_types.py  | 3 ++-
 pysqlsync/dialect/oracle/object_types.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index 45f3aff..f918e85 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -80,7 +80,8 @@ class MSSQLNamespace(Namespace):
     def create_schema_stmt(self) -> Optional[str]:
         if self.name.local_id:
             # Microsoft SQL Server requires a separate batch for creating a schema
-            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC('CREATE SCHEMA {self.name}');"
+            create_stmt = quote(f"CREATE SCHEMA {self.name}")
+            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC({create_stmt});"
         else:
             return None
 
diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 5469aff..851cb12 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,7 +1,7 @@
 import re
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlTimestampType
+from pysqlsync.model.data_types import SqlTimestampType, quote
 
 
 class OracleColumn(Column):
@@ -35,9 +35,10 @@ class OracleTable(Table):
         )
 
     def drop_if_exists_stmt(self) -> str:
+        drop_stmt = quote(f"DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE")
         return (
             "BEGIN\n"
-            f"    EXECUTE IMMEDIATE 'DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE';\n"
+            f"    EXECUTE IMMEDIATE {drop_stmt};\n"
             "EXCEPTION WHEN OTHERS THEN IF SQLCODE != -942 THEN RAISE; END IF;\n"
             "END;"
         )
-- 
2.43.0


From 3a4d158c765c5928a700b27de46eda8b94d78407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 24/60] fix: escape backslashes in names that MySQL catalog
 queries look for

---
 pysqlsync/dialect/mysql/connection.py | 5 ++++-
 pysqlsync/dialect/mysql/discovery.py  | 5 ++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/mysql/connection.py b/pysqlsync/dialect/mysql/connection.py
index 06b59d4..c568d34 100644
--- a/pysqlsync/dialect/mysql/connection.py
+++ b/pysqlsync/dialect/mysql/connection.py
@@ -119,11 +119,14 @@ class MySQLContext(BaseContext):
     async def drop_schema(self, namespace: LocalId) -> None:
         LOGGER.debug("drop schema: %s", namespace)
 
+        # MySQL interprets backslash as an escape character in string literals
+        prefix = escape_like(namespace.id.replace("\\", "\\\\"), "~")
+
         tables = await self.query_all(
             str,
             "SELECT table_name\n"
             "FROM information_schema.tables\n"
-            f"WHERE table_schema = DATABASE() AND table_name LIKE '{escape_like(namespace.id, '~')}~_~_%' ESCAPE '~';",
+            f"WHERE table_schema = DATABASE() AND table_name LIKE '{prefix}~_~_%' ESCAPE '~';",
         )
         if tables:
             table_list = ", ".join(quoted_id(table) for table in tables)
diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index 44dca53..bf7e7c6 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -10,7 +10,6 @@ from pysqlsync.formation.discovery import (
     AnsiExplorer,
 )
 from pysqlsync.formation.object_types import Column, ForeignConstraint, Namespace
-from pysqlsync.model.data_types import quote
 from pysqlsync.model.id_types import LocalId, PrefixedId, SupportsQualifiedId
 from pysqlsync.util.typing import override
 
@@ -19,7 +18,7 @@ from .data_types import (
     MySQLVariableBinaryType,
     MySQLVariableCharacterType,
 )
-from .object_types import MySQLObjectFactory
+from .object_types import MySQLObjectFactory, sql_quoted_string
 
 
 @dataclass
@@ -128,7 +127,7 @@ class MySQLExplorer(AnsiExplorer):
             "        ON kcu.constraint_catalog = ref.constraint_catalog\n"
             "            AND kcu.constraint_schema = ref.constraint_schema\n"
             "            AND kcu.constraint_name = ref.constraint_name\n"
-            f"WHERE ref.table_name = {quote(table_id.local_id)} AND {self._where_table(table_id, 'kcu')}\n",
+            f"WHERE ref.table_name = {sql_quoted_string(table_id.local_id)} AND {self._where_table(table_id, 'kcu')}\n",
         )
 
         constraints = ForeignFactory()
-- 
2.43.0


From 51a636c0e8a130d66a659a01f7cf98a5702f51c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 25/60] fix: decode data-class results in Redshift, whose
 driver returns rows as plain lists

---
 pysqlsync/dialect/redshift/connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 3277b0b..1b4aa8f 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -19,7 +19,7 @@ from pysqlsync.base import (
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
-from pysqlsync.resultset import resultset_unwrap_object, resultset_unwrap_tuple
+from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.typing import override
 
@@ -97,7 +97,9 @@ class RedshiftContext(BaseContext):
             records = cursor.execute(statement).fetchall()
 
             if is_dataclass_type(signature):
-                return resultset_unwrap_object(signature, records)  # type: ignore
+                # rows are plain lists, column names are available in the cursor description
+                names = [column[0] for column in cursor.description]
+                return resultset_unwrap_dict(signature, (dict(zip(names, record)) for record in records))  # type: ignore
             else:
                 return resultset_unwrap_tuple(signature, records)
 
-- 
2.43.0


From 5be7bdc6ec2042bc332de356363cba784ad76df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 26/60] fix: look up PostgreSQL objects without a schema in the
 current schema only

---
 pysqlsync/dialect/postgresql/discovery.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 17a7481..0769b01 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -121,12 +121,18 @@ class PostgreSQLExplorer(Explorer):
         )
         return [QualifiedId(row[0], row[1]) for row in rows]  # type: ignore
 
+    @classmethod
+    def _where_namespace(cls, object_id: SupportsQualifiedId) -> str:
+        if object_id.scope_id is not None:
+            return f"nsp.nspname = {quote(object_id.scope_id)}"
+        else:
+            return "nsp.nspname = CURRENT_SCHEMA()"
+
     @classmethod
     def _where_relation(cls, relation_id: SupportsQualifiedId, kinds: list[str]) -> str:
         conditions: list[str] = []
         conditions.append(f"cls.relname = {quote(relation_id.local_id)}")
-        if relation_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(relation_id.scope_id)}")
+        conditions.append(cls._where_namespace(relation_id))
         conditions.append(
             " OR ".join(f"(cls.relkind = {quote(kind)})" for kind in kinds)
         )
@@ -154,8 +160,7 @@ class PostgreSQLExplorer(Explorer):
     ) -> bool:
         conditions: list[str] = []
         conditions.append(f"cls.relname = {quote(table_id.local_id)}")
-        if table_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(table_id.scope_id)}")
+        conditions.append(self._where_namespace(table_id))
         conditions.append("cls.relkind = 'r' OR cls.relkind = 'v'")
         conditions.append(f"att.attname = {quote(column_id.local_id)}")
         condition = " AND ".join(f"({c})" for c in conditions)
@@ -173,8 +178,7 @@ class PostgreSQLExplorer(Explorer):
     async def get_struct(self, struct_id: SupportsQualifiedId) -> StructType:
         conditions: list[str] = []
         conditions.append(f"typ.typname = {quote(struct_id.local_id)}")
-        if struct_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(struct_id.scope_id)}")
+        conditions.append(self._where_namespace(struct_id))
         condition = " AND ".join(f"({c})" for c in conditions)
 
         struct_record = await self.conn.query_one(
-- 
2.43.0


From c7f9b41b7e7a8f8a3056bbb85ebf20a461454286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 27/60] fix: read SQL Server identity and default columns from
 the current schema if none is given

---
 pysqlsync/dialect/mssql/discovery.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index f52484d..c93a18c 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -39,13 +39,18 @@ class MSSQLExplorer(AnsiExplorer):
 
     async def get_columns(self, table_id: SupportsQualifiedId) -> list[Column]:
         columns = await super().get_columns(table_id)
+        schema_name = (
+            quote(table_id.scope_id)
+            if table_id.scope_id is not None
+            else self.conn.connection.generator.get_current_schema_stmt()
+        )
         identity_columns = await self.conn.query_all(
             str,
             "SELECT c.name\n"
             "FROM sys.schemas AS s\n"
             "    INNER JOIN sys.tables AS t ON t.schema_id = s.schema_id\n"
             "    INNER JOIN sys.columns AS c ON c.object_id = t.object_id\n"
-            f"WHERE s.name = {quote(table_id.scope_id or 'dbo')} AND t.name = {quote(table_id.local_id)} AND c.is_identity = 1;",
+            f"WHERE s.name = {schema_name} AND t.name = {quote(table_id.local_id)} AND c.is_identity = 1;",
         )
         default_columns = await self.conn.query_all(
             tuple[str, str],
@@ -54,7 +59,7 @@ class MSSQLExplorer(AnsiExplorer):
             "    INNER JOIN sys.tables AS t ON t.schema_id = s.schema_id\n"
             "    INNER JOIN sys.columns AS c ON c.object_id = t.object_id\n"
             "    INNER JOIN sys.default_constraints AS d ON d.object_id = c.default_object_id\n"
-            f"WHERE s.name = {quote(table_id.scope_id or 'dbo')} AND t.name = {quote(table_id.local_id)} AND c.default_object_id != 0;",
+            f"WHERE s.name = {schema_name} AND t.name = {quote(table_id.local_id)} AND c.default_object_id != 0;",
         )
         default_values = dict(default_columns)
         for c in columns:
-- 
2.43.0


From 9e0501a3903651dc4536215dd4e05d8f91bf021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 28/60] fix: restrict Oracle catalog queries to the current
 schema

---
 pysqlsync/dialect/oracle/connection.py | 2 +-
 pysqlsync/dialect/oracle/discovery.py  | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index dcebe35..dac4180 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -151,7 +151,7 @@ class OracleContext(BaseContext):
         )
         tables = await self.query_all(
             str,
-            f"SELECT table_name FROM dba_tables WHERE {condition}",
+            f"SELECT table_name FROM dba_tables WHERE owner = {self.connection.generator.get_current_schema_stmt()} AND {condition}",
         )
         statement = "\n".join(
             f"DROP TABLE {LocalId(table)} CASCADE CONSTRAINTS PURGE;"
diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 3a7b8a4..cc92903 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -97,7 +97,10 @@ class OracleExplorer(Explorer):
         raise NotImplementedError()
 
     async def get_table(self, table_id: SupportsQualifiedId) -> Table:
-        condition = f"t.table_name = {quote(table_id.local_id)}"
+        schema_expr = self.conn.connection.generator.get_current_schema_stmt()
+        condition = (
+            f"t.owner = {schema_expr} AND t.table_name = {quote(table_id.local_id)}"
+        )
 
         table_comments = await self.conn.query_all(
             str,
@@ -222,7 +225,7 @@ class OracleExplorer(Explorer):
         table_names = await self.conn.query_all(
             str,
             "SELECT table_name FROM dba_tables\n"
-            f"WHERE owner != 'SYS' AND {condition}\n AND table_name NOT LIKE '%$%' AND tablespace_name != 'SYSAUX'\n"
+            f"WHERE owner = {self.conn.connection.generator.get_current_schema_stmt()} AND owner != 'SYS' AND {condition}\n AND table_name NOT LIKE '%$%' AND tablespace_name != 'SYSAUX'\n"
             "    AND status = 'VALID' AND temporary = 'N' AND secondary = 'N' AND dropped = 'NO' AND read_only = 'NO'",
         )
 
-- 
2.43.0


From 3bfb41ad22f3cde8520f38b22a8a3415f39fd134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 29/60] fix: pair columns of composite Oracle foreign keys by
 position

---
 pysqlsync/dialect/oracle/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index cc92903..5c47044 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -175,7 +175,7 @@ class OracleExplorer(Explorer):
             "FROM dba_constraints t\n"
             "    JOIN dba_cons_columns tc ON t.owner = tc.owner AND t.constraint_name = tc.constraint_name\n"
             "    LEFT JOIN dba_constraints r ON t.r_owner = r.owner AND t.r_constraint_name = r.constraint_name\n"
-            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name\n"
+            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name AND tc.position = rc.position\n"
             f"WHERE {condition}\n"
             "ORDER BY tc.position",
         )
-- 
2.43.0


From 5adbb436e144ff8bd6f6dc047dd9b77d08f480b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 30/60] fix: list the columns of an inserted data-class in the
 order of its fields

A discovered table may have its columns in a different order than the
fields of the data-class, in which case values were assigned to the
wrong columns.
---
 pysqlsync/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 7be2094..36d272e 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -442,13 +442,15 @@ class BaseGenerator(abc.ABC):
         "Returns a SQL statement to insert or ignore records in a database table."
 
         table_object = self.state.get_table(self.get_qualified_id(ClassRef(table)))
-        return self.get_table_insert_stmt(table_object)
+        order = tuple(field.name for field in dataclasses.fields(table))
+        return self.get_table_insert_stmt(table_object, order)
 
     def get_dataclass_upsert_stmt(self, table: type[DataclassInstance]) -> str:
         "Returns a SQL statement to insert or update records in a database table."
 
         table_object = self.state.get_table(self.get_qualified_id(ClassRef(table)))
-        return self.get_table_upsert_stmt(table_object)
+        order = tuple(field.name for field in dataclasses.fields(table))
+        return self.get_table_upsert_stmt(table_object, order)
 
     def get_dataclass_delete_stmt(self, table: type[DataclassInstance]) -> str:
         "Returns a SQL statement to delete records from a database table."
-- 
2.43.0


From fa8d44ecbe9187eddf3547c80e7c62795096637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:20 +0000
Subject: [PATCH 31/60] fix: select the columns of loaded rows by the rule that
 selects record fields

A field omitted by its type was still listed among the columns, and an
identity column was omitted from the INSERT statement but not from the
records.
---
 pysqlsync/base.py                          | 65 ++++++++++++++++++----
 pysqlsync/dialect/postgresql/connection.py |  2 +-
 pysqlsync/dialect/redshift/connection.py   |  2 +-
 3 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 36d272e..bc11ba7 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1093,9 +1093,15 @@ class BaseContext(abc.ABC):
         """
 
         record_generator = await self._generate_records(
-            table, source, field_types=field_types, field_names=field_names
+            table,
+            source,
+            field_types=field_types,
+            field_names=field_names,
+            skip_identity=True,
+        )
+        order = self._get_column_order(
+            table, field_types, field_names, skip_identity=True
         )
-        order = tuple(name for name in field_names if name) if field_names else None
         statement = self.connection.generator.get_table_insert_stmt(table, order)
         await self._execute_typed(statement, record_generator, table, order)
 
@@ -1153,11 +1159,52 @@ class BaseContext(abc.ABC):
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = self._get_column_order(table, field_types, field_names)
         statement = self.connection.generator.get_table_upsert_stmt(table, order)
 
         await self._execute_typed(statement, record_generator, table, order)
 
+    def _select_fields(
+        self,
+        table: Table,
+        field_types: tuple[type, ...],
+        field_names: Optional[tuple[str, ...]],
+        skip_identity: bool,
+    ) -> Iterable[tuple[int, type, str]]:
+        "Enumerates the record fields (index, type and label) that have a column in the target table."
+
+        if field_names is None:
+            field_names = tuple(name for name in table.columns.keys())
+
+        for index, field_type, field_name in zip(
+            range(len(field_types)), field_types, field_names
+        ):
+            if field_type is type(None) or not field_name:
+                continue
+            if skip_identity:
+                column = table.columns.get(field_name)
+                if column is not None and column.identity:
+                    continue
+
+            yield index, field_type, field_name
+
+    def _get_column_order(
+        self,
+        table: Table,
+        field_types: tuple[type, ...],
+        field_names: Optional[tuple[str, ...]] = None,
+        *,
+        skip_identity: bool = False,
+    ) -> tuple[str, ...]:
+        "Returns the names of the columns that correspond to the items of a generated record, in the same order."
+
+        return tuple(
+            field_name
+            for _, _, field_name in self._select_fields(
+                table, field_types, field_names, skip_identity
+            )
+        )
+
     async def _generate_records(
         self,
         table: Table,
@@ -1165,6 +1212,7 @@ class BaseContext(abc.ABC):
         *,
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
+        skip_identity: bool = False,
     ) -> DataSource:
         """
         Creates a record generator for a database table.
@@ -1176,21 +1224,16 @@ class BaseContext(abc.ABC):
         :param source: The records to insert or update.
         :param field_types: Type of each record field. Use `types.NoneType` to omit a field.
         :param field_names: Label for each record field. Use an empty string for an omitted field.
+        :param skip_identity: Omit fields that belong to an identity column.
         """
 
         generator = self.connection.generator
 
-        if field_names is None:
-            field_names = tuple(name for name in table.columns.keys())
-
         indices: list[int] = []
         transformers: list[RecordTransformer] = []
-        for index, field_type, field_name in zip(
-            range(len(field_types)), field_types, field_names
+        for index, field_type, field_name in self._select_fields(
+            table, field_types, field_names, skip_identity
         ):
-            if field_type is type(None) or not field_name:
-                continue
-
             indices.append(index)
             transformer = self._get_transformer(
                 table, generator, index, field_type, field_name
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 9dba0a8..eefe29f 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -138,7 +138,7 @@ class PostgreSQLContext(BaseContext):
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = self._get_column_order(table, field_types, field_names)
         async for batch in record_generator.batches():
             result = await self.native_connection.copy_records_to_table(
                 schema_name=table.name.scope_id,
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 1b4aa8f..0bfa7c6 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -127,7 +127,7 @@ class RedshiftContext(BaseContext):
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
     ) -> None:
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = self._get_column_order(table, field_types, field_names)
         columns = [col.name for col in table.get_columns(order)]
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
-- 
2.43.0


From c18ff3fe6562134ac0a1138cc4ee723520ebd031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 32/60] fix: determine identity columns of a bulk copy from the
 table definition

The type of a field is a string when annotations are evaluated lazily,
and the column list then had an item that the records did not have.
---
 pysqlsync/dialect/postgresql/connection.py | 4 ++--
 pysqlsync/dialect/redshift/connection.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index eefe29f..bf33ced 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -10,7 +10,6 @@ from strong_typing.inspection import DataclassInstance, is_dataclass_type
 from pysqlsync.base import BaseConnection, BaseContext, ClassRef, DataSource
 from pysqlsync.connection import ConnectionSSLMode, create_context
 from pysqlsync.formation.object_types import Table
-from pysqlsync.model.properties import is_identity_type
 from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.typing import override
 
@@ -113,6 +112,7 @@ class PostgreSQLContext(BaseContext):
             raise TypeError(f"expected dataclass type, got: {table}")
         generator = self.connection.generator
         table_name = generator.get_qualified_id(ClassRef(table))
+        table_columns = self.get_table(table).columns
         records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
         result = await self.native_connection.copy_records_to_table(
             schema_name=table_name.scope_id,
@@ -120,7 +120,7 @@ class PostgreSQLContext(BaseContext):
             columns=tuple(
                 field.name
                 for field in dataclasses.fields(table)
-                if not is_identity_type(field.type)
+                if not table_columns[field.name].identity
             ),
             records=records,
         )
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 0bfa7c6..f5b0e36 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -18,7 +18,6 @@ from pysqlsync.base import (
 )
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
-from pysqlsync.model.properties import is_identity_type
 from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.typing import override
@@ -110,10 +109,11 @@ class RedshiftContext(BaseContext):
             raise TypeError(f"expected dataclass type, got: {table}")
         generator = self.connection.generator
         table_name = generator.get_qualified_id(ClassRef(table))
+        table_columns = self.get_table(table).columns
         columns = [
             LocalId(field.name)
             for field in dataclasses.fields(table)
-            if not is_identity_type(field.type)
+            if not table_columns[field.name].identity
         ]
         records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
         self._insert_copy_stream(table_name, columns, records)
-- 
2.43.0


From 02183100efa537e20aec93968da3ed382cc25b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 33/60] fix: convert optional and annotated fields of
 data-classes

The conversion of a field was chosen by its declared type, such that
an optional or key field was stored unconverted.
---
 pysqlsync/base.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index bc11ba7..d761547 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -27,7 +27,12 @@ from typing import (
     overload,
 )
 
-from strong_typing.inspection import DataclassInstance, is_dataclass_type, is_type_enum
+from strong_typing.inspection import (
+    DataclassInstance,
+    dataclass_fields,
+    is_dataclass_type,
+    is_type_enum,
+)
 from strong_typing.name import python_type_to_str
 
 from .connection import ConnectionParameters
@@ -44,6 +49,7 @@ from .formation.object_types import (
 from .formation.py_to_sql import ArrayMode, DataclassConverter, EnumMode, StructMode
 from .model.data_types import SqlJsonType, SqlVariableCharacterType
 from .model.id_types import LocalId, QualifiedId, SupportsQualifiedId
+from .model.properties import get_field_properties
 from .python_types import dataclass_to_code, module_to_code
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -494,13 +500,25 @@ class BaseGenerator(abc.ABC):
         "Returns a tuple of callable function objects that extracts each field of a data-class."
 
         return tuple(
-            self.get_field_extractor(
-                table.columns[field.name], field.name, typing.cast(type, field.type)
+            self._get_nullable_extractor(
+                table.columns[field.name],
+                field.name,
+                typing.cast(type, get_field_properties(field.type).plain_type),
             )
-            for field in dataclasses.fields(entity_type)
+            for field in dataclass_fields(entity_type)
             if not (skip_identity and table.columns[field.name].identity)
         )
 
+    def _get_nullable_extractor(
+        self, column: Column, field_name: str, field_type: type
+    ) -> Callable[[Any], Any]:
+        "Returns a callable function object that extracts a single field of a data-class, which may be missing a value."
+
+        extractor = self.get_field_extractor(column, field_name, field_type)
+        return lambda obj: (
+            extractor(obj) if getattr(obj, field_name) is not None else None
+        )
+
     def get_field_extractor(
         self, column: Column, field_name: str, field_type: type
     ) -> Callable[[Any], Any]:
-- 
2.43.0


From 24f17da9240b25f341a51ab659b9ecba30d9ee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 34/60] fix: write a missing value to a Redshift copy stream as
 NULL

A missing value was stored as the text None.
---
 pysqlsync/dialect/redshift/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index f5b0e36..4128f11 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -155,7 +155,12 @@ class RedshiftContext(BaseContext):
 
         with BytesIO() as f:
             for record in records:
-                f.write(b"|".join(str(value).encode("utf-8") for value in record))
+                f.write(
+                    b"|".join(
+                        str(value).encode("utf-8") if value is not None else rb"\N"
+                        for value in record
+                    )
+                )
                 f.write(b"\n")
             stream_data = f.getvalue()
 
-- 
2.43.0


From ab854dc8dea2f8b6571a66622725c52030d7f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:30 +0000
Subject: [PATCH 35/60] fix: update comments of composite type members when
 only the comment differs

---
 pysqlsync/dialect/postgresql/mutation.py | 19 +++++++++++++++++++
 pysqlsync/formation/mutation.py          |  2 +-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 03da4af..656c1ca 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -95,4 +95,23 @@ class PostgreSQLMutator(Mutator):
                     f"COMMENT ON TYPE {target.name} IS {sql_quoted_string(target.description)};"
                 )
 
+        for target_member in target.members.values():
+            source_member = source.members.get(target_member.name.id)
+
+            source_desc = (
+                source_member.description if source_member is not None else None
+            )
+            target_desc = target_member.description
+
+            if target_desc is None:
+                if source_desc is not None:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS NULL;"
+                    )
+            else:
+                if source_desc != target_desc:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS {sql_quoted_string(target_desc)};"
+                    )
+
         return join_or_none(statements)
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 8d81f32..541794f 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -89,7 +89,7 @@ class Mutator:
             for member in source.members.difference(target.members)
         )
         for source_member, target_member in source.members.intersection(target.members):
-            if source_member != target_member:
+            if source_member.data_type != target_member.data_type:
                 statements.append(
                     f"ALTER ATTRIBUTE {source_member.name} SET DATA TYPE {target_member.data_type}"
                 )
-- 
2.43.0


From 368bd4dda4bd7a17dd9b419ee85e18c2226ae314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:45 +0000
Subject: [PATCH 36/60] fix: read delimited text files to the end of the
 stream, not to the first empty line

---
 pysqlsync/data/exchange.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index f20925c..eba2b7b 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -134,20 +134,20 @@ class TextReader:
 
         rows: list[tuple] = []
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            rows.append(self.parser.parse_line(line))
+            rows.append(self.parser.parse_line(line.rstrip(b"\n")))
         return rows
 
     def records(self) -> Iterable[tuple]:
         "An iterator to records in a file-like object."
 
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            yield self.parser.parse_line(line)
+            yield self.parser.parse_line(line.rstrip(b"\n"))
 
 
 class AsyncBinaryIO(Protocol):
@@ -191,10 +191,9 @@ class AsyncTextReader:
         rows: list[tuple] = []
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
-            rows.append(self.parser.parse_line(record))
+            rows.append(self.parser.parse_line(line.rstrip(b"\n")))
         return rows
 
     async def records(self) -> AsyncIterator[tuple]:
@@ -202,7 +201,6 @@ class AsyncTextReader:
 
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
-            yield self.parser.parse_line(record)
+            yield self.parser.parse_line(line.rstrip(b"\n"))
-- 
2.43.0


From 1151a3ba00d2932f919dba5f46b68f704be358c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:51 +0000
Subject: [PATCH 37/60] fix: accept a field mapping that selects some of the
 fields when reading delimited text files

---
 pysqlsync/data/exchange.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index eba2b7b..57ddf0c 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -99,6 +99,7 @@ def fields_to_types(
             reference_to_key(field.type, entity_type)
         ).tsv_type
         for field in dataclass_fields(entity_type)
+        if field.name in field_mapping
     }
 
 
-- 
2.43.0


From 413dd2f8ec00ea0704c1a49d7a25499bbe253a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:06 +0000
Subject: [PATCH 38/60] fix: merge fixed-size types of unspecified size without
 losing the larger size

---
 pysqlsync/model/data_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index c71aef6..9aab3c6 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -387,7 +387,8 @@ def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
     # character types
     if isinstance(left, SqlFixedCharacterType):
         if isinstance(right, SqlFixedCharacterType):
-            return type(left)(limit=max_or_none(left.limit, right.limit))
+            # a fixed-size type without an explicit size holds a single character
+            return type(left)(limit=max(left.limit or 1, right.limit or 1))
         elif isinstance(right, SqlVariableCharacterType):
             return type(right)(limit=max_or_none(left.limit, right.limit))
     elif isinstance(left, SqlVariableCharacterType):
@@ -397,7 +398,8 @@ def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
     # binary types
     if isinstance(left, SqlFixedBinaryType):
         if isinstance(right, SqlFixedBinaryType):
-            return type(left)(storage=max_or_none(left.storage, right.storage))
+            # a fixed-size type without an explicit size holds a single byte
+            return type(left)(storage=max(left.storage or 1, right.storage or 1))
         elif isinstance(right, SqlVariableBinaryType):
             return type(right)(storage=max_or_none(left.storage, right.storage))
     elif isinstance(left, SqlVariableBinaryType):
-- 
2.43.0


From e1ebdc186b69a95035330b42bc7ac8f543c4940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:21 +0000
Subject: [PATCH 39/60] fix: recognize annotated numeric types by equality
 instead of identity

---
 pysqlsync/formation/inspection.py |  2 +-
 pysqlsync/formation/py_to_sql.py  | 22 +++++++++++-----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pysqlsync/formation/inspection.py b/pysqlsync/formation/inspection.py
index 82a3366..34ccbb6 100644
--- a/pysqlsync/formation/inspection.py
+++ b/pysqlsync/formation/inspection.py
@@ -42,7 +42,7 @@ def is_simple_type(typ: Any) -> bool:
         or typ is datetime.time
         or typ is datetime.timedelta
         or typ is uuid.UUID
-        or typ is JsonType
+        or typ == JsonType
         or typ is IPv4Address  # PostgreSQL only
         or typ is IPv6Address  # PostgreSQL only
     ):
diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ccd2317..1638bd6 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -387,40 +387,40 @@ class DataclassConverter:
             return SqlIntegerType(8)
         if typ is float:
             return SqlDoubleType()
-        if typ is int8:
+        if typ == int8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("int1"))
             else:
                 return SqlIntegerType(2)
-        if typ is int16:
+        if typ == int16:
             return SqlIntegerType(2)
-        if typ is int32:
+        if typ == int32:
             return SqlIntegerType(4)
-        if typ is int64:
+        if typ == int64:
             return SqlIntegerType(8)
-        if typ is uint8:
+        if typ == uint8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint1"))
             else:
                 return SqlIntegerType(2)
-        if typ is uint16:
+        if typ == uint16:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint2"))
             else:
                 return SqlIntegerType(2)
-        if typ is uint32:
+        if typ == uint32:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint4"))
             else:
                 return SqlIntegerType(4)
-        if typ is uint64:
+        if typ == uint64:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint8"))
             else:
                 return SqlIntegerType(8)
-        if typ is float32:
+        if typ == float32:
             return SqlRealType()
-        if typ is float64:
+        if typ == float64:
             return SqlDoubleType()
         if typ is str:
             return SqlVariableCharacterType()
@@ -436,7 +436,7 @@ class DataclassConverter:
             return SqlIntervalType()
         if typ is uuid.UUID:
             return SqlUuidType()
-        if typ is JsonType:
+        if typ == JsonType:
             return SqlJsonType()
         if typ is ipaddress.IPv4Address or typ is ipaddress.IPv6Address:
             return SqlUserDefinedType(GlobalId("inet"))  # PostgreSQL only
-- 
2.43.0


From 27931b8a175c3c4aad971c063754067875daed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:29 +0000
Subject: [PATCH 40/60] fix: choose an integer type wide enough for unsigned
 16-bit and 32-bit fields

---
 pysqlsync/formation/py_to_sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 1638bd6..f9874e5 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -407,12 +407,12 @@ class DataclassConverter:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint2"))
             else:
-                return SqlIntegerType(2)
+                return SqlIntegerType(4)
         if typ == uint32:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint4"))
             else:
-                return SqlIntegerType(4)
+                return SqlIntegerType(8)
         if typ == uint64:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint8"))
-- 
2.43.0


From 176f25eeab26ea4d83a504385f17139f1bbcaadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:55 +0000
Subject: [PATCH 41/60] fix: convert the decimal digits of a floating-point
 annotation to binary precision

---
 pysqlsync/formation/sql_to_py.py | 5 ++++-
 pysqlsync/model/data_types.py    | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 3e80ad7..a707c9a 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -2,6 +2,7 @@ import dataclasses
 import datetime
 import decimal
 import keyword
+import math
 import sys
 import types
 import typing
@@ -70,7 +71,9 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
         return float64
     elif isinstance(sql_type, SqlFloatType):
         if sql_type.precision is not None:
-            return Annotated[float, Precision(sql_type.precision)]
+            # numeric precision is binary, significant digits are decimal
+            significant_digits = math.floor(sql_type.precision * math.log10(2))
+            return Annotated[float, Precision(significant_digits)]
         return float
     elif isinstance(sql_type, SqlDecimalType):
         return decimal.Decimal
diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index 9aab3c6..2e4c7e9 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -1,5 +1,6 @@
 import datetime
 import decimal
+import math
 from dataclasses import dataclass
 from functools import reduce
 from typing import Any, Optional
@@ -144,7 +145,8 @@ class SqlFloatType(SqlDataType):
 
     def parse_meta(self, meta: Any) -> None:
         if isinstance(meta, Precision):
-            self.precision = meta.significant_digits
+            # significant digits are decimal, numeric precision is binary
+            self.precision = min(53, math.ceil(meta.significant_digits * math.log2(10)))
         else:
             super().parse_meta(meta)
 
-- 
2.43.0


From 8eb5afee08f901ff43ca085b639ed13a00cc3abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:23 +0000
Subject: [PATCH 42/60] fix: add columns to Oracle tables with ADD, which takes
 no keyword COLUMN

---
 pysqlsync/dialect/oracle/object_types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 851cb12..45d6105 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -2,6 +2,7 @@ import re
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
 from pysqlsync.model.data_types import SqlTimestampType, quote
+from pysqlsync.util.typing import override
 
 
 class OracleColumn(Column):
@@ -27,6 +28,10 @@ class OracleColumn(Column):
         identity = " GENERATED BY DEFAULT AS IDENTITY" if self.identity else ""
         return f"{self.data_type}{default}{nullable}{identity}"
 
+    @override
+    def create_stmt(self) -> str:
+        return f"ADD {self.column_spec}"
+
 
 class OracleTable(Table):
     def alter_table_stmt(self, statements: list[str]) -> str:
-- 
2.43.0


From c8008b5e34607129d4e35b86fbe649a288fe6dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 43/60] fix: drop constraints of an Oracle table in separate
 statements

---
 pysqlsync/dialect/oracle/object_types.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 45d6105..724c328 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,4 +1,5 @@
 import re
+from typing import Optional
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
 from pysqlsync.model.data_types import SqlTimestampType, quote
@@ -39,6 +40,14 @@ class OracleTable(Table):
             f"ALTER TABLE {self.name} {statement};" for statement in statements
         )
 
+    def drop_constraints_stmt(self) -> Optional[str]:
+        if self.table_constraints:
+            return self.alter_table_stmt(
+                [f"DROP CONSTRAINT {c.name}" for c in self.table_constraints]
+            )
+        else:
+            return None
+
     def drop_if_exists_stmt(self) -> str:
         drop_stmt = quote(f"DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE")
         return (
-- 
2.43.0


From 9b3d2451b3375fb075c6cec32b3c84ee4c18c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:56 +0000
Subject: [PATCH 44/60] fix: recognize primary key, identity and unique
 annotations nested within other annotations

Identity[PrimaryKey[int]] carried the primary key annotation on the inner
type, which get_field_properties reads but is_primary_key_type did not see:
the data-class was taken for a composite type, and got no table.
---
 pysqlsync/model/properties.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/model/properties.py b/pysqlsync/model/properties.py
index e1e31d3..b5fdbcc 100644
--- a/pysqlsync/model/properties.py
+++ b/pysqlsync/model/properties.py
@@ -11,7 +11,6 @@ from strong_typing.inspection import (
     DataclassInstance,
     TypeLike,
     dataclass_fields,
-    get_annotation,
     is_dataclass_type,
     is_type_enum,
     is_type_literal,
@@ -29,19 +28,19 @@ from .key_types import DefaultTag, IdentityTag, PrimaryKeyTag, UniqueTag
 def is_primary_key_type(field_type: TypeLike) -> bool:
     "Checks if the field type is marked as the primary key of a table."
 
-    return get_annotation(field_type, PrimaryKeyTag) is not None
+    return get_field_properties(field_type).is_primary
 
 
 def is_identity_type(field_type: TypeLike) -> bool:
     "Checks if the field type is marked as an identity column in a table."
 
-    return get_annotation(field_type, IdentityTag) is not None
+    return get_field_properties(field_type).is_identity
 
 
 def is_unique_type(field_type: TypeLike) -> bool:
     "Checks if the field type is marked as a unique column in a table."
 
-    return get_annotation(field_type, UniqueTag) is not None
+    return get_field_properties(field_type).is_unique
 
 
 def get_primary_key_name(class_type: type[DataclassInstance]) -> str:
-- 
2.43.0


From 5e8325c2dc4d32100270542a4fa1510f8594633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:28 +0000
Subject: [PATCH 45/60] fix: write default values of date and time fields

constant() had no representation for datetime.date and datetime.time, so a
data-class with such a default, or with auto_default (which assigns the least
date or time), failed with NotImplementedError.
---
 pysqlsync/model/data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index 2e4c7e9..4f81c79 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -41,6 +41,8 @@ def constant(v: Any) -> str:
         else:
             timestamp = v
         return quote(timestamp.isoformat(sep=" "))
+    elif isinstance(v, (datetime.date, datetime.time)):
+        return quote(v.isoformat())
     elif isinstance(v, tuple):
         values = ", ".join(constant(value) for value in v)
         return f"({values})"
-- 
2.43.0


From fa8250b5bb5b5dde85b61ba1b5c5c5b0cdf650a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:35 +0000
Subject: [PATCH 46/60] fix: unescape quotes in the values of a discovered
 enumeration type

---
 pysqlsync/formation/data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index e5abc76..af0022e 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -134,7 +134,8 @@ class SqlDiscovery:
         if m is not None:
             value_list = m.group(1)
             values = [
-                value for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
+                value.replace("''", "'")
+                for value in re.findall(r"'((?:[^']|'')*)'(?:,|$)", value_list)
             ]
             return SqlEnumType(values)
 
-- 
2.43.0


From 0ed6d2e2e7a9c0895f6a1ea7f11303556262f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:21 +0000
Subject: [PATCH 47/60] fix: recognise interval, character and time with
 precision types in the PostgreSQL catalog

---
 pysqlsync/formation/data_types.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index af0022e..3d748c7 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -14,6 +14,7 @@ from ..model.data_types import (
     SqlFixedCharacterType,
     SqlFloatType,
     SqlIntegerType,
+    SqlIntervalType,
     SqlJsonType,
     SqlRealType,
     SqlTimestampType,
@@ -73,7 +74,9 @@ class SqlDiscovery:
             return SqlTimeType(None, False)
         elif name == "time with time zone":
             return SqlTimeType(None, True)
-        elif name in ["char", "character"]:
+        elif name == "interval":
+            return SqlIntervalType()
+        elif name in ["char", "character", "bpchar"]:
             return SqlFixedCharacterType()
         elif name in ["varchar", "character varying", "text"]:
             return SqlVariableCharacterType()
@@ -109,6 +112,12 @@ class SqlDiscovery:
             else:
                 return SqlTimestampType(int(m.group(1)), False)
 
+        m = re.fullmatch(
+            r"^time[(](\d+)[)]\s*(with(?:out)? time zone)?$", type_def, re.IGNORECASE
+        )
+        if m is not None:
+            return SqlTimeType(int(m.group(1)), m.group(2) == "with time zone")
+
         m = re.fullmatch(r"^char(?:acter)?[(](\d+)[)]$", type_def, re.IGNORECASE)
         if m is not None:
             return SqlFixedCharacterType(int(m.group(1)))
-- 
2.43.0


From 892defb09f39e624805387f9481b31dc53529184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:35 +0000
Subject: [PATCH 48/60] fix: keep the parameters of the element type of a
 discovered PostgreSQL array column

---
 pysqlsync/dialect/postgresql/discovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 0769b01..277f600 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -272,7 +272,9 @@ class PostgreSQLExplorer(Explorer):
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=col.type_name,
                 type_schema=col.type_schema,
-                type_def=col.type_def,
+                type_def=(
+                    col.type_def.removesuffix("[]") if col.is_array else col.type_def
+                ),
             )
             if col.is_array:
                 data_type = SqlArrayType(data_type)
-- 
2.43.0


From 2e3eb6f4fd1d83f721a72937b919ad0b15e33c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:35 +0000
Subject: [PATCH 49/60] fix: discover array members of PostgreSQL composite
 types as arrays

---
 pysqlsync/dialect/postgresql/discovery.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 277f600..2c8e418 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -59,6 +59,7 @@ class PostgreSQLMemberMeta:
     type_schema: str
     type_name: str
     type_def: str
+    is_array: bool
     description: str
 
 
@@ -196,9 +197,9 @@ class PostgreSQLExplorer(Explorer):
             "SELECT\n"
             "    att.attname AS member_name,\n"
             "    typ_nsp.nspname AS type_schema,\n"
-            "    typ.typname AS type_name,\n"
             "    CASE WHEN typ.typelem != 0 THEN typ_elem.typname ELSE typ.typname END AS type_name,\n"
             "    pg_catalog.format_type(att.atttypid, att.atttypmod) AS type_def,\n"
+            "    att.attndims != 0 AS is_array,\n"
             "    dsc.description AS description\n"
             "FROM pg_catalog.pg_attribute AS att\n"
             "    INNER JOIN pg_catalog.pg_type AS typ ON att.atttypid = typ.oid\n"
@@ -216,8 +217,12 @@ class PostgreSQLExplorer(Explorer):
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=mem.type_name,
                 type_schema=mem.type_schema,
-                type_def=mem.type_def,
+                type_def=(
+                    mem.type_def.removesuffix("[]") if mem.is_array else mem.type_def
+                ),
             )
+            if mem.is_array:
+                data_type = SqlArrayType(data_type)
             members.append(
                 StructMember(
                     LocalId(mem.member_name),
-- 
2.43.0


From a0a5e43f2b7ba0e617beb5c68fc8064f721f2096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:35 +0000
Subject: [PATCH 50/60] fix: recognise parametrised types in an information
 schema without extended attributes

---
 pysqlsync/formation/discovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index a4b1024..031dbec 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -184,7 +184,9 @@ class AnsiExplorer(Explorer):
             columns.append(
                 self.factory.column_class(
                     LocalId(column_name),
-                    self.discovery.sql_data_type_from_spec(type_name=data_type),
+                    self.discovery.sql_data_type_from_spec(
+                        type_name=data_type, type_def=data_type
+                    ),
                     bool(nullable),
                 )
             )
-- 
2.43.0


From d451b7c9f37591c84e378bdb8ff2fe03399d2c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 51/60] fix: discover an Oracle number with a precision as a
 decimal

---
 pysqlsync/dialect/oracle/discovery.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 5c47044..d7039d2 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -142,6 +142,8 @@ class OracleExplorer(Explorer):
                 data_type = m.group(1)
             else:
                 data_type = col.data_type
+            if data_type == "NUMBER" and col.data_precision is not None:
+                data_type = "DECIMAL"  # NUMBER without precision is an integer
 
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=data_type,
-- 
2.43.0


From e212d7f4ad019c37b2bffcf1bbfd97de587a038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 52/60] fix: keep the precision of a discovered Oracle
 timestamp

---
 pysqlsync/dialect/oracle/discovery.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index d7039d2..b47e723 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -153,6 +153,8 @@ class OracleExplorer(Explorer):
                 numeric_precision=col.data_precision,
                 numeric_scale=col.data_scale,
             )
+            if isinstance(data_type, OracleTimestampType) and col.data_scale != 6:
+                data_type.precision = col.data_scale
             nullable = bool(col.is_nullable)
             identity = bool(col.is_identity)
             columns.append(
-- 
2.43.0


From 465262ce921594910b5ee55cd7e98d287926a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:33 +0000
Subject: [PATCH 53/60] fix: mark primary keys and nullable references in
 data-classes made from tables

---
 pysqlsync/formation/sql_to_py.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index a707c9a..307068f 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -144,11 +144,6 @@ class SqlConverter:
             default = column.default
 
         field_type = sql_type_to_python(column.data_type)
-        if column.name == table.primary_key:
-            field_type = PrimaryKey[(field_type,)]  # type: ignore
-        elif column.nullable:
-            field_type = Optional[field_type]
-
         for c in table.constraints.values():
             if not isinstance(c, ReferenceConstraint):
                 continue
@@ -162,6 +157,11 @@ class SqlConverter:
                 union_types = tuple(self.qual_to_module(r.table) for r in c.references)
                 field_type = Union[union_types]
 
+        if table.primary_key == (column.name,):
+            field_type = PrimaryKey[(field_type,)]  # type: ignore
+        elif column.nullable:
+            field_type = Optional[field_type]  # type: ignore
+
         # use cast to ensure compatibility with signature of `make_dataclass`
         data_type = typing.cast(type, field_type)
 
-- 
2.43.0


From dd01d9675291b574ff346a9bf80eb09f92c73fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:05 +0000
Subject: [PATCH 54/60] fix: keep column descriptions in data-classes made from
 tables

---
 pysqlsync/formation/sql_to_py.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 307068f..09596a9 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -165,7 +165,15 @@ class SqlConverter:
         # use cast to ensure compatibility with signature of `make_dataclass`
         data_type = typing.cast(type, field_type)
 
-        return (field_name, data_type, dataclasses.field(default=default))
+        metadata: dict[str, Any] = {}
+        if column.description is not None:
+            metadata["description"] = column.description
+
+        return (
+            field_name,
+            data_type,
+            dataclasses.field(default=default, metadata=metadata),
+        )
 
     def table_to_dataclass(self, table: Table) -> type[DataclassInstance]:
         """
-- 
2.43.0


From 25f4dee087d50e8857366c7ae54379dc881b573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:05 +0000
Subject: [PATCH 55/60] fix: qualify the field function in generated data-class
 code

---
 pysqlsync/python_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index ccb9c5e..7462a73 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -125,7 +125,7 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
             initializer_list = ", ".join(
                 f"{key} = {value}" for key, value in field_initializer.items()
             )
-            initializer = f" = field({initializer_list})"
+            initializer = f" = dataclasses.field({initializer_list})"
 
         print(f"    {field.name}: {type_name}{initializer}", file=target)
 
-- 
2.43.0


From c2d47fa64b8ef561fced2ba78bcf0c18ea144fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:09 +0000
Subject: [PATCH 56/60] fix: make data-classes from tables with binary,
 interval and enumeration columns

---
 pysqlsync/formation/sql_to_py.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 09596a9..81cce16 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -8,7 +8,7 @@ import types
 import typing
 from dataclasses import dataclass
 from io import StringIO
-from typing import Annotated, Any, Optional, Union
+from typing import Annotated, Any, Literal, Optional, Union
 from uuid import UUID
 
 from strong_typing.auxiliary import (
@@ -32,15 +32,19 @@ from ..model.data_types import (
     SqlDateType,
     SqlDecimalType,
     SqlDoubleType,
+    SqlEnumType,
+    SqlFixedBinaryType,
     SqlFixedCharacterType,
     SqlFloatType,
     SqlIntegerType,
+    SqlIntervalType,
     SqlJsonType,
     SqlRealType,
     SqlTimestampType,
     SqlTimeType,
     SqlUserDefinedType,
     SqlUuidType,
+    SqlVariableBinaryType,
     SqlVariableCharacterType,
 )
 from ..model.id_types import SupportsQualifiedId
@@ -95,6 +99,12 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
         if sql_type.limit is not None:
             return Annotated[str, MaxLength(sql_type.limit)]
         return str
+    elif isinstance(sql_type, (SqlFixedBinaryType, SqlVariableBinaryType)):
+        return bytes
+    elif isinstance(sql_type, SqlIntervalType):
+        return datetime.timedelta
+    elif isinstance(sql_type, SqlEnumType):
+        return Literal[tuple(sql_type.values)]  # type: ignore
     elif isinstance(sql_type, SqlUuidType):
         return UUID
     elif isinstance(sql_type, SqlJsonType):
-- 
2.43.0


From 33553a371f47b597ea8730765304d86214991434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:21 +0000
Subject: [PATCH 57/60] fix: refer to data-classes made from tables by a name
 that resolves in their module

---
 pysqlsync/formation/sql_to_py.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 81cce16..b82bd6f 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -135,8 +135,13 @@ class SqlConverter:
     def __init__(self, options: SqlConverterOptions) -> None:
         self.options = options
 
-    def qual_to_module(self, id: SupportsQualifiedId) -> str:
-        return f"{self.options.namespaces[id.scope_id].__name__}.{safe_id(id.local_id)}"
+    def qual_to_module(self, table: Table, id: SupportsQualifiedId) -> str:
+        "Returns the name by which the data-class of a table refers to the data-class of another table."
+
+        module = self.options.namespaces[id.scope_id]
+        if module is self.options.namespaces[table.name.scope_id]:
+            return safe_id(id.local_id)
+        return f"{module.__name__}.{safe_id(id.local_id)}"
 
     def column_to_field(
         self, table: Table, column: Column
@@ -162,9 +167,11 @@ class SqlConverter:
                 continue
 
             if isinstance(c, ForeignConstraint):
-                field_type = self.qual_to_module(c.reference.table)
+                field_type = self.qual_to_module(table, c.reference.table)
             elif isinstance(c, DiscriminatedConstraint):
-                union_types = tuple(self.qual_to_module(r.table) for r in c.references)
+                union_types = tuple(
+                    self.qual_to_module(table, r.table) for r in c.references
+                )
                 field_type = Union[union_types]
 
         if table.primary_key == (column.name,):
-- 
2.43.0


From 032b443bf015022a42b4fc49dfffbd18b0d627ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:12 +0000
Subject: [PATCH 58/60] fix: refuse to replace a column whose data cannot be
 migrated

In dialects without data migration, a text or enumeration column that becomes an integer was renamed and
dropped, and its values were lost.
---
 pysqlsync/formation/mutation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 541794f..c56eccb 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -105,7 +105,10 @@ class Mutator:
     def migrate_column_stmt(
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
-        return None
+        raise ColumnFormationError(
+            f"operation not permitted; cannot migrate data from {source.data_type} to {target.data_type}",
+            source.name,
+        )
 
     def is_column_migrated(self, source: Column, target: Column) -> Optional[bool]:
         """
-- 
2.43.0


From f98a52bf6fbe98bc785011e52cb69bf3936e3f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:16 +0000
Subject: [PATCH 59/60] fix: PostgreSQL: register the values of a text column
 that becomes a key

The lookup table had no row for the values of existing rows, so no key was found and the values were lost.
---
 pysqlsync/dialect/postgresql/mutation.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 656c1ca..69469ee 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -10,7 +10,12 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlIntegerType, SqlUserDefinedType, quote
+from pysqlsync.model.data_types import (
+    SqlIntegerType,
+    SqlUserDefinedType,
+    SqlVariableCharacterType,
+    quote,
+)
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
@@ -39,12 +44,20 @@ class PostgreSQLMutator(Mutator):
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
         ref = target_table.get_constraint(target.name)
-        return (
+        source_name = LocalId(deleted(source.name.id))
+        statements: list[str] = []
+        if isinstance(source.data_type, SqlVariableCharacterType):
+            statements.append(
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {source_name} FROM {source_table.name} WHERE {source_name} IS NOT NULL\n'
+                'ON CONFLICT ("value") DO NOTHING;'
+            )
+        statements.append(
             f"UPDATE {source_table.name} data_table\n"
             f'SET {target.name} = enum_table."id"\n'
             f"FROM {ref.table} enum_table\n"
-            f'WHERE data_table.{LocalId(deleted(source.name.id))}::VARCHAR = enum_table."value";'
+            f'WHERE data_table.{source_name}::VARCHAR = enum_table."value";'
         )
+        return "\n".join(statements)
 
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         statements: StatementList = StatementList()
-- 
2.43.0


From 2aa100cca375edc6d5b48da3ed9515a03dc0904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:21 +0000
Subject: [PATCH 60/60] fix: MySQL: leave out null when the values of a column
 are registered

A row without a value made the migration of its column fail, as the lookup table takes no null.
---
 pysqlsync/dialect/mysql/mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index a1530f6..6f00ec1 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -31,7 +31,7 @@ class MySQLMutator(Mutator):
             )
         elif isinstance(source.data_type, SqlVariableCharacterType):
             statements.append(
-                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {LocalId(deleted(source.name.id))} FROM {source_table.name}\n'
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {LocalId(deleted(source.name.id))} FROM {source_table.name} WHERE {LocalId(deleted(source.name.id))} IS NOT NULL\n'
                 'ON DUPLICATE KEY UPDATE "value" = "value";'
             )
         statements.append(
-- 
2.43.0

