"""Regenerates properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

D = "pysqlsync/dialect/*/"
prop("C01", "Generated SQL never embeds a name or a value unquoted",
 "In every SQL statement the library builds (DDL, DML, schema changes and catalog queries, in every dialect), each object name is embedded in the quoted form of its identifier and each text value in the form produced by a quoting function for the position it takes. A name or text inside a quoted literal is escaped for that literal, also when a statement is nested in another statement's literal. No identifier, comment, enumeration value or default therefore can terminate its token and be executed as SQL.",
 ["inputs"], "all identifiers, descriptions, enumeration values, default values, schema and table names, in all dialects",
 "Tests use a handful of well-behaved names and a few strings with quotes; the property is about every string at each of some 150 interpolation sites.",
 ["pysqlsync/formation/object_types.py", "pysqlsync/formation/mutation.py", "pysqlsync/base.py", "pysqlsync/formation/discovery.py", D+"object_types.py", D+"mutation.py", D+"generator.py", D+"discovery.py", D+"connection.py"],
 [("quote / constant / sql_quoted_string / escape_like", "pysqlsync/model/data_types.py"), ("quoted identifiers", "pysqlsync/model/id_types.py")],
 ["text passed to execute/query", "text returned by statement builders"])
prop("C02", "Quoting functions neutralise every delimiter of their context",
 "The identifier quoting functions enclose the name in the identifier delimiter and double each embedded delimiter; the literal quoting functions enclose the text in single quotes and double or backslash-escape each embedded single quote (and the escape character itself whenever the literal is one in which it escapes); the LIKE-pattern escape protects the escape character itself, percent and underscore, and protects the escape character before the others. This holds for every string and on every path through these functions.",
 ["inputs"], "all strings",
 "Tests try a few sample strings; a missing or misordered replacement shows only for a text containing the specific character combination.",
 ["pysqlsync/model/data_types.py", "pysqlsync/model/id_types.py", "pysqlsync/dialect/*/object_types.py", "pysqlsync/dialect/mysql/connection.py"],
 [("quote, quote_id, escape_like, sql_quoted_string", "pysqlsync/model/*.py, pysqlsync/dialect/*/object_types.py")])
prop("C03", "Objects are dropped only if the matching drop permission is set",
 "When a database schema is changed to match a desired state, a statement that drops an enumeration type, a composite type, a table or a namespace is emitted only if the corresponding synchronization permission (enum, struct, table, namespace respectively) is enabled, in every dialect. With all permissions disabled, no such object is ever dropped, and dropping a namespace never happens through any other permission.",
 ["inputs", "configurations"], "all pairs of source and target state, all settings of the four permissions, all dialects",
 "Tests exercise the default (everything permitted) and one or two combinations; the property ranges over 16 settings times all state pairs times dialect overrides.",
 ["pysqlsync/formation/mutation.py", D+"mutation.py", D+"generator.py"],
 [("MutatorOptions.allow_drop_*", "pysqlsync/formation/mutation.py")], ["statement passed to execute by synchronize"])
prop("C04", "Every generator option takes effect in every dialect",
 "Each option a user passes when creating a generator (enum, struct and array mode, namespace mapping, foreign constraints, table initialization, skipped annotations, automatic defaults, synchronization permissions) reaches the component that acts on it, in every dialect and undistorted: a mode the user states is the mode used. The only exception is that the dialects without enforced foreign keys (Redshift, Snowflake, Delta) switch foreign constraints between entities off; an option is otherwise never ignored, replaced by a constant or swapped for another.",
 ["configurations"], "all option combinations in all dialects",
 "Tests set a few options in a few dialects; an option dropped in one dialect's wiring is only visible with that option set to a non-default value in that dialect.",
 ["pysqlsync/base.py", D+"generator.py", "pysqlsync/formation/py_to_sql.py"],
 [("DataclassConverterOptions(...) and Mutator(...) construction", D+"generator.py")])
prop("C05", "Unsupported conversion modes are refused in every dialect",
 "Each dialect that cannot represent an enum, struct or array mode raises a formation error when a generator is created with that mode, instead of silently producing something else, before any SQL is generated. The default mode a dialect falls back to, when the user states none, is one that the same dialect accepts when stated explicitly.",
 ["configurations"], "all mode values in all dialects",
 "Tests try a couple of accepted modes; the refusal paths and the agreement of default and accepted sets are not tested per dialect.",
 ["pysqlsync/base.py", D+"generator.py"],
 [("check_enum_mode/check_struct_mode/check_array_mode/_check_mode", "pysqlsync/base.py")])
prop("C06", "Schema scripts create before use and drop after last use",
 "A script that creates or drops objects is ordered so that each statement can run: namespaces are created before the objects in them, enumeration types before composite types before tables, and all tables before any constraint between tables; constraints are dropped before the tables and columns they concern, tables before composite types before enumeration types, and a namespace after all objects in it. Namespaces themselves are visited in dependency order on creation and in reverse order of creation within a namespace on dropping.",
 ["inputs", "programs"], "all sets of data-classes/modules with arbitrary references between tables, composite types, enumerations and namespaces",
 "Integration tests are skipped without a server, and unit tests compare a few literal scripts; wrong order shows only for models with the specific reference between objects.",
 ["pysqlsync/formation/object_types.py", "pysqlsync/formation/mutation.py", D+"mutation.py"],
 [("Namespace.create_objects_stmt/drop_objects_stmt, Catalog.create_stmt/drop_stmt/sort, Mutator.mutate_*_stmt", "pysqlsync/formation")])
prop("C07", "Synchronization acts on every difference and on nothing else",
 "If the source and target definitions of an enumeration, composite type, column, table, namespace or catalog are equal, the change script for it is empty. If they differ in a single attribute that the dialect writes when it creates the object (data type, nullability, default, identity, comment, primary key, constraint) or in an element that only one of them has (member, column, enumeration value, constraint, table, namespace), the change script for that dialect contains a statement about that attribute or element of this object, which states the value of the target, or an error is raised, whatever the remaining attributes are. A removed enumeration value or a changed constraint of the same name raises an error and is not ignored. The order of columns, members and enumeration values is not part of a definition.",
 ["inputs", "histories"], "all pairs of source and target definitions, in all dialects",
 "Tests mutate a few attributes in a few dialects; the property is a full matrix of attributes times dialects times directions.",
 ["pysqlsync/formation/mutation.py", D+"mutation.py", "pysqlsync/formation/object_types.py"],
 [("Mutator.mutate_*_stmt and dialect overrides", "pysqlsync/formation/mutation.py")])
prop("C08", "INSERT, MERGE and UPSERT address exactly the supplied columns",
 "In each statement generated to insert, merge or upsert rows, in every dialect, the number and the order of value placeholders equal those of the column list, and both derive from the columns the caller supplies, in the order the caller supplies them. An update clause assigns only non-key, non-identity columns among the supplied ones, each from the new value of the same column, and never a column the caller has not supplied.",
 ["inputs"], "all tables, all column subsets and orders, all dialects",
 "Tests generate statements for whole tables in declaration order; a subset or a permuted order of columns with identity columns is not covered per dialect.",
 ["pysqlsync/base.py", "pysqlsync/dialect/postgresql/generator.py", "pysqlsync/dialect/mysql/generator.py"],
 [("get_table_insert_stmt/get_table_merge_stmt/get_table_upsert_stmt/get_table_delete_stmt", "pysqlsync/base.py, dialect generators")])
prop("C09", "Each row value is stored in the column its field names",
 "When rows or data-class objects are inserted or upserted, the value at each position of a generated record belongs to the column at the same position of the statement or bulk-copy column list: a field omitted from one is omitted from the other, on the same condition. Each conversion function is the one for its own field, and a missing value (None) is stored as NULL and never passed to a conversion function, both in row-wise loading and for data-class objects. A conversion is determined by the declared type of the field itself, looking through optional and annotated types.",
 ["inputs"], "all record layouts, omitted fields, identity columns, field types and dialects",
 "Misalignment shows only for specific layouts (omitted in the middle, identity column last, None in a converted column) that tests sample only in part and need a database to observe.",
 ["pysqlsync/base.py", "pysqlsync/dialect/postgresql/connection.py", "pysqlsync/dialect/redshift/connection.py", D+"generator.py"],
 [("_generate_records, SelectorDataSource/TransformerDataSource/SelectorTransformerDataSource, get_dataclasses_as_records", "pysqlsync/base.py")])
prop("C10", "Batching delivers every record exactly once and in order",
 "A data source splits its records into batches such that the concatenation of the batches is the record sequence: nothing is lost at a batch boundary or at the end of input, nothing is delivered twice, and a batch already handed out is not modified afterwards. Selecting and transforming sources yield one output record per input record, and each database context passes every batch of the source to the driver.",
 ["inputs", "schedules"], "all record counts, including zero, exact multiples of the batch size and one more; synchronous and asynchronous sources",
 "The batch size is 100000 and tests feed few rows, so that batch boundaries are never reached.",
 ["pysqlsync/base.py", D+"connection.py"],
 [("IterableDataSource/AsyncIterableDataSource.batches, BATCH_SIZE, _execute_all/_execute_typed", "pysqlsync/base.py, dialect connections")])
prop("C11", "Blocking driver calls never run on the event loop thread",
 "Each call into a synchronous database driver (SQL Server, Oracle, Redshift), including connecting, closing, executing, fetching and bulk loading, is made only from functions that are dispatched to a worker thread. No coroutine reaches a blocking driver call other than through such a dispatch, and a dispatched function is never itself a coroutine.",
 ["schedules", "programs"], "all call paths from the public asynchronous interface to driver calls",
 "A blocking call works the same functionally; only other coroutines starve. Tests run one coroutine at a time and need servers.",
 ["pysqlsync/util/dispatch.py", "pysqlsync/dialect/mssql/connection.py", "pysqlsync/dialect/oracle/connection.py", "pysqlsync/dialect/redshift/connection.py"],
 [("@thread_dispatch", "pysqlsync/util/dispatch.py")])
prop("C12", "Every asynchronous operation is awaited",
 "Each coroutine the library creates, its own or an asynchronous driver's (PostgreSQL, MySQL, Trino), is awaited, iterated asynchronously or returned to a caller that does so; none is created and dropped, tested for truth, or used as if it were its result. Conversely, a plain value is never awaited.",
 ["schedules", "programs"], "all call sites of asynchronous functions on all paths",
 "An operation that is not awaited silently never happens; the sites are mostly on paths that need a database.",
 ["pysqlsync/base.py", "pysqlsync/formation/discovery.py", D+"connection.py", D+"discovery.py"],
 [("await at call sites", "all async functions")])
prop("C13", "Driver failures surface as query errors and are never swallowed",
 "Any error a driver raises while a statement, a batch of records or a query is executed through the context's public operations (execute, execute_all, query_one, query_all) reaches the caller as a query exception that carries the statement text and the original error as its cause. No exception handler in the library suppresses an error, except for the optional-capability probes of the catalog explorer, the SSL mode fallbacks and the check for an absent optional driver.",
 ["fault_sequences"], "all driver errors at all points of execution",
 "Tests do not inject driver errors; without a server none occur.",
 ["pysqlsync/base.py", "pysqlsync/formation/discovery.py", "pysqlsync/factory.py", D+"connection.py"],
 [("QueryException wrapping in BaseContext", "pysqlsync/base.py")])
prop("C14", "The requested SSL mode is honoured",
 "For each SSL mode, the TLS context verifies what the mode promises: verify-full checks certificate and host name, verify-ca checks the certificate, the others check neither, and disabling yields no context. A PostgreSQL or MySQL connection in mode require, verify-ca or verify-full is only ever opened with such a context and never falls back to plaintext; allow tries plaintext then TLS, prefer TLS then plaintext, only on an error in connecting; an unknown mode is an error.",
 ["configurations", "fault_sequences"], "all SSL modes, all connection failures, both dialects",
 "Tests run against one local server with no TLS, or none at all.",
 ["pysqlsync/connection.py", "pysqlsync/dialect/postgresql/connection.py", "pysqlsync/dialect/mysql/connection.py"],
 [("create_context, open/_open", "pysqlsync/connection.py, dialect connections")])
prop("C15", "The database password is disclosed to the driver only",
 "The connection password never flows into a log message, an exception message, a printed or string form of the connection parameters or of any object holding them, or into a generated SQL statement. It is passed only to the driver's connect or authentication call.",
 ["inputs", "configurations"], "all flows from the connection parameters, in all dialects",
 "Absence of a flow cannot be sampled; log output at each level in each dialect is not tested.",
 ["pysqlsync/connection.py", "pysqlsync/factory.py", D+"connection.py"],
 [("ConnectionParameters.__str__/as_string", "pysqlsync/connection.py")])
prop("C16", "A dialect needs only its own driver and is absent without it",
 "Importing the library core, or any one dialect, never requires a third-party driver of another dialect. Each dialect declares every driver its modules import unconditionally, so that it is registered if its driver is installed and reported as unavailable (with a clear error on use) if it is not; no import failure other than of an absent module is hidden.",
 ["configurations"], "all subsets of installed drivers",
 "Tests run in one environment with a fixed set of drivers.",
 ["pysqlsync/factory.py", D+"dependency.py", D+"engine.py"],
 [("discover_dialects, dependency.py", "pysqlsync/factory.py")])
prop("C17", "Catalog query columns match the record they are decoded into",
 "Each catalog query selects exactly the fields of the record type its result is decoded into: the same names for named decoding, and the same count and order for positional decoding (tuples, and every query run through the Oracle dialect). No field is missing, misnamed or swapped on any variant of the query.",
 ["inputs", "configurations"], "all catalog queries on all variants in all dialects",
 "Queries run only against live servers of the specific kind and version; tests here run none.",
 ["pysqlsync/formation/discovery.py", "pysqlsync/resultset.py", D+"discovery.py", D+"connection.py"],
 [("query_all(signature, statement)", D+"discovery.py")])
prop("C18", "Catalog queries see only the requested schema and object",
 "Each catalog query that discovers the columns, keys, constraints, members or values of a table, type or schema restricts its result to that object and its schema (or to the current schema where none is given), and joins between catalog views match schema together with object name. Dropping a schema finds only objects belonging to that schema.",
 ["inputs", "configurations"], "all databases with several schemas that contain equally named objects",
 "Tests use one schema at a time; objects of the same name in another schema are needed to see a leak.",
 ["pysqlsync/formation/discovery.py", D+"discovery.py", D+"connection.py"],
 [("WHERE conditions of catalog queries", D+"discovery.py")])
prop("C19", "Connection strings decode to what was encoded",
 "The user name, password and database of a connection URL are percent-decoded exactly once when a URL is parsed, the components of the URL are not swapped, and the user name and database written into a URL are percent-encoded with no reserved character left as is. A value placed in a driver's own connection string cannot introduce further settings.",
 ["inputs"], "all user names, passwords and database names",
 "Tests use names without reserved characters, or cover one component.",
 ["pysqlsync/factory.py", "pysqlsync/connection.py", "pysqlsync/dialect/mssql/connection.py"],
 [("get_parameters, ConnectionParameters.as_string", "pysqlsync/factory.py, pysqlsync/connection.py")])
prop("C20", "The tracked schema state never runs ahead of the database",
 "During synchronization the state the library tracks becomes the target state only after the change script has been executed without error, and it is the discovered state until then. Generating a create or drop statement updates the tracked state only after the statement was generated without error.",
 ["fault_sequences", "histories"], "all points of failure during synchronization",
 "Needs a failing database statement in the middle of synchronization; tests inject none.",
 ["pysqlsync/base.py"],
 [("Explorer.synchronize, BaseGenerator.create/drop", "pysqlsync/base.py")])
prop("C21", "Every engine is complete and selected by its own name",
 "Each registered database engine supplies classes that can be instantiated, with no abstract operation left unimplemented, and supplies the generator, connection and explorer of its own dialect under the name it is looked up by. Registering a second engine under a name already taken is an error, as is asking for an unknown or unavailable one.",
 ["configurations"], "all engines and all operations",
 "Instances need the driver and a server; no test enumerates all abstract operations of all engines.",
 ["pysqlsync/factory.py", D+"engine.py"],
 [("BaseEngine implementations, registry", D+"engine.py, pysqlsync/factory.py")])
prop("C22", "Dialect overrides accept every call their base operation accepts",
 "A method overridden in a dialect or derived class accepts every call that the library makes through the base interface: the same positional parameters in the same order and meaning, the same keyword names, the same optional parameters, and the same synchronous, coroutine or property nature.",
 ["programs", "configurations"], "all overriding methods, all call sites in all dialects",
 "Calls are dispatched dynamically; a mismatch in one dialect is visible only when that call is made in that dialect.",
 ["pysqlsync/base.py", "pysqlsync/formation/*.py", D+"*.py"],
 [("@override methods", D+"*.py")])
prop("C23", "Conversion and SQL generation never modify shared definitions",
 "The per-dialect type templates and the options given to a converter are never modified when the annotations of a particular column are applied: each column gets its own copy. Generating SQL from a model does not modify the model (other than ordering its namespaces), and merging models copies the merged objects.",
 ["histories", "inputs"], "all sequences of conversions in one process",
 "Aliasing shows only in a later, differently annotated column or a second conversion with the same generator.",
 ["pysqlsync/formation/py_to_sql.py", "pysqlsync/model/data_types.py", "pysqlsync/formation/object_types.py", "pysqlsync/formation/mutation.py"],
 [("copy.copy before parse_meta; copy.deepcopy in merge", "pysqlsync/formation")])
prop("C24", "Generated SQL is deterministic",
 "The text of generated SQL depends only on the input definitions and options: it never depends on the iteration order of an unordered set, on object identity or hash values, on the current time, or on random numbers. The same input yields the same script in every process.",
 ["inputs", "schedules"], "all inputs, all hash seeds",
 "The test suite runs with a fixed hash seed, in one process.",
 ["pysqlsync/formation/*.py", "pysqlsync/base.py", D+"*.py"],
 [("insertion-ordered ObjectDict, sorted(...) over sets", "pysqlsync/formation")])
prop("C25", "Enumeration values are registered before they are looked up",
 "When rows refer to enumeration values kept in a lookup table, all values of the batch that are not null are merged into the lookup table and the full table is read back, both awaited, before the first value is translated to its key. This is the same for scalar and for list-valued columns; null is never inserted in a lookup table nor does it break loading.",
 ["inputs"], "all batches, with new, repeated and null values",
 "Needs a database; tests cover new values in a scalar column in some dialects.",
 ["pysqlsync/base.py"],
 [("EnumTransformer, EnumListTransformer, _merge_lookup_table", "pysqlsync/base.py")])
prop("C26", "Delimited text files are read and written without loss",
 "Reading a delimited file ends only at the end of the stream: an empty or blank line is a record, not the end. Special characters and nulls are written in an escaped form that the reader maps back, the columns selected are those asked for, in that order, and synchronous and asynchronous variants behave the same.",
 ["inputs"], "all tables of values, all field selections",
 "Tests use a few small tables without empty lines or with one kind of reader.",
 ["pysqlsync/data/exchange.py"],
 [("TextReader, TextWriter, AsyncTextReader", "pysqlsync/data/exchange.py")])
prop("C27", "Successful writes are committed",
 "Each dialect that executes statements or loads data does so in a mode in which a write that returned successfully is durable: the connection is opened in autocommit mode, or the write is committed on every successful path before the operation returns. This holds for single statements, batches and bulk loads alike.",
 ["histories", "crash_points"], "all write operations in all dialects",
 "Within one connection uncommitted data looks committed; tests that need a server do not reconnect.",
 [D+"connection.py"],
 [("autocommit settings, cursor context managers", D+"connection.py")])
prop("C28", "Types a dialect emits are read back as the same type",
 "When a table is discovered, each column has the same database type as the one it was declared with: for every SQL type that a dialect's generator can assign to a column (with its length, precision and scale, as an array in PostgreSQL, as an enumeration in MySQL, as a user-defined type in PostgreSQL), discovery turns what the dialect's catalog reports for such a column into a type with the same meaning in that database. The type discovered for one column does not depend on other columns.",
 ["inputs", "configurations"], "all column types of all dialects",
 "Requires catalog output of real servers.",
 ["pysqlsync/formation/data_types.py", D+"data_types.py", D+"discovery.py", D+"generator.py"],
 [("SqlDiscovery.sql_data_type_from_spec and substitutions", "pysqlsync/formation/data_types.py")])
prop("C29", "Discovering a generated schema reproduces it",
 "After a schema generated from data-classes has been executed, discovering the database yields a model equal to the generated one, and a second synchronization emits no statement.",
 ["inputs", "histories"], "all data-class models on all database servers", "Needs the behaviour of live database servers.",
 ["pysqlsync/formation/discovery.py", "pysqlsync/base.py"], [("discover, synchronize", "pysqlsync/base.py")])
prop("C30", "Merged column types can hold every value of both sources",
 "When two types are unified into a compatible type, every value of either type is representable in the result without loss.",
 ["inputs"], "all pairs of types with all size parameters", "Tests try a few pairs of types.",
 ["pysqlsync/model/data_types.py"], [("compatible_type", "pysqlsync/model/data_types.py")])
prop("C31", "Generated random data satisfies the declared constraints",
 "Random records produced for a data-class respect the length, range, precision and uniqueness annotations of its fields.",
 ["inputs"], "all annotations and random choices", "Tests draw a few samples.",
 ["pysqlsync/data/generator.py"], [("random generators", "pysqlsync/data/generator.py")])
prop("C32", "Rows read back equal the rows written",
 "A row inserted through any loading operation and read back by a query equals the original after conversion to Python types, in every dialect.",
 ["inputs"], "all values of all types in all dialects", "Needs live servers; depends on driver and server conversions.",
 ["pysqlsync/base.py", "pysqlsync/resultset.py"], [("insert_rows, query_all", "pysqlsync/base.py")])
prop("C33", "A column can represent every value of the field it is made for",
 "In every dialect, the column type chosen for a field of simple type can represent every value that the field's Python type and its annotations of width, sign, range, length and precision allow, or the field is refused.",
 ["inputs"], "all simple Python types with all annotations, in all dialects", "Tests convert a few types with a few parameters; whether a type of the database holds a value is not visible without its documentation.",
 ["pysqlsync/formation/py_to_sql.py", "pysqlsync/model/data_types.py"], [("DataclassConverter.simple_type_to_sql_data_type", "pysqlsync/formation/py_to_sql.py"), ("SqlDataType.parse_meta and __str__", "pysqlsync/model/data_types.py")])
prop("C34", "Object statements state the whole definition and address that object",
 "In every dialect, the statement that creates a column, table, composite type, enumeration, constraint, namespace or catalog states everything the definition holds and the dialect can express: name and type; NOT NULL exactly for columns that are not nullable (identity columns aside); default, identity clause and comment exactly when the definition has them; every column, member, value, key column and constraint, in order and once; every object of a namespace and every namespace of a catalog. A statement that drops, renames or alters an object names that object, and an object that was renamed for deletion is dropped by its new name.",
 ["inputs"], "all definitions (any combination of attributes, any number of columns, members, values and constraints), in all dialects",
 "Tests compare the text for a few tables in a few dialects; an attribute lost only in combination with another (a default of a nullable column, a comment of an identity column, the third constraint) or in one dialect is not seen.",
 ["pysqlsync/formation/object_types.py", D+"object_types.py"],
 [("create_stmt, data_spec, spec, add_constraints_stmt", "pysqlsync/formation/object_types.py"), ("overrides", D+"object_types.py")],
 ["text returned by statement builders"])
prop("C35", "The schema model reflects every declaration of the data-classes",
 "Every data-class with a primary key annotation (in any nesting of annotations and optional types) becomes a table, every other referenced data-class a composite type, every referenced enumeration a type or lookup table as the options say, each in the namespace its module maps to. A table has one column per field that is not a relationship, in order, with the name, type, nullability, identity, default and description of the field; the primary key of the class; and for each field exactly the constraints its type calls for: unique, foreign key to the key of the referenced class, discriminated key, lookup of an enumeration, permitted values, range of an integer. A list or set of data-classes becomes a join table with a key of its own and a foreign key to both sides; elements of a set are unique for each owner.",
 ["inputs"], "all data-classes, enumerations, field types and annotations, and all options of the converter",
 "Tests convert some twenty classes; a declaration lost only in combination with another (an optional list of data-classes, a unique optional field, a key annotation inside another annotation, a join of classes whose keys differ in type) is not seen.",
 ["pysqlsync/formation/py_to_sql.py", "pysqlsync/formation/inspection.py", "pysqlsync/model/properties.py"],
 [("DataclassConverter", "pysqlsync/formation/py_to_sql.py"), ("dataclass_primary_key_name", "pysqlsync/formation/inspection.py"), ("get_field_properties", "pysqlsync/model/properties.py")],
 ["catalog returned by the converter"])
prop("C36", "A query returns every row once, in order, each value in its field",
 "A query answers with one element for each row that the database returned, in the same order: no row is dropped, repeated, reordered or cut off, whatever the number of rows and whatever values (such as NULL, zero or empty text) they hold, in every dialect. An element is the value of the only column (simple signature), the whole row (tuple), or an instance of the data-class each of whose fields takes the column of the same name (Oracle: of the same position). A result whose number of columns does not agree with a simple or tuple signature, and a signature that is not understood, are refused instead of being cut to fit. A query for a single row answers with the first row.",
 ["inputs"], "all result sets (any number of rows and columns, any values), all kinds of signature, in all dialects",
 "Tests that run queries are skipped without a server; a dropped row or value shows only for a result with a specific value, size or column order.",
 ["pysqlsync/resultset.py", "pysqlsync/base.py", D+"connection.py"],
 [("resultset_unwrap_dict/object/tuple", "pysqlsync/resultset.py"), ("query_one/query_all/_query_all", "pysqlsync/base.py, dialect connections")],
 ["value of query_all/query_one"])
prop("C37", "A data-class made from a table declares what the table does",
 "A data-class that is made from a database table has exactly one field for each column of the table, under the name of the column (with an underscore appended if it is a Python keyword), fields without a default before those with one. The type of a field is of the kind of the column's SQL type and holds all its values, and every SQL type that the catalog readers produce has one; a column that is a foreign key has instead the class of the referenced table (of any of the tables, if discriminated), by a name that resolves in the module of the class. A field is marked as the primary key if and only if its column is the primary key of the table, and is otherwise optional if and only if the column is nullable, be it a reference or not. It has the default and the description of the column. The class bears the name and description of the table and is stored in the module assigned to the namespace of the table.",
 ["inputs"], "all tables: any columns, SQL types, primary keys, constraints, defaults, descriptions and namespaces",
 "The only test of this direction is skipped; nullable references, keys, descriptions and several SQL types were lost or refused unnoticed.",
 ["pysqlsync/formation/sql_to_py.py"],
 [("sql_type_to_python", "pysqlsync/formation/sql_to_py.py"), ("SqlConverter.column_to_field, table_to_dataclass", "pysqlsync/formation/sql_to_py.py")],
 ["the data-class returned by table_to_dataclass"])
prop("C38", "Values survive a change of how an enumeration is stored",
 "When a schema change replaces an enumeration type by a lookup table of the same name, the type is renamed before the table is created, all its values are put in the table once the table exists with its constraints, and then the renamed type (and nothing else) is dropped if enumeration types may be dropped; each such type is treated so, and no other. When an enumeration or text column becomes a key to a lookup table, the column is renamed, the column of the target is created, all values that rows have are in the lookup table (null is not), the key of each row's value is stored in the new column, and the renamed column is dropped, in this order, for each such column and no other. A dialect that cannot translate the values raises an error; it never drops them.",
 ["inputs", "configurations"], "all sets of types, tables and columns that change together; all dialects",
 "No migration is run without a server; the tests compare scripts of a single type and column. Oracle, Snowflake and other dialects dropped the old column without translating it.",
 ["pysqlsync/formation/mutation.py", "pysqlsync/formation/object_types.py", D+"mutation.py"],
 [("Mutator.mutate_namespace_stmt, mutate_table_stmt, is_column_migrated, migrate_column_stmt, migrate_enum_stmt", "pysqlsync/formation/mutation.py, dialect mutators"), ("soft_drop_stmt, hard_drop_stmt, Table.get_constraint", "pysqlsync/formation/object_types.py")],
 ["the change script"])
if __name__ == "__main__":
    import re
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
