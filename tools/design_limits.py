"Per property: why the check reaches what tests cannot, what bounds it, what it costs (used by mkdesign.py)."
REACH = {
 "C01": "tests try a handful of harmless names; the rule covers each hole of each statement text of each dialect, whatever the name or value.",
 "C02": "the functions are reduced to the replacement of each character, so the result holds for every string.",
 "C03": "every path of every dialect's mutator is examined under all combinations of permissions, including paths that take two rare differences.",
 "C04": "an option that is dropped on the way shows in no test that uses its default; the rule follows each of them in every dialect.",
 "C05": "all modes (including none stated) of all eight dialects are enumerated; six of the dialects have no driver or server in the tests.",
 "C06": "the order is decided for arbitrary numbers of namespaces, types, tables and constraints, and references between them.",
 "C07": "each attribute is varied by itself against all values of the others; tests compare a few pairs of models.",
 "C08": "column lists of arbitrary length and choice, keys of any kind, all dialects.",
 "C09": "all combinations of omitted fields, identity columns, optional and annotated types; bulk paths that need a live server.",
 "C10": "any number of records and batch size, including the boundaries and partial last batches.",
 "C11": "a blocking call shows only as latency under load, which no unit test sees.",
 "C12": "an unawaited coroutine is at most a warning, and only on the path that creates it.",
 "C13": "failures of the driver at each call, which tests would have to inject one by one.",
 "C14": "needs servers with and without TLS and certificates of all kinds.",
 "C15": "a disclosure occurs on rare (error and logging) paths.",
 "C16": "needs environments with each combination of drivers installed.",
 "C17": "queries run only against live servers of six dialects; the rule reads every variant of each query text.",
 "C18": "needs databases with like-named objects in several schemas, in each dialect.",
 "C19": "holds for every string of user name, password and database name.",
 "C20": "quantifies over a failure at every call, in every phase of synchronization.",
 "C21": "abstract methods left open and wrong accessors show only when the engine is used with its driver.",
 "C22": "an incompatible override fails only in the call form the base uses, in the dialect concerned.",
 "C23": "aliasing shows only in the second use of a template or definition, far from the modification.",
 "C24": "hash seeds and addresses vary between processes, not within a test run.",
 "C25": "schedules, batches with and without nulls and new values.",
 "C26": "arbitrary contents of files and fields, both synchronous and asynchronous variants.",
 "C27": "a write that is not committed is visible to its own session; only a second session or a crash shows the loss.",
 "C28": "all emitted types with sizes in all dialects that have an explorer, without any server at hand.",
 "C30": "all pairs of types and all regions of sizes.",
 "C31": "random data satisfies a constraint by chance in a test run; the rule bounds the generator's arguments.",
 "C33": "all types, widths, lengths and precisions in all dialects.",
 "C34": "all combinations of attributes in all dialects.",
 "C35": "all declarations: each annotation, option and kind of field, in combination.",
 "C38": "any number of types, tables and columns that change together, in any order, in every dialect; no test runs a migration of data.",
 "C37": "tables with any combination of keys, nullable references, constraints in any order, defaults, descriptions, namespaces and data types, where the one test of this direction is skipped.",
 "C36": "results of any length, with any values, for each kind of signature and every dialect, whose servers are not at hand.",
}
LIMITS = {
 "C01": "texts are spelled out exactly as the code composes them; loops contribute one representative element with its filter. Comments (`--`) and statements the user passes in are out of scope.",
 "C02": "only functions in the frozen table of quoting positions and their helpers; a new quoting function is reported by C01 as unquoted text until it is added.",
 "C03": "objects renamed for later deletion (soft drop) count as kept; their eventual removal is guarded by the same permission.",
 "C04": "the mutator's use of permissions is C03; mode refusal is C05.",
 "C05": "the table of what dialects represent is the oracle and is written by hand.",
 "C06": "cycles between namespaces are outside; regular enumerations have at least two members and extensible ones at most one (the documented convention). The known finding is one obligation of many; the others stay armed.",
 "C07": "one attribute or one element differs at a time (and in addition all pairs that share a statement, rule `joint`). Order of elements and rows of lookup tables are excluded by the statement.",
 "C08": "unbounded: column lists are symbolic sequences with filters.",
 "C09": "unbounded number of fields and records; the drivers' own binding is trusted. Trino does not support data-class loading and raises NotImplementedError.",
 "C10": "unbounded; the buffer is analysed as a typestate, not simulated.",
 "C11": "class-hierarchy resolution over-approximates calls; no exemption is needed at present.",
 "C12": "the table of asynchronous driver operations is the oracle. Coroutines stored in containers must be handed to gather or awaited.",
 "C13": "`KeyboardInterrupt` and other non-`Exception` classes pass through.",
 "C14": "driver behaviour after the context is passed is trusted (aiomysql continues in plaintext if the server has no TLS: noted, outside the repository). SQL Server, Oracle and others take their TLS settings elsewhere and are outside the statement.",
 "C15": "the user's own printing of a URL is outside.",
 "C16": "imports within functions are run when the function is called and are not import-time requirements; `IMPLIED` (aiomysql requires pymysql) is the only assumption on packaging.",
 "C17": "SQL of catalog queries is parsed by a grammar for the forms in use; text that does not parse stops the check.",
 "C18": "the keys of catalog views are an oracle written by hand (`catalog.py`).",
 "C19": "host names and ports are not encoded by the library (an IPv6 host is written without brackets: noted, outside the statement).",
 "C20": "an exception is considered at every call; asynchronous cancellation is one.",
 "C21": "driver modules are not loaded; their classes are opaque bases.",
 "C22": "method signatures of third-party bases are not known and not compared.",
 "C23": "objects of external annotation types have no known structure; the converter's own caches and the order of namespaces in a catalog are exempt (the statement says so).",
 "C24": "random test data, generated Python source, and decoding of result sets are outside; dictionaries iterate in insertion order, which is deterministic.",
 "C25": "concurrent sessions that insert in the same lookup table are outside.",
 "C26": "the parser and generator of fields of the third-party module (tsv) are trusted for the escapes they document.",
 "C27": "the driver model (which call starts or ends a transaction) is the oracle (`DRIVERS`).",
 "C28": "the catalog forms are tables written by hand from the databases' documentation. \"The same type\" is what the database makes of the text; whether the type objects also compare equal (which decides about redundant ALTER statements) is not claimed. Sizes are representatives of the regions told apart by the converters and the types.",
 "C30": "sizes are partitioned around every constant the code compares with; within a region, the decision of the code is the same, hence the evaluation is exhaustive up to the regions. Encoding of SQL Server text types is outside.",
 "C31": "values drawn, not their distribution.",
 "C33": "tables of what types hold are the oracle (`capacity.py` and tables in the module). Nested element types follow the same function.",
 "C34": "the oracle is the form of the statement in each dialect, written in the rule module. Exempt: column defaults of Delta (need a table property), comments of SQL Server, Oracle and Trino (not expressible or not attempted), MySQL comments limited to the first line.",
 "C35": "type mapping itself is C33; names and namespaces are those of the converter's own naming functions, which are compared with the documented form.",
 "C38": "up to three types, tables or columns change together (the code treats them one by one); array columns of enumerations are not translated by any dialect; a new column that takes no null cannot be added to a table with rows (the database refuses); text of the translation in another form than UPDATE with a join is not understood; Redshift uses the statements of PostgreSQL.",
 "C37": "a column that is one of several columns of a foreign key may have either type; names of classes in other modules are taken to resolve; annotations of strong_typing are trusted; two columns whose names collide once escaped (class, class_) are not told apart.",
 "C36": "conversion of values within the drivers is trusted, and that their fetch operations return all rows; rows fetched in batches by a loop are not followed.",
}
COST = {
 "C07": "about 30 s (454 obligations); all others take between 0.3 and 8 s.",
}
