"""Technique and assurance note of each check; reasons for properties that are not claimed."""
COMMON = " Trusted: the clang front end, and the models of the C++ library, SQLite and libpq."
TECH = {
 "C08": ("interprocedural exception-escape analysis", "Sound over the call graph for the exception classes the project and the modelled library functions throw; running out of memory is excluded." + COMMON),
 "C26": ("abstract interpretation of the Python AST against the C declarations", "Every foreign call reachable from a public method, all result classes; calls built dynamically in ways the interpreter does not follow are skipped."),
 "C09": ("abstract interpretation with one NULL argument per run", "Every exported function and every string parameter, the other arguments arbitrary; loops are summarised." + COMMON),
 "C10": ("path-sensitive interpretation over an abstract file system with failing variants of every step", "All paths of all exported functions and of every driver operation (against abstract SQLite and libpq models); the failing variants are those of the modelled storage operations." + COMMON),
 "C12": ("path-sensitive interpretation over an abstract file system", "All exits of all exported functions, including those after a failure of any modelled step." + COMMON),
 "C13": ("effect analysis over an abstract file system", "All writes on all paths of all exported functions; the drivers' operations are interpreted against abstract SQLite and libpq models and must not write to a database they only read." + COMMON),
 "C24": ("path-sensitive ordering analysis of rebasing, and abstract interpretation of the discovery of triggers and foreign keys", "All paths of the operation; for the discovery, databases with triggers of every GeoPackage and near-miss name and every form of foreign key on the listed table layouts." + COMMON),
 "C25": ("provenance analysis: interpretation over files whose contents are terms", "The final content on all successful paths of all exported functions is compared with the documented combination of the inputs; the single steps (compare, apply, invert, rebase functions) are uninterpreted here and covered by C01-C07, C16-C23." + COMMON),
 "C03": ("bit-level abstract interpretation with memory objects of exact size", "Every input of up to the listed shapes, with arbitrary bytes, partitioned by the branches taken; longer inputs repeat the same record code. Out-of-memory and string lengths beyond the scenario are excluded." + COMMON),
 "C04": ("bit-level abstract interpretation compared with a grammar of the format", "Every byte string of the listed shapes (arbitrary bytes, partitioned by branches) is compared with the documented grammar." + COMMON),
 "C05": ("bit-level abstract interpretation of the writer and reader against a reference encoder", "Each record kind and value type with symbolic contents; numbers of columns and tables as listed." + COMMON),
 "C30": ("bit-level abstract interpretation with heap objects", "Every pair of value kinds with symbolic contents; sequences of operations as listed." + COMMON),
 "C31": ("bit-level abstract interpretation", "All 32-bit lengths below 2^31 as symbolic bits; texts up to the listed lengths with symbolic bytes." + COMMON),
 "C27": ("abstract interpretation of the tool's main function", "Every documented command, every number of arguments up to the documented one, every result of the library function; unknown commands by example." + COMMON),
 "C28": ("abstract interpretation of the logging path", "Every level, maximum, kind of environment variable and order of configuration." + COMMON),
 "C01": ("path-sensitive interpretation of apply against abstract SQLite and libpq models", "All paths of applying a changeset of the listed shapes (every sequence of entry kinds over the tables listed, every failing step); databases are abstract stores of row states; for longer changesets the same loop repeats." + COMMON),
 "C02": ("path-sensitive interpretation of apply against abstract SQLite and libpq models", "All paths over the listed changeset shapes, each statement matching no row, one row or failing." + COMMON),
 "C07": ("abstract interpretation of the inverter with symbolic values", "Every entry kind and every pattern of present and absent values over the listed tables." + COMMON),
 "C11": ("ownership and typestate analysis by interpretation against abstract SQLite, libpq and heap models", "Every operation of both drivers and every function of the C interface, with each failing step; memory owned by library containers is modelled." + COMMON),
 "C14": ("taint analysis of SQL text with hostile names, decided by an SQL tokenizer", "Every SQL command issued by any driver operation in the scenarios, with names and texts that contain quotes and keywords; type names are not names and are taken raw." + COMMON),
 "C19": ("the WHERE and SET clauses that the code builds are parsed and evaluated symbolically against the rule", "Every pattern of keys, old and new values over the listed table shapes, both drivers; text comparison is exact (no collations)." + COMMON),
 "C20": ("typestate analysis by interpretation against an abstract SQLite model", "Every combination of up to two user triggers and GeoPackage triggers, each failing step." + COMMON),
 "C21": ("abstract interpretation with schemas that differ in one attribute", "Each attribute of a table and column that may differ, at each position, both drivers." + COMMON),
 "C22": ("abstract interpretation of rebasing with opaque values and representative keys", "Every combination of the actions of both sides on a row, sets of inserted keys up to four and five, several tables; keys only enter through equality and order. Text keys are identified by the library through a 32-bit hash, collisions of which are excluded." + COMMON),
 "C23": ("abstract interpretation of rebasing with opaque values and representative keys", "The scenarios of C22; which columns both sides changed is enumerated for up to three columns." + COMMON),
 "C06": ("abstract interpretation of the producers of changesets against abstract databases and changeset files", "Every combination of empty and non-empty query results over three tables and both drivers; inverting and rebasing over the listed sequences of entries." + COMMON),
 "C16": ("abstract interpretation of the comparison; the queries it issues are parsed and evaluated on small databases", "The query text of every comparison over the listed table layouts is evaluated on all pairs of databases of up to the listed number of rows over values chosen for the query's operators and literals; equality is the database's own comparison." + COMMON),
 "C17": ("provenance analysis: interpretation of the comparison with values that carry database, table, column and row", "Every row of every comparison query over the listed table layouts, up to two rows, with every relation of the values; PostgreSQL values are representatives of each type." + COMMON),
 "C18": ("type-flow analysis: interpretation of reading and writing with opaque SQLite values and representative PostgreSQL values", "SQLite: every type with opaque content, so any narrowing, cut or change of type is visible. PostgreSQL: every column type the driver lists and ten it does not, at the limits and special values of the type; other values of a type take the same path through the code, but that is not proved." + COMMON),
 "C15": ("abstract interpretation of the JSON producers; the output is parsed by a strict JSON parser", "Every combination of entry kind, side and value kind over short changesets; opaque numbers (finite or not); every byte below 128 and every short sequence of characters special to JSON as text and table name. Bytes that are not valid UTF-8 are excluded." + COMMON),
 "C35": ("interpretation over an abstract file system, with backward slices of the names of temporary files", "All temporary files of all exported functions; the slice is a may-dependence: it finds that a name depends on random numbers, not how many. Files beside a file named by the caller carry its name and are the caller's to keep apart." + COMMON),
 "C36": ("inventory of static storage with a mutation analysis, and a rule on process-wide calls", "Every variable with static storage duration and every occurrence of it; every call in the project. State inside SQLite, libpq and the C++ library is not seen." + COMMON),
 "C37": ("path-sensitive interpretation over an abstract file system with failing variants of every step", "All paths of all exported functions that return an error, with each string argument NULL and with all given; messages of drivers are exceptions, which the operations log. The default level and the callback are C28." + COMMON),
 "C38": ("lint over the calls that operations can reach, and abstract interpretation in an environment with a decimal comma", "Every reachable call of the C library's conversions that follow the locale; JSON, literals and read values for representatives of real numbers with a decimal comma. Other separators behave like the comma." + COMMON),
 "C34": ("abstract interpretation of reading schemas; the catalogue queries are parsed and evaluated on the scenario's catalogue", "Table layouts with keys, types, indexes, defaults, dropped columns, geometry columns of every type, both drivers, base and modified database." + COMMON),
 "C29": ("abstract interpretation of schema conversion and table creation; the executed statements are parsed", "All type names both drivers handle, three spellings each; all flat geometry types with Z and M; created tables with keys and geometry columns in several positions." + COMMON),
}
NA = {
 "C32": "Quantifies over the row contents and the SQL engine's evaluation: which rows a query returns and what SQLite or PostgreSQL stores is a runtime quantity no static argument over geodiff's source bounds. The parts that are visible in the source are claimed separately (C05, C16-C19, C21).",
 "C33": "Convergence of two databases depends on row contents and the SQL engine at run time; the source-level obligations behind it are claimed separately (C22, C23, C25).",
}
