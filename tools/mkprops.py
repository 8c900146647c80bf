#!/usr/bin/env python3
"""writes properties.jsonl (the list is kept here so that it can be edited)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


S = "geodiff/src/"
SQ, PG = S + "drivers/sqlitedriver.cpp", S + "drivers/postgresdriver.cpp"
SU, PU = S + "drivers/sqliteutils.cpp", S + "drivers/postgresutils.cpp"
API, RB = S + "geodiff.cpp", S + "geodiffrebase.cpp"
RD, WR, CU = S + "changesetreader.cpp", S + "changesetwriter.cpp", S + "changesetutils.cpp"
GU = S + "geodiffutils.cpp"

p("C01", "Applying a changeset is all-or-nothing",
  "Applying a changeset to a SQLite/GeoPackage file or to a PostgreSQL schema either succeeds and makes the changes permanent, or reports an error and leaves the database's contents exactly as they were. Every modification made while applying happens inside one transaction, which is committed on success only, after the last modification, and rolled back on every failing path, whatever fails and wherever; sequences, whose changes a rollback does not undo, are left alone when a changeset is refused.",
  ["inputs", "fault_sequences"], "every changeset, every target database and every failing call or conflict during the apply",
  "Tests apply a few good changesets and one conflicting one; the failure can strike at any call on any path.",
  [SQ, PG, API], [("SQLite apply and its savepoint", SQ + ": applyChangeset, Sqlite3SavepointTransaction"), ("PostgreSQL apply and its transaction", PG + ": applyChangeset, PostgresTransaction")])

p("C02", "Apply succeeds only if every change took effect",
  "When applying a changeset succeeds, every entry of the changeset (for PostgreSQL: except entries of the GeoPackage metadata tables, whose names start with gpkg_) was executed exactly once, by a statement of the entry's own kind (insert, update or delete) for the entry's own table. If for any entry the statement failed, or an update or delete matched no row, or an insert added none, the call returns an error.",
  ["inputs", "histories", "fault_sequences"], "every sequence of changeset entries and every combination of database states and statement failures",
  "The tests' changesets apply cleanly; a conflict or a failing statement at an arbitrary entry is not sampled.",
  [SQ, PG], [("entry loop of the SQLite driver", SQ + ": applyChangeset"), ("entry loop of the PostgreSQL driver", PG + ": applyChangeset, execSql callers")])

p("C03", "Reading any changeset bytes stays inside the file's data",
  "Whatever bytes a changeset file contains (truncated, corrupted or hostile), reading it never accesses memory outside the bytes that were loaded: every header, value, varint and string read is preceded by a check that enough bytes remain, and lengths taken from the file are validated before they are used.",
  ["inputs"], "all byte strings given as a changeset file",
  "Tests read well-formed files and a handful of broken ones; the space of byte strings is unbounded and an over-read is usually silent.",
  [RD, S + "geodiffutils.hpp"], [("changeset reader", RD + ": readByte, readVarint, readNullTerminatedString, readRowValues")])

p("C04", "Malformed changesets are rejected, never silently misread",
  "A changeset is read to its end only if it consists of table headers and insert, update and delete entries of the documented format: an unknown record type, an unknown value type, an entry before any table header, or data that ends in the middle of a record makes reading fail with an error. It is never treated as the end of the data or skipped over.",
  ["inputs"], "all byte strings given as a changeset file",
  "Tests hold a few invalid files, not one per position and per byte value.",
  [RD, API], [("record dispatch and value decoding", RD + ": nextEntry, readTableRecord, readRowValues")])

p("C05", "Writer, reader and documentation agree on the changeset format",
  "What the changeset writer emits for each record (table header, insert, update and delete entries and every value type) is exactly what the documented format prescribes, byte for byte: markers, order of fields, widths, byte order and length prefixes. The reader decodes exactly that layout into the same operation, flags and values, for every table and every value.",
  ["inputs"], "all tables, operations and values of every type",
  "Round-trip tests sample some values and would not notice a change made to writer and reader alike, which breaks every stored changeset.",
  [WR, RD, "docs/changeset-format.md", S + "geodiffutils.hpp"], [("writer", WR + ": beginTable, writeEntry, writeRowValues"), ("reader", RD + ": nextEntry, readTableRecord, readRowValues")])

p("C06", "Every entry is written after the header of its own table",
  "In every changeset that is produced (by comparing, dumping, inverting or rebasing, from any driver), the entries of a table directly follow a header of that same table, describing all of its columns in order with their primary-key flags. No entry is written before a header or under another table's header, and every written entry carries the values its operation requires: new for inserts, old for deletes, both for updates, one per column.",
  ["inputs", "histories"], "all databases and changesets with any interleaving of tables",
  "Tests check single-table outputs; which table header is current depends on the sequence of tables and entries.",
  [SQ, PG, CU, RB, S + "driver.cpp"], [("comparison and dump", SQ + "/" + PG + ": handleInserted, handleUpdated, dumpData"), ("inversion", CU + ": invertChangeset"), ("rebase output", RB + ": _prepare_new_changeset"), ("header from schema", CU + ": schemaToChangesetTable")])

p("C07", "Inverting a changeset turns each entry into its exact opposite",
  "The inverse of a changeset contains, for each entry and in the table it belongs to, exactly one entry: an insert becomes a delete of the same values, a delete becomes an insert of the same values, and an update swaps old and new values. In an inverted update the primary key columns that the update did not change keep their value on the old side and stay absent on the new side, so that the row can still be found.",
  ["inputs"], "all changesets, all column layouts and all combinations of absent, null and present values",
  "The tests invert a few changesets; the rule must hold per column and for any position of the key columns.",
  [CU], [("inversion", CU + ": invertChangeset")])

p("C08", "No C++ exception crosses the C interface",
  "Every function of the C interface reports failure through its return value: no C++ exception, of any type, thrown anywhere below it escapes to the (C or Python) caller, and no exception is thrown out of a destructor or another place where it would terminate the process. This holds for every failure other than running out of memory, including malformed input, missing files and database errors.",
  ["inputs", "fault_sequences"], "all calls and all failures in the functions they reach",
  "Tests trigger few of the throwing sites through few of the entry points.",
  [API, S + "geodiff.h"], [("C interface", API + ": GEODIFF_*"), ("exception type", S + "geodiffutils.hpp: GeoDiffException")])

p("C09", "NULL arguments are refused with an error code",
  "Passing NULL for any argument of a C interface function, other than the optional driver extra info and the logger callback, makes the function return its error code. It does so without dereferencing the pointer and before any file or database is created, changed or removed.",
  ["inputs"], "every function and every combination of NULL arguments",
  "Tests call some functions with all arguments NULL, not each argument on its own.",
  [API], [("argument checks", API + ": GEODIFF_*")])

p("C10", "Failures below are never reported as success",
  "If opening, reading or writing a file, or preparing, running or stepping through a database statement fails during an operation, the operation does not report success: failure results of the storage layers are checked and turned into an error. In particular, an error in the middle of fetching rows is not mistaken for the last row, and output that could not be completely written is not reported as written.",
  ["fault_sequences", "inputs"], "every fallible call on every path, failing at any time",
  "Tests run on a healthy disk and database; no test makes an individual call fail.",
  [SQ, PG, SU, PU, WR, RD, GU, API], [("statement stepping", SQ + ", " + SU), ("file output", WR + ", " + GU + ": flushString, filecopy; " + SU + ": Buffer::write")])

p("C11", "Resources are released exactly once on every path",
  "Every database connection, prepared statement, result set, change group, copied value, file handle and memory buffer acquired by the library is released on every path that leaves the operation, including error paths, and is never released twice or used after its release.",
  ["fault_sequences", "inputs"], "every path through the library, with a failure at any call",
  "Leaks on error paths are invisible to tests that check results, and error paths are rarely run.",
  [SU, PU, SQ, PG, CU, GU], [("wrappers", SU + ": Sqlite3Db, Sqlite3Stmt, Sqlite3Value, Buffer"), ("results", PU + ": PostgresResult"), ("concatenation", SU + ": concatChangesets")])

p("C12", "Temporary files never outlive the operation",
  "Every temporary file an operation creates (intermediate changesets of rebase, copy and rebased-changeset creation) has been removed when the operation returns, on success and on every failure, and temporary files are never the caller's own files.",
  ["fault_sequences", "inputs"], "every path of the operations that use intermediate files",
  "Tests do not look for leftovers, least of all after failures.",
  [API, GU, S + "geodiffutils.hpp", RB], [("temporary file guard", GU + ": TmpFile"), ("users", API + ": GEODIFF_rebase, GEODIFF_rebaseEx, GEODIFF_makeCopy, GEODIFF_createRebasedChangeset")])

p("C13", "Operations only write the files they are asked to write",
  "An operation writes, creates or removes only the outputs named by its arguments (the changeset, inverted or rebased changeset, JSON or conflict file, the copy, or the database that is being modified) and its own temporary files. Its inputs (base and modified databases of a comparison, changesets to read, the copy's source) are never written to, overwritten or removed.",
  ["inputs", "fault_sequences"], "all argument values and all paths, including those for empty changesets and errors",
  "Tests compare outputs and do not check that inputs survive, in particular in the special cases.",
  [API, RB, SQ, PG, GU], [("C interface", API + ": GEODIFF_*"), ("rebase special cases", RB + ": rebase"), ("file helpers", GU + ": filecopy, fileremove, flushString")])

p("C14", "Names and values are always quoted in SQL",
  "Whatever characters table, column, schema, file and trigger names and text values contain (quotes, spaces, keywords), each of them enters an SQL command only as a correctly quoted and escaped identifier or literal. Hence the command keeps its intended structure and refers to exactly the intended object.",
  ["inputs"], "all names and values in databases and changesets",
  "Tests use plain names.",
  [SQ, PG, SU, PU], [("SQL generation", SQ + ", " + PG + ": sqlFor*, sqlFind*, tableSchema, createTables, dumpData"), ("quoting helpers", PU + ": quotedIdentifier, quotedString")])

p("C15", "JSON output is always well formed",
  "The JSON produced for a changeset listing, a summary or a conflict file is syntactically valid JSON for every input, including empty ones. Text that comes from the data (table names, values, names in conflicts) is escaped, so that quotes, backslashes and control characters cannot break it. A JSON reader gets back every entry in order with its table, kind, columns and values (blobs in base64, reals rounded), the number of inserts, updates and deletes of each table, or the conflicts with their columns and values.",
  ["inputs"], "all changesets and conflicts, with any number of tables, entries, columns and any text",
  "Tests compare a few fixed files without special characters.",
  [CU, RB, GU], [("changeset listing", CU + ": changesetToJSON, changesetToJSONSummary, changesetEntryToJSON"), ("conflicts", GU + ": conflictsToJSON")])

p("C16", "Comparison queries find every difference and nothing else",
  "For each table with a primary key, comparing two databases selects as inserted exactly the rows whose key is only in the modified one, as deleted exactly those whose key is only in the base, and as updated exactly the rows present in both in which some non-key column differs according to the database's own comparison of values, where NULL differs from every value and equals NULL. A row with NULL in its key (which SQLite allows) has no key: it is the same as a row of the other database only if all columns are. Dumping a database selects every row of every such table once. Tables that the database or GeoPackage maintains themselves (sqlite_sequence, rtree_*, gpkg_ogr_contents and the like) are left out. This holds for SQLite and PostgreSQL, every number and position of key columns, and tables consisting of key columns only.",
  ["inputs"], "all table layouts and all combinations of NULL, equal and different values",
  "Tests compare a few tables; NULL transitions and key-only tables are not covered, PostgreSQL is not tested at all.",
  [SQ, PG], [("queries of the SQLite driver", SQ + ": sqlFindInserted, sqlFindModified"), ("queries of the PostgreSQL driver", PG + ": sqlFindInserted, sqlFindModified")])

p("C17", "Difference entries carry exactly the right values per column",
  "An insert entry carries the modified row's value for every column and a delete entry the base row's. In an update entry a changed column carries base and modified value on the old and new side, an unchanged key column carries its value on the old side only, and an unchanged other column is absent on both sides; each value is taken from the right database, row and column. Generated columns, which cannot be written, are not part of entries (SQLite).",
  ["inputs"], "all table layouts and row contents, in both drivers",
  "Tests check a few rows; swapping sides or columns can stay unnoticed when values coincide.",
  [SQ, PG], [("SQLite", SQ + ": handleInserted, handleUpdated, dumpData"), ("PostgreSQL", PG + ": handleInserted, handleUpdated, dumpData")])

p("C18", "Values keep their type and content between database and changeset",
  "NULL, integer, real, text and blob values are converted between the database and the changeset by type-preserving operations in full width: 64-bit integers and doubles are never narrowed or shortened, texts and blobs are taken with their length, including embedded zero bytes, and a value of an unknown kind is an error, not another value. For PostgreSQL, a column of a type the driver does not know gives an error, timestamps keep their fraction of a second, and a geometry is written without its GeoPackage header, whatever envelope that has.",
  ["inputs"], "all values of all types",
  "Tests sample small values of some types.",
  [SQ, PG, S + "geodiffutils.hpp"], [("SQLite", SQ + ": changesetValue, bindValue, valuesEqual"), ("PostgreSQL", PG + ": resultToValue, valueToSql"), ("value type", S + "changeset.h: Value")])

p("C19", "Update and delete only touch the row that still has the old values",
  "When a change is applied, an update or delete statement can only match the row whose primary key and whose recorded old values are equal to those of the entry (NULL matching NULL). An update assigns exactly the columns present on the entry's new side with their new values, and an insert sets every column to the entry's value for that column.",
  ["inputs"], "all table layouts and all combinations of absent, null and present values, in both drivers",
  "Tests apply few changes to rows that match; a condition that is missing for some column or a wrong position shows only with particular data.",
  [SQ, PG], [("SQLite", SQ + ": sqlForInsert, sqlForUpdate, sqlForDelete, bindings in applyChangeset"), ("PostgreSQL", PG + ": sqlForInsert, sqlForUpdate, sqlForDelete")])

p("C20", "Triggers survive applying a changeset",
  "Applying a changeset to a SQLite database removes for its duration every trigger that is not part of the GeoPackage machinery, so that triggers do not alter the changes, and restores each of them with its original definition before the changes are committed. If a trigger cannot be removed or restored, applying fails and nothing changes.",
  ["inputs", "fault_sequences"], "all sets of triggers with any names, and failures of each statement",
  "The tests' databases have simple trigger names and no failing statement.",
  [SQ, SU], [("trigger handling", SQ + ": applyChangeset"), ("trigger discovery", SU + ": sqliteTriggers")])

p("C21", "Only compatible tables are compared or changed",
  "Comparing two databases fails unless both have the same tables and each table has the same columns (names, types, keys, not-null and geometry attributes, CRS). Applying a changeset changes a table only if it exists and its number of columns and its primary key columns are those of the changeset's header that governs the entry; otherwise it fails.",
  ["inputs", "histories"], "all pairs of schemas and all changesets, including repeated headers for one table",
  "Tests contain one or two schema mismatches.",
  [SQ, PG, S + "tableschema.cpp", S + "tableschema.h"], [("gates", SQ + "/" + PG + ": createChangeset, applyChangeset"), ("schema equality", S + "tableschema.h: operator==")])

p("C34", "Table schemas are read as the database has them",
  "Listing the tables of a database gives every user table of the chosen schema (base or modified) exactly once, without views, virtual tables and the internal tables of SQLite and GeoPackage bookkeeping. Reading the schema of a table gives each of its columns exactly once and in order, however many indexes, defaults or dropped columns the table has, each with its own name, declared type, primary key membership, not-null constraint, auto-increment and geometry attributes (flat type, CRS, Z and M), and the CRS definition its geometry column refers to.",
  ["inputs"], "all schemas: names, types, keys, indexes, geometry types, base and modified database",
  "Tests read three GeoPackage layers; the PostgreSQL driver is not tested at all without a server.",
  [SQ, PG], [("SQLite", SQ + ": listTables, tableSchema"), ("PostgreSQL", PG + ": listTables, tableSchema, extractGeometryTypeDetails")])

p("C22", "Rebase keeps every own change and renumbers only colliding keys",
  "Rebasing keeps each insert, update and delete of the own changeset in its table with its column values, except that an update or delete of a row that the other side deleted is dropped. An own insert whose integer key the other side also inserted gets a new key, and so does one whose key a renumbered insert took over; the new keys are used by no insert of the other side and by no other own insert. All other keys stay as they are. When the other side updated the same row, the old values of own updates and deletes become the other side's new values.",
  ["inputs", "histories"], "all pairs of changesets",
  "The rebase tests cover single combinations of two edits on small tables.",
  [RB], [("mapping", RB + ": _parse_old_changeset, _find_mapping_for_new_changeset, RebaseMapping"), ("entries", RB + ": _handle_insert, _handle_update, _handle_delete, _prepare_new_changeset")])

p("C23", "Every overwritten edit of the other side is reported as a conflict",
  "Whenever both sides changed the same column of the same row and the rebased changeset overwrites the other side's value, the conflict report contains that table, row key and column with the base, their and own value; a column that only one side changed is never reported. The modification time of the GeoPackage contents table, which the library maintains itself, is exempt. The conflict file is written exactly if there is at least one conflict.",
  ["inputs"], "all pairs of changesets",
  "Tests cover single conflicts of fixed values.",
  [RB, API, GU], [("detection", RB + ": _handle_update, _addConflictItem"), ("output", API + ": GEODIFF_createRebasedChangesetEx")])

p("C24", "Rebase refuses databases with foreign keys or unknown triggers",
  "Creating a rebased changeset from databases stops with an error, before any output is produced, if the modified database has foreign keys in any of its layer tables or triggers that are not part of the GeoPackage machinery.",
  ["inputs"], "all databases",
  "Tests contain one example of each.",
  [API, SQ, SU], [("gate", API + ": GEODIFF_createRebasedChangeset"), ("check", SQ + ": checkCompatibleForRebase"), ("discovery", SU + ": sqliteTriggers, sqliteForeignKeys")])

p("C25", "Every multi-step operation passes the right data from step to step",
  "Rebasing a database, creating a rebased changeset and copying between drivers run their steps in the documented order on the right files: compare base with modified, rebase that onto the other side's changeset, undo the own changes, apply theirs, then the rebased ones, and fail as soon as a step fails. With nothing changed on the other side the modified database stays as it is, and with no own changes the other side's changeset is applied directly. After a successful run the conflict file holds the conflicts of that run or does not exist.",
  ["inputs", "fault_sequences"], "all inputs and a failure at each step",
  "Tests cover the regular path; swapped arguments in special cases and failing steps are not exercised.",
  [API, RB], [("orchestration", API + ": GEODIFF_rebaseEx, GEODIFF_createRebasedChangeset, GEODIFF_makeCopy"), ("special cases", RB + ": rebase")])

p("C26", "The Python module calls the C interface with the right types",
  "Every function the Python module calls exists in the C interface and is called with as many arguments, of the same kinds and in the same order, as the C declaration has, every declared argument and result type matches, and a result that signals an error is turned into an exception.",
  ["programs", "inputs"], "every foreign call in the module",
  "A mismatch in argument count or kind is undefined behaviour that often works by luck on one platform.",
  ["pygeodiff/geodifflib.py", "pygeodiff/main.py", S + "geodiff.h"], [("foreign calls", "pygeodiff/geodifflib.py"), ("declarations", S + "geodiff.h")])

p("C27", "The command line tool runs the requested command with its arguments",
  "Each documented command of the command line tool calls the corresponding library function exactly once with the command's arguments in the documented order. The exit status is success only if that call succeeded, and too few arguments or an unknown command exits with an error without calling the library.",
  ["inputs"], "all argument vectors",
  "No test runs the command line tool with each command and each wrong argument count.",
  [S + "geodiffinfo.cpp", "README.md"], [("command dispatch", S + "geodiffinfo.cpp: main")])

p("C28", "Log messages respect the maximum level and reach the callback",
  "A log message is delivered to the configured callback exactly once, with its own level and text, if and only if a callback is set and the message's level does not exceed the maximum level (errors 1, warnings 2, information 3, debug 4). Without configuration errors are still reported.",
  ["inputs", "configurations"], "all levels and configurations",
  "Tests set one level and look at a few messages.",
  [S + "geodifflogger.cpp", S + "geodifflogger.hpp"], [("logger", S + "geodifflogger.cpp")])

p("C29", "Copied tables get the same schema in the target",
  "Converting a table schema for a copy between drivers maps each column type that the source driver reads to a type of the same kind (integer, floating point, boolean, text, binary, date and time, geometry) that the target driver reads and writes; SQLite type names in any letter case, and a type name outside the documented ones becomes text. A geometry column becomes a geometry column of the same type, CRS and Z/M. Names, order, primary key, not-null, auto-increment and geometry attributes and the CRS are carried over, and nothing changes between equal drivers. Creating the tables then creates each given table exactly once with exactly these columns, types, not-null constraints and primary key (for PostgreSQL, auto-increment columns as serial and no GeoPackage tables), and registers in a GeoPackage each table, its geometry column with type, CRS, Z and M, and each CRS definition once.",
  ["inputs"], "all schemas: column types of both drivers, names, keys, constraints and geometry attributes",
  "Tests copy one schema.",
  [S + "tableschema.cpp", SQ, PG], [("conversion", S + "tableschema.cpp: tableSchemaConvert"), ("creation", SQ + "/" + PG + ": createTables"), ("GeoPackage tables", SQ + ": addGpkgCrsDefinition, addGpkgSpatialTable")])

p("C30", "Values behave as values",
  "A value reports the type it was given and returns the content it was given; copying or assigning it, including to itself, gives an independent equal value; two values are equal exactly if their types are equal and, for integers, doubles, texts and blobs, their contents are. Setting a new content releases the old one.",
  ["inputs", "histories"], "all sequences of operations on values",
  "Aliasing, double release and equality of particular type pairs show only for particular sequences.",
  [S + "changeset.h"], [("value type", S + "changeset.h: Value")])

p("C31", "Varint and text encodings are inverse to each other",
  "Encoding a length as a variable-length integer and decoding it gives the same number for every value below 2^31 (the range of lengths), encoding bytes as hexadecimal or base64 gives the standard text for every byte string, and decoding hexadecimal gives the bytes back.",
  ["inputs"], "all numbers and all byte strings",
  "Tests sample some values.",
  [S + "changesetvarint.h", GU, S + "3rdparty"], [("varint", S + "changesetvarint.h"), ("hex, base64", GU)])

p("C32", "Create then apply reproduces the modified database",
  "For any two databases with the same schema, applying the changeset created between base and modified to base gives a database equal to modified, and applying its inverse to modified gives back base.",
  ["inputs", "histories"], "all pairs of databases with equal schemas",
  "Tests cover a few fixed pairs.",
  [SQ, PG, CU], [("whole pipeline", "createChangeset, changeset writer and reader, applyChangeset, invertChangeset")])

p("C33", "Rebased results converge",
  "After a rebase, applying the other side's changeset and then the rebased changeset to the base gives exactly the final state of the rebased database, for any two concurrent edit histories that are reported without conflict.",
  ["inputs", "histories"], "all pairs of concurrent edit histories",
  "Tests cover single pairs of edits.",
  [RB, API], [("rebase", RB)])

p("C35", "Temporary files of concurrent operations do not collide",
  "Operations that run at the same time, in different processes or threads, on unrelated inputs do not disturb each other through their temporary files: the name of every temporary file that an operation creates in the shared folder for temporary files (not beside a file the caller named) depends on unpredictable random numbers, or on the process and a counter of the process, so that two concurrent operations do not pick the same names.",
  ["schedules"], "all operations running concurrently in any number of processes",
  "Tests run one operation at a time in one process.",
  [GU, API], [("names", GU), ("temporary files", API)])

p("C36", "An operation does not depend on the operations that ran before it",
  "The effect of an operation depends on its arguments, the files and databases they name, the environment and the settings of the log, and not on which operations ran before in the same process: no data of one call is remembered and used by a later call, no setting of the whole process (locale, working folder, environment, signal handlers, global SQLite configuration) is changed by an operation other than GEODIFF_init, and no operation ends the process.",
  ["histories"], "all sequences of operations in one process",
  "Tests run operations in one fixed order, each with its own inputs.",
  [S + "geodiff.cpp", GU, SQ, PG, RB, CU], [("all functions", S)])

p("C37", "Every failure is explained by an error message in the log",
  "Whenever an operation returns an error code, whatever step of it failed and whatever argument was refused, at least one message of level error has been given to the log during that operation; apart from the callback of the log, the library prints nothing to the standard streams.",
  ["faults", "inputs"], "all operations, all failing steps, all refused arguments",
  "Tests check return codes of a few failures and never look at the messages.",
  [API, RB, S + "geodifflogger.cpp"], [("error returns", API), ("rebase", RB)])

p("C38", "Results do not depend on the locale of the application",
  "Whatever locale the application has set for the process (decimal comma, other rules for upper and lower case letters), the operations give the same results: real numbers in JSON and in statements for PostgreSQL have a decimal point, texts of real numbers read from PostgreSQL keep their fraction, and names of column types are recognised in any combination of upper and lower case ASCII letters.",
  ["inputs", "configurations"], "all locales of the process",
  "Tests run in the default locale only.",
  [CU, PG, GU, S + "tableschema.cpp", SQ], [("JSON", CU), ("PostgreSQL literals", PG), ("lower case", GU)])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
