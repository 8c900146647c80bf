SEEDS = []
S = "geodiff/src/"
API, CU, CH = S + "geodiff.cpp", S + "changesetutils.cpp", S + "changeset.h"
SQ, SU = S + "drivers/sqlitedriver.cpp", S + "drivers/sqliteutils.cpp"
PGD, RB = S + "drivers/postgresdriver.cpp", S + "geodiffrebase.cpp"
CR, CW = S + "changesetreader.cpp", S + "changesetwriter.cpp"
TS, LOG, GU = S + "tableschema.cpp", S + "geodifflogger.cpp", S + "geodiffutils.cpp"


def seed(id, prop, needs, breaks, edits, py, **k):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, py="\nfrom geolib import *\n" + py, **k))


seed("triggers-outside-savepoint", "C20", "a database with a trigger of its own and a changeset that conflicts",
     "the triggers are removed before the savepoint is set, so that they stay removed when the changeset is refused",
     [(SQ, "  Sqlite3SavepointTransaction savepointTransaction( mDb );\n", ""),
      (SQ, "  int conflictCount = 0;\n  ChangesetEntry entry;\n", "  Sqlite3SavepointTransaction savepointTransaction( mDb );\n\n  int conflictCount = 0;\n  ChangesetEntry entry;\n")], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
m = copy(a, "m.db", "update t set x=3")
check(call("createChangeset", a, m, path("d")) == 0, "create")
o = copy(a, "o.db", "update t set x=7", "create trigger tr after update on t begin delete from t where id=100; end")
check(call("applyChangeset", o, path("d")) != 0, "conflicting change applied")
check(rows(o, "select name from sqlite_master where type='trigger'") == [("tr",)], "the trigger is gone")
''')
seed("savepoint-not-rolled-back", "C01", "a changeset whose later change conflicts",
     "a refused changeset releases the savepoint without rolling back to it",
     [(SQ, '        sqlite3_exec( mDb.get()->get(), "ROLLBACK TO changeset_apply", 0, 0, 0 );\n', "")], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)", "insert into t values(2,2)")
m = copy(a, "m.db", "update t set x=3")
check(call("createChangeset", a, m, path("d")) == 0, "create")
o = copy(a, "o.db", "update t set x=7 where id=2")
check(call("applyChangeset", o, path("d")) != 0, "conflicting change applied")
check(rows(o, "select * from t") == [(1, 2), (2, 7)], "the refused changeset was applied in part")
''')
seed("delete-nothing-uncounted", "C02", "a changeset with a delete whose row is not there any more",
     "a delete that removes nothing is only logged",
     [(SQ, '        logApplyConflict( "delete_nothing", entry );\n        ++conflictCount;\n', '        logApplyConflict( "delete_nothing", entry );\n')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)", "insert into t values(2,2)")
m = copy(a, "m.db", "delete from t where id=2")
check(call("createChangeset", a, m, path("d")) == 0, "create")
o = copy(a, "o.db", "update t set x=7 where id=2")
check(call("applyChangeset", o, path("d")) != 0, "a delete without effect is reported as applied")
''')
seed("unterminated-name", "C04", "a changeset file that ends in the middle of a table name",
     "a table name without its terminating zero at the end of the file is accepted",
     [(CR, "  if ( mOffset + count >= mBuffer->size() )\n", "  if ( mOffset + count > mBuffer->size() )\n")], '''
f = write("d", b"T\\x01\\x01tablename")
check(call("changesCount", f) == -1, "an unterminated table record is accepted")
check(call("listChanges", f, path("o")) != 0, "an unterminated table record is accepted by listChanges")
''')
seed("doubles-host-order", "C05", "a real number; reader and writer agree with each other",
     "reader and writer both leave out the conversion of real numbers to big endian",
     [(CW, "    double v = values[i].getDouble();\n      memcpy( &x, &v, 8 );\n      x = htobe64( x ); // convert host to big endian\n", "    double v = values[i].getDouble();\n      memcpy( &x, &v, 8 );\n"),
      (CR, "      mOffset += 8;\n      x = be64toh( x ); // convert big endian to host\n      memcpy( &v, &x, 8 );\n      values[i].setDouble( v );\n", "      mOffset += 8;\n      memcpy( &v, &x, 8 );\n      values[i].setDouble( v );\n")], '''
import struct
a = db("a.db", "create table t(id integer primary key, x double)", "insert into t values(1,2.5)")
m = copy(a, "m.db", "update t set x=3.25")
check(call("createChangeset", a, m, path("d")) == 0, "create")
check(struct.pack(">d", 3.25) in read(path("d")), "a real number is not stored in big endian")
check(call("applyChangeset", a, path("d")) == 0 and rows(a, "select x from t") == [(3.25,)], "applying it")
''')
seed("dump-header-once", "C06", "dumping a database with several tables that have rows",
     "dumping writes the header of the first table only",
     [(SQ, "  std::vector<std::string> tables = listTables( useModified );\n  for ( const std::string &tableName : tables )\n  {\n    TableSchema tbl = tableSchema( tableName, useModified );\n    if ( !tbl.hasPrimaryKey() )\n      continue;  // ignore tables without primary key - they can't be compared properly\n\n    bool first = true;\n",
           "  std::vector<std::string> tables = listTables( useModified );\n  bool first = true;\n  for ( const std::string &tableName : tables )\n  {\n    TableSchema tbl = tableSchema( tableName, useModified );\n    if ( !tbl.hasPrimaryKey() )\n      continue;  // ignore tables without primary key - they can't be compared properly\n\n")], '''
import json
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)", "create table u(id integer primary key, x int)", "insert into u values(1,2)")
check(call("dumpData", "sqlite", None, a, path("d")) == 0, "dump")
check(call("listChangesSummary", path("d"), path("s")) == 0, "summary")
t = [x["table"] for x in json.load(open(path("s")))["geodiff_summary"]]
check(t == ["t", "u"], "rows are attributed to %s" % t)
''', count=1)
seed("invert-last-key", "C07", "an update in a table whose key is the last column",
     "inverting an update does not put the key value back to the old side if the key is the last column",
     [(CU, "for ( size_t i = 0; i < currentPkeys.size(); ++i )", "for ( size_t i = 0; i + 1 < currentPkeys.size(); ++i )")], '''
a = db("a.db", "create table t(x int, y int, id integer primary key)", "insert into t values(2,3,1)")
m = copy(a, "m.db", "update t set x=3")
check(call("createChangeset", a, m, path("d")) == 0, "create")
check(call("invertChangeset", path("d"), path("i")) == 0, "invert")
check(call("createChangeset", m, a, path("r")) == 0, "create reverse")
check(read(path("i")) == read(path("r")), "the inverted changeset differs from the reverse one")
''')
seed("rebase-apply-failure-lost", "C10", "rebasing an unmodified database on changes that do not fit it",
     "a failure to apply the other side's changes to an unmodified database is reported as success",
     [(API, '        Logger::instance().error( "Unable to perform GEODIFF_applyChangeset base2theirs" );\n        return GEODIFF_ERROR;\n', '        Logger::instance().error( "Unable to perform GEODIFF_applyChangeset base2theirs" );\n')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
m = copy(a, "m.db", "update t set x=3")
check(call("createChangeset", a, m, path("d")) == 0, "create")
b1 = copy(a, "b1.db", "update t set x=9")
b2 = copy(b1, "b2.db")
check(call("rebaseEx", "sqlite", None, b1, b2, path("d"), path("c")) != 0, "rebase reports success, nothing has been applied")
''')
seed("prepare-leak", "C11", "an SQL statement that cannot be prepared, e.g. for a file that is no database",
     "the text of a statement that cannot be prepared is not freed",
     [(SU, "  sqlite3_free( zSql );\n  if ( rc )\n  {\n    throw GeoDiffException( \"SQL statement error: \" + std::string( sqlite3_errmsg( db ) ) );\n  }\n", "  if ( rc )\n  {\n    throw GeoDiffException( \"SQL statement error: \" + std::string( sqlite3_errmsg( db ) ) );\n  }\n  sqlite3_free( zSql );\n")], '''
s3 = ctypes.CDLL("libsqlite3.so.0")
s3.sqlite3_memory_used.restype = ctypes.c_int64
f = write("x.db", b"this is not a database " * 100)
call("dumpData", "sqlite", None, f, path("d"))
before = s3.sqlite3_memory_used()
for i in range(20):
    check(call("dumpData", "sqlite", None, f, path("d")) != 0, "dumped")
check(s3.sqlite3_memory_used() == before, "%d bytes are not freed" % (s3.sqlite3_memory_used() - before))
''')
seed("open-switches-journal", "C13", "any reading operation on a database in rollback journal mode",
     "opening a database switches it to write-ahead logging, which changes the file of a database that is only read",
     [(SQ, "    mDb->open( base );\n", "    mDb->open( base );\n    Buffer journal;\n    journal.printf( \"PRAGMA journal_mode = WAL\" );\n    mDb->exec( journal );\n")], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
x = read(a)
check(call("dumpData", "sqlite", None, a, path("d")) == 0, "dump")
check(read(a) == x, "dumping changed the database")
''')
seed("insert-column-quotes", "C14", "a column whose name contains a quote",
     "column names are put into INSERT statements without doubling quotes",
     [(SQ, '      sql += ", ";\n    sql += sqlitePrintf( "\\"%w\\"", tbl.columns[i].name.c_str() );\n  }\n  sql += ") VALUES (";', '      sql += ", ";\n    sql += "\\"" + tbl.columns[i].name + "\\"";\n  }\n  sql += ") VALUES (";')], '''
a = db("a.db", 'create table t(id integer primary key, "x""y" int)', "insert into t values(1,2)")
m = copy(a, "m.db", "insert into t values(2,3)")
check(call("createChangeset", a, m, path("d")) == 0, "create")
check(call("applyChangeset", a, path("d")) == 0, "a column name with a quote breaks applying")
check(rows(a, "select * from t") == [(1, 2), (2, 3)], "rows")
''')
seed("json-escape-order", "C15", "a text with a quote",
     "quotes are escaped before backslashes are, so that the backslash of an escaped quote is doubled",
     [(CU, "  val = replace( val, \"\\\"\", \"\\\\\\\"\" );\n", ""),
      (CU, "std::string escapeJSONString( std::string val )\n{\n", "std::string escapeJSONString( std::string val )\n{\n  val = replace( val, \"\\\"\", \"\\\\\\\"\" );\n")], '''
import json
a = db("a.db", "create table t(id integer primary key, x text)", "insert into t values(1,'a')")
m = copy(a, "m.db", """update t set x='say "hi" '""")
check(call("createChangeset", a, m, path("d")) == 0, "create")
check(call("listChanges", path("d"), path("j")) == 0, "list")
try:
    j = json.load(open(path("j")))
except ValueError as e:
    check(False, "invalid JSON: %s" % e)
check(j["geodiff"][0]["changes"][1]["new"] == 'say "hi" ', "value")
''')
seed("blob-prefix-equal", "C17", "an update that changes two columns, one of them a blob that is cut off",
     "a blob that is cut off counts as unchanged",
     [(SQ, "    if ( len1 != len2 )\n      return false;\n    return memcmp( sqlite3_value_blob( v1 ), sqlite3_value_blob( v2 ), len1 ) == 0;\n", "    return memcmp( sqlite3_value_blob( v1 ), sqlite3_value_blob( v2 ), std::min( len1, len2 ) ) == 0;\n")], '''
a = db("a.db", "create table t(id integer primary key, x blob, y int)", "insert into t values(1,x'0102',1)")
m = copy(a, "m.db", "update t set x=x'01', y=2")
check(call("createChangeset", a, m, path("d")) == 0, "create")
check(call("applyChangeset", a, path("d")) == 0, "apply")
check(rows(a, "select * from t") == [(1, b"\\x01", 2)], "the blob was not changed: %s" % rows(a, "select * from t"))
''')
seed("int-narrowed", "C18", "an integer beyond 32 bits",
     "integers are read from SQLite as 32-bit numbers",
     [(SQ, "x.setInt( sqlite3_value_int64( v ) );", "x.setInt( sqlite3_value_int( v ) );")], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
m = copy(a, "m.db", "update t set x=5000000000")
check(call("createChangeset", a, m, path("d")) == 0, "create")
check(call("applyChangeset", a, path("d")) == 0, "apply")
check(rows(a, "select * from t") == [(1, 5000000000)], "wrong value: %s" % rows(a, "select * from t"))
''')
seed("update-null-matches-all", "C19", "an update of a column that was NULL in the base and has got a value since",
     "an update whose old value is NULL overwrites any value",
     [(SQ, '''sqlitePrintf( " ( ?%d = 0 OR \\"%w\\" IS ?%d ) ", i * 3 + 2, tbl.columns[i].name.c_str(), i * 3 + 1 );''',
           '''sqlitePrintf( " ( ?%d = 0 OR coalesce( \\"%w\\" = ?%d, 1 ) ) ", i * 3 + 2, tbl.columns[i].name.c_str(), i * 3 + 1 );''')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,NULL)")
m = copy(a, "m.db", "update t set x=5")
check(call("createChangeset", a, m, path("d")) == 0, "create")
o = copy(a, "o.db", "update t set x=7")
check(call("applyChangeset", o, path("d")) != 0, "a value was overwritten by a change of NULL")
check(rows(o, "select * from t") == [(1, 7)], "row")
''')
seed("schema-ignores-notnull", "C21", "two databases that differ in a NOT NULL constraint only",
     "column definitions that differ in NOT NULL count as equal",
     [(S + "tableschema.h", "           isNotNull == other.isNotNull && isAutoIncrement == other.isAutoIncrement &&\n", "           isAutoIncrement == other.isAutoIncrement &&\n")], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
m = db("m.db", "create table t(id integer primary key, x int not null)", "insert into t values(1,3)")
check(call("createChangeset", a, m, path("d")) != 0, "tables with different definitions are compared")
''')
seed("renumbered-key-reused", "C22", "three own inserts: one collides, its new key collides with the second, whose new key is that of the third",
     "a key given to a renumbered insert is not remembered as used",
     [(RB, "        usedNewPkeys.insert( it->second );\n\n", "\n")], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,1)")
t = copy(a, "t.db", "insert into t values(4,40)")
m = copy(a, "m.db", "insert into t values(4,41)", "insert into t values(5,51)", "insert into t values(6,61)")
check(call("createChangeset", a, t, path("theirs")) == 0, "create")
check(call("createRebasedChangeset", a, m, path("theirs"), path("out"), path("conf")) == 0, "rebase")
check(call("applyChangeset", t, path("out")) == 0, "the rebased changeset cannot be applied")
check(sorted(x for _, x in rows(t, "select * from t")) == [1, 40, 41, 51, 61], "rows")
''')
seed("conflict-column-4", "C23", "a conflict in the fifth column of any table",
     "conflicts in the column with index 4 are left out for every table",
     [(RB, 'if ( ( conflictFeature.tableName() == "gpkg_contents" ) && ( i == 4 ) )', 'if ( ( conflictFeature.tableName() == "gpkg_contents" ) || ( i == 4 ) )')], '''
import json
a = db("a.db", "create table t(id integer primary key, a int, b int, c int, d int)", "insert into t values(1,1,1,1,1)")
t = copy(a, "t.db", "update t set d=2")
m = copy(a, "m.db", "update t set d=3")
check(call("createChangeset", a, t, path("theirs")) == 0, "create")
check(call("createRebasedChangeset", a, m, path("theirs"), path("out"), path("conf")) == 0, "rebase")
check(os.path.exists(path("conf")), "no conflict reported")
check([x["column"] for x in json.load(open(path("conf")))["geodiff"][0]["changes"]] == [4], "wrong conflict")
''')
seed("trigger-prefix", "C24", "a trigger of the user whose name begins with trigger_",
     "triggers whose names begin with trigger_ are taken for those of GeoPackage",
     [(SU, 'if ( startsWith( triggerName, "trigger_insert_feature_count_" ) )', 'if ( startsWith( triggerName, "trigger_" ) )')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "create trigger trigger_mine after update on t begin delete from t where id=100; end", "insert into t values(1,2)")
m = copy(a, "m.db", "insert into t values(2,3)")
t = copy(a, "t.db", "insert into t values(5,3)")
check(call("createChangeset", a, t, path("theirs")) == 0, "create")
check(call("createRebasedChangeset", a, m, path("theirs"), path("out"), path("conf")) != 0, "a database with a trigger is rebased")
''')
seed("python-rebase-order", "C26", "rebasing from Python",
     "the Python module passes their and own database to GEODIFF_rebase in the wrong order",
     [("pygeodiff/geodifflib.py", "        b_string2 = modified_their.encode('utf-8')\n        b_string3 = modified.encode('utf-8')\n        b_string4 = conflict.encode('utf-8')\n        res = func(b_string1, b_string2, b_string3, b_string4)\n", "        b_string2 = modified.encode('utf-8')\n        b_string3 = modified_their.encode('utf-8')\n        b_string4 = conflict.encode('utf-8')\n        res = func(b_string1, b_string2, b_string3, b_string4)\n")], '''
import re, sys, types
repo = os.getcwd()
sys.path.insert(0, repo)
pkg = types.ModuleType("pygeodiff")
pkg.__path__ = [repo + "/pygeodiff"]
sys.modules["pygeodiff"] = pkg
from pygeodiff import geodifflib
g = geodifflib.GeoDiffLib.__new__(geodifflib.GeoDiffLib)
g.lib = lib
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,1)")
t = copy(a, "t.db", "insert into t values(4,40)")
m = copy(a, "m.db", "insert into t values(5,51)")
g.rebase(a, t, m, path("conf"))
check(rows(m, "select x from t order by x") == [(1,), (40,), (51,)], "own database not rebased: %s" % rows(m, "select * from t"))
check(len(rows(t, "select x from t")) == 2, "the other database was changed")
''')
seed("cli-copy-swapped", "C27", "copying with the command line tool between different drivers or with driver info",
     "geodiff makeCopy passes driver info and name of the source in each other's place",
     [(S + "geodiffinfo.cpp", "GEODIFF_makeCopy( argv[2], argv[3], argv[4], argv[5], argv[6], argv[7] )", "GEODIFF_makeCopy( argv[3], argv[2], argv[4], argv[5], argv[6], argv[7] )")], '''
import subprocess
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,1)")
r = subprocess.run([os.environ["GEODIFF_LIB"].replace("libgeodiff.so", "geodiff"), "makeCopy", "sqlite", "nothing", path("none.db"), "sqlite", "nothing", path("b.db")], capture_output=True, text=True)
check("driver" not in r.stdout + r.stderr or "Missing" in r.stdout + r.stderr, "the copy failed with: " + r.stdout + r.stderr)
''', pre="NEED_CLI=1\n")
seed("log-below-maximum", "C28", "a message exactly at the maximum level",
     "messages of the maximum level itself are dropped",
     [(LOG, "if ( static_cast<int>( level ) <= static_cast<int>( maxLogLevel() ) )", "if ( static_cast<int>( level ) < static_cast<int>( maxLogLevel() ) )")], '''
call("setMaximumLoggerLevel", 1)
check(call("changesCount", path("none")) != 0, "counted")
check(any(l == 1 for l, m in LOG), "the error was not logged")
''')
seed("zm-lost", "C29", "copying a table with a geometry column that has both Z and M to PostgreSQL",
     "the M coordinate of columns with Z and M is lost in the type of the new column",
     [(TS, "      if ( col.geomHasM )\n", "      else if ( col.geomHasM )\n")], '''
a = db("a.db", "create table gpkg_contents(table_name text primary key)",
       "create table gpkg_spatial_ref_sys(srs_name text, srs_id integer primary key, organization text, organization_coordsys_id integer, definition text, description text)",
       "insert into gpkg_spatial_ref_sys values('w',4326,'EPSG',4326,'wkt','')",
       "create table gpkg_geometry_columns(table_name text primary key, column_name text, geometry_type_name text, srs_id integer, z int, m int)",
       "insert into gpkg_geometry_columns values('t','g','POINT',4326,1,1)",
       "create table t(id integer primary key, g POINT)")
seen = []
pg(lambda sql: seen.append(sql) or (None if not sql.lower().startswith("select") else [["0"]]))
call("makeCopy", "sqlite", None, a, "postgres", "x", "s")
c = [s for s in seen if "CREATE TABLE" in s and '"t"' in s]
check(c and "POINTZM" in c[0].upper(), "column created as: %s" % (c or seen[-3:]))
''')
seed("value-copy-cut", "C30", "copying a value with an embedded zero byte",
     "copying a value cuts it off at its first zero byte",
     [(CH, "        mVal.str = new std::string( *mVal.str ); // make a deep copy\n", "        mVal.str = new std::string( mVal.str->c_str() ); // make a deep copy\n")], '''
a = db("a.db", "create table t(id integer primary key, x blob)", "insert into t values(1,x'01')")
m = copy(a, "m.db", "update t set x=x'410042'")
check(call("createChangeset", a, m, path("d")) == 0, "create")
check(call("invertChangeset", path("d"), path("i")) == 0, "invert")
check(call("applyChangeset", m, path("i")) == 0, "the inverted changeset cannot be applied: a value was cut off")
check(rows(m, "select x from t") == [(b"\\x01",)], "value")
''')
seed("composite-key-schema", "C34", "a table with a composite key",
     "only the first column of a composite key is recognised as part of the key",
     [(SQ, "columnInfo.isPrimaryKey = sqlite3_column_int( statement.get(), 5 );", "columnInfo.isPrimaryKey = sqlite3_column_int( statement.get(), 5 ) == 1;")], '''
a = db("a.db", "create table t(a int, b int, x int, primary key(a, b))", "insert into t values(1,1,2)", "insert into t values(1,2,2)")
m = copy(a, "m.db", "update t set x=3 where b=2")
check(call("createChangeset", a, m, path("d")) == 0, "create")
check(call("changesCount", path("d")) == 1, "%d changes instead of 1" % call("changesCount", path("d")))
''')
seed("pg-update-nothing", "C02", "PostgreSQL, an update whose row is not there",
     "an update that changes no row is only logged with PostgreSQL",
     [(PGD, '        logApplyConflict( "update_nothing", entry );\n        ++conflictCount;\n', '        logApplyConflict( "update_nothing", entry );\n')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
m = copy(a, "m.db", "update t set x=3")
check(call("createChangeset", a, m, path("d")) == 0, "create")
seen = []


def h(sql):
    seen.append(sql)
    if sql.startswith("UPDATE"):
        return 0
    if "indisprimary" in sql:
        return [["id", "integer", "t", "t", "f"], ["x", "integer", "f", "f", "f"]]
    if "pg_namespace" in sql or "pg_catalog.pg_namespace" in sql or "schema_name" in sql:
        return [["s", "s"]]
    if sql.lower().startswith("select"):
        return []
    return None


pg(h)
r = call("applyChangesetEx", "postgres", "x", "s", path("d"))
check(any(s.startswith("UPDATE") for s in seen), "no update was tried: %s" % seen)
check(r != 0, "an update without effect is reported as applied")
''')
