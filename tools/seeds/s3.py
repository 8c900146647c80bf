SEEDS = []
S = "geodiff/src/"
API, CU, CH = S + "geodiff.cpp", S + "changesetutils.cpp", S + "changeset.h"
SQ, SU = S + "drivers/sqlitedriver.cpp", S + "drivers/sqliteutils.cpp"
PGD, RB = S + "drivers/postgresdriver.cpp", S + "geodiffrebase.cpp"
CR, CW = S + "changesetreader.cpp", S + "changesetwriter.cpp"
TS, LOG, GU = S + "tableschema.cpp", S + "geodifflogger.cpp", S + "geodiffutils.cpp"


def seed(id, prop, needs, breaks, edits, py, **k):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, py="\nfrom geolib import *\n" + py, **k))


VI = S + "changesetvarint.h"

seed("reader-byte-past-end", "C03", "a changeset file that ends right where the next byte is expected",
     "the byte behind the end of the loaded file is read",
     [(CR, "  if ( mOffset >= mBuffer->size() )\n    throwReaderError( \"readByte: at the end of buffer\" );", "  if ( mOffset > mBuffer->size() )\n    throwReaderError( \"readByte: at the end of buffer\" );")], '',
     sh='''NEED_CLI=1
SAN=address
. "$(dirname "$0")/lib.sh"
printf 'T\\002\\001\\000tableabc\\000\\022\\000\\001\\000\\000\\000\\000\\000\\000\\000\\001' > "$WORK/d"
ASAN_OPTIONS=detect_leaks=0:exitcode=77 timeout 60 "$T/geodiff" listChangesSummary "$WORK/d" "$WORK/o" > "$WORK/log" 2>&1
rc=$?
[ $rc -ne 77 ] && [ $rc -ne 134 ] && [ $rc -ne 139 ] || { echo "FAILED: rc $rc"; tail -5 "$WORK/log"; exit 1; }
exit 0
''')
seed("find-modified-or", "C16", "a table with a composite key, two rows of which share a part of the key",
     "rows that share a part of their key are compared with each other",
     [(SQ, '''      if ( !exprPk.empty() )
        exprPk += " AND ";
      exprPk += sqlitePrintf( "\\"%w\\".\\"%w\\".\\"%w\\"=\\"%w\\".\\"%w\\".\\"%w\\"",
                              "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
    }
    else // not''', '''      if ( !exprPk.empty() )
        exprPk += " OR ";
      exprPk += sqlitePrintf( "\\"%w\\".\\"%w\\".\\"%w\\"=\\"%w\\".\\"%w\\".\\"%w\\"",
                              "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
    }
    else // not''')], '''
a = db("a.db", "create table t(a int, b int, x int, primary key(a, b))", "insert into t values(1,1,2)", "insert into t values(1,2,3)")
m = copy(a, "m.db", "delete from t where b=2")
check(call("createChangeset", a, m, path("d")) == 0, "create")
check(call("changesCount", path("d")) == 1, "%d changes instead of 1" % call("changesCount", path("d")))
''')
seed("update-first-column", "C19", "a table whose first column is not its key, and is NULL",
     "the first column is compared with = when a row is updated, even if it is not part of the key",
     [(SQ, '''    if ( tbl.columns[i].isPrimaryKey )
      sql += sqlitePrintf( " \\"%w\\" = ?%d ",''', '''    if ( tbl.columns[i].isPrimaryKey || i == 0 )
      sql += sqlitePrintf( " \\"%w\\" = ?%d ",''')], '''
a = db("a.db", "create table t(x int, id integer primary key, y int)", "insert into t values(NULL,1,2)", "insert into t values(4,2,2)")
m = copy(a, "m.db", "update t set x=3 where id=1")
check(call("createChangeset", a, m, path("d")) == 0, "create")
check(call("applyChangeset", a, path("d")) == 0, "the update was refused")
check(rows(a, "select x from t where id=1") == [(3,)], "not updated")
''')
seed("invert-changed-key", "C07", "an update that changes a part of the key",
     "inverting an update keeps the old key even if the key was changed",
     [(CU, "        if ( currentPkeys[i] && out.oldValues[i].type() == Value::TypeUndefined )\n", "        if ( currentPkeys[i] )\n")], '''
I = lambda n: b"\\x01" + n.to_bytes(8, "big")
t = b"T\\x02\\x01\\x00tab\\x00"
d = t + b"\\x17\\x00" + I(1) + I(5) + I(2) + I(6)
open(path("d"), "wb").write(d)
check(call("invertChangeset", path("d"), path("i")) == 0, "invert")
check(open(path("i"), "rb").read() == t + b"\\x17\\x00" + I(2) + I(6) + I(1) + I(5), "inverted: %r" % open(path("i"), "rb").read())
''')
seed("conflict-null-theirs", "C23", "an edit of the other side that sets a value to NULL",
     "a value that the other side set to NULL is overwritten without being reported",
     [(RB, "void _addConflictItem( ConflictFeature &conflictFeature, int i,\n                       const Value &base, const Value &theirs, const Value &ours )\n{\n",
       "void _addConflictItem( ConflictFeature &conflictFeature, int i,\n                       const Value &base, const Value &theirs, const Value &ours )\n{\n  if ( theirs.type() == Value::TypeNull )\n    return;\n\n")], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
t = copy(a, "t.db", "update t set x=NULL")
m = copy(a, "m.db", "update t set x=3")
check(call("rebase", a, t, m, path("c")) == 0, "rebase")
check(os.path.exists(path("c")), "no conflict is reported")
''')
seed("second-renumbered-key", "C22", "two own inserts whose keys collide with keys given to renumbered inserts",
     "the next free key is not advanced after an insert was renumbered because of another renumbered one",
     [(RB, '''        mapping.addPkeyMapping( tableName, pk, it->second );
        usedNewPkeys.insert( it->second );

        // increase counter
        it->second ++;
''', '''        mapping.addPkeyMapping( tableName, pk, it->second );
        usedNewPkeys.insert( it->second );

        // increase counter
''')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
t = copy(a, "t.db", "insert into t values(2,100)", "insert into t values(3,101)")
m = copy(a, "m.db", "insert into t values(2,200)", "insert into t values(3,201)", "insert into t values(4,202)", "insert into t values(5,203)")
check(call("rebase", a, t, m, path("c")) == 0, "rebase")
check(sorted(x for x, in rows(m, "select x from t")) == [2, 100, 101, 200, 201, 202, 203], "rows: %s" % rows(m, "select * from t"))
''')
seed("trigger-percent", "C20", "a trigger whose text has a percent sign",
     "the text of a trigger is used as a format when it is restored",
     [(SQ, '    statament.prepare( mDb, "%s", cmd.c_str() );\n', '    statament.prepare( mDb, cmd.c_str() );\n')], '''
a = db("a.db", "create table t(id integer primary key, x text)", "insert into t values(1,'a')")
m = copy(a, "m.db", "update t set x='b'")
check(call("createChangeset", a, m, path("d")) == 0, "create")
T = "CREATE TRIGGER tr AFTER UPDATE ON t WHEN new.x LIKE 'a%c' BEGIN DELETE FROM t WHERE id=100; END"
o = copy(a, "o.db", T)
call("applyChangeset", o, path("d"))
check(rows(o, "select sql from sqlite_master where type='trigger'") == [(T,)], "the trigger is now %s" % rows(o, "select sql from sqlite_master where type='trigger'"))
''')
seed("release-failure-lost", "C10", "another process that reads the database while changes are committed",
     "a failure to make the changes permanent is reported as success",
     [(SQ, '''      if ( sqlite3_exec( mDb.get()->get(), "RELEASE changeset_apply", 0, 0, 0 ) != SQLITE_OK )
        throw GeoDiffException( "Failed to release savepoint" );
''', '''      sqlite3_exec( mDb.get()->get(), "RELEASE changeset_apply", 0, 0, 0 );
''')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
m = copy(a, "m.db", "update t set x=3")
check(call("createChangeset", a, m, path("d")) == 0, "create")
o = copy(a, "o.db")
c = sqlite3.connect(o)
c.execute("begin")
c.execute("select * from t").fetchall()
r = call("applyChangeset", o, path("d"))
c.close()
check(r != 0 or rows(o, "select x from t") == [(3,)], "success is reported but nothing was changed")
''')
seed("attach-path-unquoted", "C14", "a base file whose path has an apostrophe",
     "the path of the base file is put into the ATTACH statement without doubling apostrophes",
     [(SQ, "sqlBuf.printf( \"ATTACH '%q' AS aux\", base.c_str() );", "sqlBuf.printf( \"ATTACH '%s' AS aux\", base.c_str() );")], '''
a = db("it's a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
m = copy(a, "m.db", "update t set x=3")
check(call("createChangeset", a, m, path("d")) == 0, "databases cannot be compared")
''')
seed("tmpfile-after-compare", "C12", "comparing the databases fails while a rebased changeset is created",
     "the temporary changeset is only looked after once it has been created successfully",
     [(API, '''    TmpFile changeset_BASE_MODIFIED( std::string( changeset ) + "_BASE_MODIFIED" );
    int rc = GEODIFF_createChangeset( base, modified, changeset_BASE_MODIFIED.c_path() );
    if ( rc != GEODIFF_SUCCESS )
      return rc;
''', '''    std::string path_BASE_MODIFIED = std::string( changeset ) + "_BASE_MODIFIED";
    int rc = GEODIFF_createChangeset( base, modified, path_BASE_MODIFIED.c_str() );
    if ( rc != GEODIFF_SUCCESS )
      return rc;
    TmpFile changeset_BASE_MODIFIED( path_BASE_MODIFIED );
''')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
m = copy(a, "m.db", "alter table t add column y int")
t = copy(a, "t.db", "update t set x=3")
check(call("createChangeset", a, t, path("their")) == 0, "create")
before = sorted(os.listdir(W)) + ["d"]
check(call("createRebasedChangeset", a, m, path("their"), path("d"), path("c")) != 0, "different schemas accepted")
left = [f for f in os.listdir(W) if f not in before]
check(not left, "left behind: %s" % left)
''')
seed("zero-columns", "C04", "a table record with no columns",
     "table records without columns are accepted",
     [(CR, "nCol < 1 ||", "nCol < 0 ||")], '''
open(path("d"), "wb").write(b"T\\x00tab\\x00")
check(call("changesCount", path("d")) == -1, "accepted: %d changes" % call("changesCount", path("d")))
''')
seed("pg-srid-high", "C18", "PostgreSQL, geometries whose CRS number is above 65535",
     "the third byte of the CRS number of geometries is lost",
     [(PGD, "      outBinString[6] = 0xff & ( col.geomSrsId >> 16 );\n", "      outBinString[6] = 0;\n")], '''
def h(sql):
    if "indisprimary" in sql:
        return [["id", "integer", "t", "t", "f"], ["g", "geometry(Point,900913)", "f", "f", "f"]]
    if "geometry_columns" in sql:
        return [["g", "POINT", "900913", "2"]]
    if "spatial_ref_sys" in sql:
        return [["EPSG", "900913", "wkt"]]
    if "pg_tables" in sql:
        return [["t"]]
    if "pg_namespace" in sql:
        return [["1"]]
    if "ST_AsBinary" in sql:
        return [["1", "\\\\x0102"]]
    if sql.lower().startswith("select"):
        return []
    return None


pg(h)
check(call("dumpData", "postgres", "x", "s", path("d")) == 0, "dump")
check(b"GP\\x00\\x01" + (900913).to_bytes(4, "little") + b"\\x01\\x02" in open(path("d"), "rb").read(), "CRS number lost")
''')
seed("pg-dump-first-table", "C06", "PostgreSQL, dumping several tables",
     "dumping a PostgreSQL schema writes the header of the first table only",
 [(PGD, '''      if ( r == 0 )
      {''', '''      if ( r == 0 && &tableName == &tables.front() )
      {''')], '''
def h(sql):
    if "indisprimary" in sql:
        return [["id", "integer", "t", "t", "f"]]
    if "geometry_columns" in sql:
        return []
    if "pg_tables" in sql:
        return [["t"], ["u"]]
    if "pg_namespace" in sql:
        return [["1"]]
    if sql.lower().startswith("select"):
        return [["1"]]
    return None


pg(h)
check(call("dumpData", "postgres", "x", "s", path("d")) == 0, "dump")
d = open(path("d"), "rb").read()
check(b"t\\x00" in d and b"u\\x00" in d, "tables missing: %r" % d)
''')
seed("log-empty-env", "C28", "the environment variable for the level is set to the highest level",
     "the highest level cannot be chosen in the environment",
     [(LOG, "  if ( envLevel >= 0 && envLevel <= GEODIFF_LoggerLevel::LevelDebug )", "  if ( envLevel >= 0 && envLevel < GEODIFF_LoggerLevel::LevelDebug )")], '',
     sh='''. "$(dirname "$0")/lib.sh"
export GEODIFF_LOGGER_LEVEL=4
timeout 60 python3 "$D/demo.py"
''')
SEEDS[-1]["py"] = '''
from geolib import *
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
m = copy(a, "m.db", "update t set x=3")
t = copy(a, "t.db", "insert into t values(7,7)")
call("rebase", a, t, m, path("c"))
check(any(l == 4 for l, x in LOG), "no debug message arrived: %s" % LOG)
'''
seed("rebase-copies-theirs", "C25", "a rebased changeset of an unmodified database",
     "without own changes the rebased changeset is a copy of the other side's",
     [(RB, '''(empty base2modified) --\\n" );
    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );''', '''(empty base2modified) --\\n" );
    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_THEIRS );''')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
t = copy(a, "t.db", "update t set x=3")
m = copy(a, "m.db")
check(call("createChangeset", a, t, path("their")) == 0, "create")
check(call("createRebasedChangeset", a, m, path("their"), path("d"), path("c")) == 0, "rebase")
check(call("changesCount", path("d")) == 0, "%d changes instead of none" % call("changesCount", path("d")))
''')
