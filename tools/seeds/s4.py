SEEDS = []
S = "geodiff/src/"
API, CU, CH = S + "geodiff.cpp", S + "changesetutils.cpp", S + "changeset.h"
SQ, SU = S + "drivers/sqlitedriver.cpp", S + "drivers/sqliteutils.cpp"
PGD, RB = S + "drivers/postgresdriver.cpp", S + "geodiffrebase.cpp"
CR, CW = S + "changesetreader.cpp", S + "changesetwriter.cpp"
TS, LOG, GU = S + "tableschema.cpp", S + "geodifflogger.cpp", S + "geodiffutils.cpp"


def seed(id, prop, needs, breaks, edits, py, **k):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, py="\nfrom geolib import *\n" + py, **k))


NAMES = '''
import re, subprocess, sys, time
if len(sys.argv) > 1:
    os.environ["TMPDIR"] = path("nowhere/")
    a, t, m = path("a.db"), path("t.db"), path("m.db")
    print(call("rebase", a, t, m, path("c" + sys.argv[1])))
    print(sorted({x for _, l in LOG for x in re.findall(r"nowhere/[A-Za-z0-9_.]+", l)}))
    sys.exit(0)
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
t = copy(a, "t.db", "insert into t values(7,7)")
m = copy(a, "m.db", "update t set x=3")
for i in range(5):
    ps = [subprocess.Popen([sys.executable, sys.argv[0], str(k)], stdout=subprocess.PIPE, text=True) for k in (1, 2)]
    out = [p.communicate()[0] for p in ps]
    names = [set(re.findall(r"nowhere/[A-Za-z0-9_.]+", o)) for o in out]
    check(all(names), "no name of a temporary file in the messages: %r" % out)
    check(not names[0] & names[1], "two processes use the same temporary files: %r" % (names[0] & names[1]))
'''
seed("tmp-name-time", "C35", "two rebases in different processes within the same second",
     "the temporary files of a rebase are named after the time, so that concurrent operations share them",
     [(API, 'std::string root = tmpdir() + "geodiff_" + randomString( 6 );', 'std::string root = tmpdir() + "geodiff_" + std::to_string( std::time( nullptr ) );'), (API, '#include <string>\n#include <vector>', '#include <string>\n#include <ctime>\n#include <vector>')], NAMES)
seed("tmp-name-fixed", "C35", "two rebases in different processes at the same time",
     "one of the temporary files of a rebase has the same name in every process",
     [(API, 'TmpFile base2modified( root + "_base2modified.bin" );', 'TmpFile base2modified( tmpdir() + "geodiff_base2modified.bin" );')], NAMES)
seed("insert-sql-cached", "C36", "two databases with tables of the same name but different columns in one process",
     "the statement for inserts is remembered by the name of the table only",
     [(SQ, '  std::string sql;\n  sql += sqlitePrintf( "INSERT INTO', '  static std::map<std::string, std::string> cache;\n  std::string &sql = cache[tableName];\n  if ( !sql.empty() )\n    return sql;\n  sql += sqlitePrintf( "INSERT INTO')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
a2 = copy(a, "a2.db", "insert into t values(5,6)")
c = db("c.db", "create table t(id integer primary key, y int, z int)", "insert into t values(1,2,3)")
c2 = copy(c, "c2.db", "insert into t values(5,6,7)")
check(call("createChangeset", a, a2, path("d1")) == 0, "create")
check(call("createChangeset", c, c2, path("d2")) == 0, "create")
check(call("applyChangeset", a, path("d1")) == 0, "apply")
r = call("applyChangeset", c, path("d2"))
check(r == 0, "the second database cannot be changed: %d %r" % (r, LOG[-1:]))
check(rows(c, "select * from t order by id") == [(1, 2, 3), (5, 6, 7)], "rows %r" % rows(c, "select * from t"))
''')
seed("rebase-mapping-kept", "C36", "two rebases in one process, the first of which renumbers an inserted row",
     "the renumbering of one rebase is applied to the next",
     [(RB, '  RebaseMapping mapping;', '  static RebaseMapping mapping;')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
t = copy(a, "t.db", "insert into t values(5,50)")
m = copy(a, "m.db", "insert into t values(5,51)")
check(call("rebase", a, t, m, path("c1")) == 0, "first rebase")
check(rows(m, "select * from t order by id") == [(1, 2), (5, 50), (6, 51)], "rows %r" % rows(m, "select * from t"))
a = db("b.db", "create table t(id integer primary key, x int)", "insert into t values(1,2),(5,7)")
t = copy(a, "tb.db", "insert into t values(8,80)")
m = copy(a, "mb.db", "update t set x=9 where id=5")
r = call("rebase", a, t, m, path("c2"))
check(r == 0, "second rebase: %d %r" % (r, LOG[-1:]))
check(rows(m, "select * from t order by id") == [(1, 2), (5, 9), (8, 80)], "rows %r" % rows(m, "select * from t"))
''')
seed("schema-ignores-m", "C21", "a column whose points have a measure in one database and none in the other",
     "column definitions that differ in M count as equal",
     [(S + "tableschema.h", "geomHasZ == other.geomHasZ && geomHasM == other.geomHasM;", "geomHasZ == other.geomHasZ;")], '''
GP = ["create table gpkg_contents(table_name text primary key)",
      "create table gpkg_spatial_ref_sys(srs_name text, srs_id integer primary key, organization text, organization_coordsys_id integer, definition text, description text)",
      "insert into gpkg_spatial_ref_sys values('w',4326,'EPSG',4326,'wkt','')",
      "create table gpkg_geometry_columns(table_name text primary key, column_name text, geometry_type_name text, srs_id integer, z int, m int)",
      "create table t(id integer primary key, g POINT)"]
a = db("a.db", *GP + ["insert into gpkg_geometry_columns values('t','g','POINT',4326,0,0)"])
m = db("m.db", *GP + ["insert into gpkg_geometry_columns values('t','g','POINT',4326,0,1)"])
check(call("createChangeset", a, a, path("d0")) == 0, "same definitions")
check(call("createChangeset", a, m, path("d")) != 0, "tables with different definitions are compared")
''')
seed("varint-three-bytes", "C31", "a text of a megabyte or more",
     "the highest bit of a length of three bytes is lost",
     [(S + "changesetvarint.h", '''    /* Values between 16384 and 2097151 */
    a &= ( 0x7f << 14 ) | ( 0x7f );''', '''    /* Values between 16384 and 2097151 */
    a &= ( 0x3f << 14 ) | ( 0x7f );''')], '''
a = db("a.db", "create table t(id integer primary key, x text)", "insert into t values(1,'a')")
m = copy(a, "m.db", ("insert into t values(2,?)", ("x" * 1500000,)))
check(call("createChangeset", a, m, path("d")) == 0, "create")
r = call("applyChangeset", a, path("d"))
check(r == 0, "apply: %d %r" % (r, LOG[-1:]))
check(rows(a, "select length(x) from t order by id") == [(1,), (1500000,)], "rows differ")
''')
seed("int-compare-32", "C30", "two integers that differ by a multiple of 2^32",
     "integers are compared by their lower half",
     [(S + "changeset.h", "return getInt() == other.getInt();", "return static_cast<int>( getInt() ) == static_cast<int>( other.getInt() );")], '', sh='''T=$(mktemp -d /tmp/demo.XXXXXXXX)
trap 'rm -rf -- "$T"' EXIT
cat > "$T/x.cpp" <<'EOF'
#include "changeset.h"
#include <cstdio>
int main()
{
  Value a, b, c;
  a.setInt( 5 );
  b.setInt( 5 + ( int64_t( 1 ) << 32 ) );
  c = a;
  if ( a == b || a != c ) { puts( "FAILED: different integers are equal" ); return 1; }
  return 0;
}
EOF
g++ -std=c++11 -w -I"$PWD/geodiff/src" -o "$T/x" "$T/x.cpp" -lsqlite3 || exit 1
timeout 60 "$T/x"
''')
seed("null-apply", "C09", "GEODIFF_applyChangesetEx without the name of a changeset",
     "a missing name of the changeset ends the process",
     [(API, """                              const char *base, const char *changeset )
{
  if ( !driverName || !base || !changeset )""", """                              const char *base, const char *changeset )
{
  if ( !driverName || !base )""")], '''
import subprocess, sys
if len(sys.argv) > 1:
    a = db("a.db", "create table t(id integer primary key, x int)")
    sys.exit(0 if call("applyChangesetEx", "sqlite", None, a, None) != 0 else 5)
r = subprocess.run([sys.executable, __file__, "x"], env=os.environ).returncode
check(r == 0, "the call with a NULL argument ended with %d" % r)
''')
seed("invert-only-warns", "C37", "inverting a changeset that is cut off",
     "a malformed changeset is only reported as a warning, which is not shown by default",
     [(API, '''    invertChangeset( reader, writer );
    writer.close();
  }
  catch ( GeoDiffException exc )
  {
    Logger::instance().error( exc );''', '''    invertChangeset( reader, writer );
    writer.close();
  }
  catch ( GeoDiffException exc )
  {
    Logger::instance().warn( exc.what() );''')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
m = copy(a, "m.db", "update t set x=3")
check(call("createChangeset", a, m, path("d")) == 0, "create")
write("e", open(path("d"), "rb").read()[:-3])
del LOG[:]
check(call("invertChangeset", path("e"), path("f")) != 0, "a changeset that is cut off is inverted")
check([x for l, x in LOG if l == 1], "no error message: %r" % LOG)
''')
seed("rebase-input-unexplained", "C37", "rebasing a changeset onto one that does not exist",
     "a missing changeset is only reported as information, which is not shown by default",
     [(RB, 'Logger::instance().error( "Could not open changeset_BASE_THEIRS: " + changeset_BASE_THEIRS );', 'Logger::instance().info( "Could not open changeset_BASE_THEIRS: " + changeset_BASE_THEIRS );')], '''
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
m = copy(a, "m.db", "update t set x=3")
check(call("createChangeset", a, m, path("own")) == 0, "create")
del LOG[:]
check(call("createRebasedChangesetEx", "sqlite", None, a, path("own"), path("none"), path("d"), path("c")) != 0, "rebased onto nothing")
check([x for l, x in LOG if l == 1], "no error message: %r" % LOG)
''')

TR = """. "$(dirname "$0")/lib.sh"
mkdir "$T/loc"
localedef -i %s -f UTF-8 "$T/loc/%s.UTF-8" > /dev/null 2>&1
LOCPATH="$T/loc" timeout 60 python3 "$D/demo.py"
"""
seed("type-letters-locale", "C38", "an application that has set the Turkish locale, and a column type in capital letters",
     "the names of column types are converted to lower case by the rules of the locale",
     [(TS, "    col.type = lowercaseString( col.type );", "    for ( char &c : col.type )\n      c = static_cast<char>( tolower( static_cast<unsigned char>( c ) ) );")], '', sh=TR % ("tr_TR", "tr_TR"))
SEEDS[-1]["py"] = """
from geolib import *
import locale
locale.setlocale(locale.LC_ALL, "tr_TR.UTF-8")
a = db("a.db", "create table gpkg_contents(table_name text primary key)",
       "create table gpkg_spatial_ref_sys(srs_name text, srs_id integer primary key, organization text, organization_coordsys_id integer, definition text, description text)",
       "insert into gpkg_spatial_ref_sys values('w',4326,'EPSG',4326,'wkt','')",
       "create table gpkg_geometry_columns(table_name text primary key, column_name text, geometry_type_name text, srs_id integer, z int, m int)",
       "insert into gpkg_geometry_columns values('t','g','POINT',4326,0,0)",
       "create table t(id INTEGER primary key, g POINT, n TINYINT)")
seen = []
pg(lambda sql: seen.append(sql) or (None if not sql.lower().startswith("select") else [["0"]]))
call("makeCopy", "sqlite", None, a, "postgres", "x", "s")
c = [s for s in seen if "CREATE TABLE" in s and '"t"' in s]
check(c and '"n" integer' in c[0].replace("  ", " "), "column created as: %s" % (c or seen[-3:]))
"""
