SEEDS = []
API = "geodiff/src/geodiff.cpp"
SEEDS.append(dict(id="copy-tmpfile-left", property="C12", needs="a copy that fails after the data has been dumped",
 breaks="GEODIFF_makeCopy removes its intermediate changeset only when the copy succeeds",
 edits=[(API, "  TmpFile tmpFileChangeset( tmpdir() + \"geodiff_changeset\" + std::to_string( rand() ) );\n", "  std::string tmpChangeset = tmpdir() + \"geodiff_changeset\" + std::to_string( rand() );\n"),
        (API, "      if ( !writer.open( tmpFileChangeset.c_path() ) )\n        throw GeoDiffException( \"Unable to open changeset file for writing: \" + tmpFileChangeset.path() );\n      driverSrc->dumpData( writer );",
              "      if ( !writer.open( tmpChangeset ) )\n        throw GeoDiffException( \"Unable to open changeset file for writing: \" + tmpChangeset );\n      driverSrc->dumpData( writer );"),
        (API, "      if ( !reader.open( tmpFileChangeset.c_path() ) )\n        throw GeoDiffException( \"Unable to open changeset file for reading: \" + tmpFileChangeset.path() );\n      driverDst->applyChangeset( reader );",
              "      if ( !reader.open( tmpChangeset ) )\n        throw GeoDiffException( \"Unable to open changeset file for reading: \" + tmpChangeset );\n      driverDst->applyChangeset( reader );\n      fileremove( tmpChangeset );")],
 py='''
from geolib import *
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
check(call("makeCopy", "sqlite", None, a, "sqlite", None, path("missing/dir/b.db")) != 0, "copying into a missing folder succeeds")
left = os.listdir(os.environ["TMPDIR"])
check(not left, "files are left behind: %s" % left)
'''))
SEEDS.append(dict(id="null-modified", property="C09", needs="NULL for exactly that argument",
 breaks="createChangesetEx no longer refuses a NULL modified database",
 edits=[(API, "if ( !driverName || !base || !modified || !changeset )", "if ( !driverName || !base || !changeset )")],
 py='''
from geolib import *
import subprocess, sys
if len(sys.argv) > 1:
    a = db("a.db", "create table t(id integer primary key, x int)")
    sys.exit(0 if call("createChangesetEx", "sqlite", None, a, None, path("d")) != 0 and not os.path.exists(path("d")) else 5)
r = subprocess.run([sys.executable, __file__, "x"], env=os.environ).returncode
check(r == 0, "the call with a NULL argument ended with %d" % r)
'''))
SEEDS.append(dict(id="dump-open-escapes", property="C08", needs="dumping a database that cannot be opened",
 breaks="the exception thrown when the database cannot be opened leaves GEODIFF_dumpData",
 edits=[(API, '''  try
  {
    // open source
    std::map<std::string, std::string> conn;
    conn["base"] = std::string( src );
    if ( driverExtraInfo )
      conn["conninfo"] = std::string( driverExtraInfo );
    driver->open( conn );

    // get source data''', '''  // open source
  std::map<std::string, std::string> conn;
  conn["base"] = std::string( src );
  if ( driverExtraInfo )
    conn["conninfo"] = std::string( driverExtraInfo );
  driver->open( conn );

  try
  {
    // get source data''')],
 py='''
from geolib import *
import subprocess, sys
if len(sys.argv) > 1:
    sys.exit(0 if call("dumpData", "sqlite", None, path("none.db"), path("d")) != 0 else 5)
r = subprocess.run([sys.executable, __file__, "x"], env=os.environ).returncode
check(r == 0, "dumping a missing database ended with %d" % r)
'''))
SEEDS.append(dict(id="rebase-check-base", property="C24", needs="a trigger that only the modified database has",
 breaks="createRebasedChangeset checks the base database for triggers and foreign keys instead of the modified one",
 edits=[(API, 'conn["base"] = std::string( modified );\n      std::unique_ptr<Driver>', 'conn["base"] = std::string( base );\n      std::unique_ptr<Driver>')],
 py='''
from geolib import *
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
m = copy(a, "m.db", "insert into t values(2,3)", "create table log(id integer primary key)", "drop table log",
         "create trigger tr after update on t begin delete from t where id=100; end")
t = copy(a, "t.db", "insert into t values(5,3)")
check(call("createChangeset", a, t, path("theirs")) == 0, "create")
check(call("createRebasedChangeset", a, m, path("theirs"), path("out"), path("conf")) != 0, "a database with triggers is rebased")
check(not os.path.exists(path("out")), "output written")
'''))
SEEDS.append(dict(id="copy-dst-conninfo", property="C25", needs="a copy between two drivers with different connections",
 breaks="the destination of a copy is opened with the connection of the source",
 edits=[(API, 'connDst["conninfo"] = std::string( driverDstExtraInfo );', 'connDst["conninfo"] = std::string( driverSrcExtraInfo ? driverSrcExtraInfo : driverDstExtraInfo );')],
 py='''
from geolib import *
a = db("a.db", "create table t(id integer primary key, x int)", "insert into t values(1,2)")
seen = []
pg(lambda sql: seen.append(sql) or Exception("no"))
call("makeCopy", "sqlite", "source", a, "postgres", "destination", "schema")
check(conninfo() == "destination", "the destination was opened with the connection '%s'" % conninfo())
'''))
