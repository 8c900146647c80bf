G = "geodiff.cpp"
T = "geodiffutils.cpp"
L = "geodifflogger.cpp"
P = "drivers/postgresdriver.cpp"
S = "drivers/sqlitedriver.cpp"
Q = "tableschema.cpp"
EDITS = [
# random names in a loop, from a distribution
(T, """  auto randchar = [&rd]() -> char
  {
    const char charset[] =
    "0123456789"
    "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    "abcdefghijklmnopqrstuvwxyz";
    const size_t max_index = ( sizeof( charset ) - 1 );
    return charset[ rd() % max_index ];
  };
  std::string str( length, 0 );
  std::generate_n( str.begin(), length, randchar );
  return str;""", """  static const std::string charset( "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz" );
  std::uniform_int_distribution<size_t> index( 0, charset.size() - 1 );
  std::string name;
  name.reserve( length );
  while ( name.size() < length )
    name += charset[ index( rd ) ];
  return name;"""),
# names through a helper
(G, """int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraInfo,
                               const char *base,""", """static std::string tempFile( const std::string &what )
{
  static const size_t LENGTH = 8;
  const std::string folder = tmpdir();
  return folder + "geodiff_" + what + randomString( LENGTH );
}

int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraInfo,
                               const char *base,"""),
(G, """TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + randomString( 6 ) );""", """TmpFile tmpFileChangeset( tempFile( "changeset" ) );"""),
(G, """    std::string root = tmpdir() + "geodiff_" + randomString( 6 );
""", """    const std::string root = tempFile( std::string() );
"""),
# initialisation
(G, """static bool gInitialized = false;
void GEODIFF_init()
{
  if ( !gInitialized )
  {
    gInitialized = true;
    sqlite3_config( SQLITE_CONFIG_LOG, _errorLogCallback );
    sqlite3_initialize();
  }
}""", """static void prepareSqlite()
{
  sqlite3_config( SQLITE_CONFIG_LOG, _errorLogCallback );
  sqlite3_initialize();
}

void GEODIFF_init()
{
  static bool sInitialized = false;
  if ( sInitialized )
    return;
  prepareSqlite();
  sInitialized = true;
}"""),
(L, """  static Logger instance;
  return instance;""", """  static Logger *instance = new Logger;
  return *instance;"""),
# constant tables
(P, """  static const size_t envelopeSize[] = { 0, 32, 48, 48, 64 };
""", """  static const std::vector<size_t> envelopeSize { 0, 32, 48, 48, 64 };
"""),
(S, """static std::string sqlForInsert( const std::string &tableName, const TableSchema &tbl )
{""", """static const std::string &placeholder()
{
  static const std::string mark( "?" );
  return mark;
}

static std::string sqlForInsert( const std::string &tableName, const TableSchema &tbl )
{"""),
(S, """    if ( i > 0 )
      sql += ", ";
    sql += "?";
  }
  sql += ")";
  return sql;
}

static std::string sqlForUpdate(""", """    static const char *const separator = ", ";
    if ( i )
      sql.append( separator );
    sql += placeholder();
  }
  sql += ")";
  return sql;
}

static std::string sqlForUpdate("""),
]
