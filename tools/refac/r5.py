G = "geodiff.cpp"
U = "changesetutils.cpp"
T = "geodiffutils.cpp"
Q = "drivers/sqliteutils.cpp"
S = "tableschema.cpp"
EDITS = [
# ---- API
(G, """int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraInfo,
                               const char *base,""", """static int nullArguments( const std::string &function )
{
  Logger::instance().error( "NULL arguments to " + function );
  return GEODIFF_ERROR;
}

static std::map<std::string, std::string> connection( const char *base, const char *modified, const char *extraInfo )
{
  std::map<std::string, std::string> conn;
  if ( extraInfo )
    conn.insert( std::make_pair( std::string( "conninfo" ), std::string( extraInfo ) ) );
  if ( modified )
    conn["modified"] = modified;
  conn["base"] = base;
  return conn;
}

static std::unique_ptr<Driver> openDriver( const char *driverName, const std::map<std::string, std::string> &conn )
{
  std::unique_ptr<Driver> driver( Driver::createDriver( driverName ) );
  if ( !driver )
    throw GeoDiffException( std::string( "Unable to use driver: " ) + driverName );
  driver->open( conn );
  return driver;
}

template <typename F>
static int guarded( F function )
{
  try
  {
    return function();
  }
  catch ( const GeoDiffException &exc )
  {
    Logger::instance().error( exc );
  }
  return GEODIFF_ERROR;
}

int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraInfo,
                               const char *base,"""),
(G, """  {
    Logger::instance().error( "NULL arguments to GEODIFF_createChangesetEx" );
    return GEODIFF_ERROR;
  }

  try
  {
    std::map<std::string, std::string> conn;
    conn["base"] = std::string( base );
    conn["modified"] = std::string( modified );
    if ( driverExtraInfo )
      conn["conninfo"] = std::string( driverExtraInfo );
    std::unique_ptr<Driver> driver( Driver::createDriver( std::string( driverName ) ) );
    if ( !driver )
      throw GeoDiffException( "Unable to use driver: " + std::string( driverName ) );
    driver->open( conn );

    ChangesetWriter writer;
    if ( !writer.open( changeset ) )
      throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
    driver->createChangeset( writer );
    writer.close();
  }
  catch ( GeoDiffException exc )
  {
    Logger::instance().error( exc );
    return GEODIFF_ERROR;
  }

  return GEODIFF_SUCCESS;
}
""", """    return nullArguments( "GEODIFF_createChangesetEx" );

  return guarded( [ = ]() -> int
  {
    std::unique_ptr<Driver> driver = openDriver( driverName, connection( base, modified, driverExtraInfo ) );

    ChangesetWriter writer;
    if ( !writer.open( changeset ) )
      throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
    driver->createChangeset( writer );
    writer.close();
    return GEODIFF_SUCCESS;
  } );
}
"""),
(G, """    std::map<std::string, std::string> conn;
    conn["base"] = std::string( base );
    if ( driverExtraInfo )
      conn["conninfo"] = std::string( driverExtraInfo );
    std::unique_ptr<Driver> driver( Driver::createDriver( std::string( driverName ) ) );
    if ( !driver )
      throw GeoDiffException( "Unable to use driver: " + std::string( driverName ) );
    driver->open( conn );

    ChangesetReader reader;
    if ( !reader.open( changeset ) )
      throw GeoDiffException( "Unable to open changeset file for reading: " + std::string( changeset ) );
    if ( reader.isEmpty() )
    {
      Logger::instance().debug( "--- no changes ---" );
      return GEODIFF_SUCCESS;
    }

    driver->applyChangeset( reader );
  }
  catch ( GeoDiffException exc )
""", """    std::unique_ptr<Driver> driver = openDriver( driverName, connection( base, nullptr, driverExtraInfo ) );

    ChangesetReader reader;
    if ( !reader.open( changeset ) )
      throw GeoDiffException( "Unable to open changeset file for reading: " + std::string( changeset ) );
    if ( !reader.isEmpty() )
      driver->applyChangeset( reader );
    else
      Logger::instance().debug( "--- no changes ---" );
  }
  catch ( const GeoDiffException &exc )
"""),
(G, """    // first verify if we are able to do rebase on this database schema at all
    {
      std::map<std::string, std::string> conn;
      conn["base"] = std::string( modified );
      std::unique_ptr<Driver> driver( Driver::createDriver( "sqlite" ) );
      if ( !driver )
        throw GeoDiffException( "Unable to use driver: sqlite" );
      driver->open( conn );

      driver->checkCompatibleForRebase();  // will throw GeoDiffException in case of problems
    }
""", """    // first verify if we are able to do rebase on this database schema at all
    openDriver( "sqlite", connection( modified, nullptr, nullptr ) )->checkCompatibleForRebase();
"""),
(G, """    int rc = rebase( base2their, rebased, base2modified, conflicts );
    if ( rc == GEODIFF_SUCCESS )
    {
      // output conflicts
      if ( conflicts.empty() )
      {
        Logger::instance().debug( "No conflicts present" );
      }
      else
      {
        std::string res = conflictsToJSON( conflicts );
        flushString( conflictfile, res );
      }
    }
    return rc;
""", """    const int rc = rebase( base2their, rebased, base2modified, conflicts );
    if ( rc != GEODIFF_SUCCESS )
      return rc;

    // output conflicts
    if ( !conflicts.empty() )
      flushString( conflictfile, conflictsToJSON( conflicts ) );
    else
      Logger::instance().debug( "No conflicts present" );
    return GEODIFF_SUCCESS;
"""),
(G, """  ChangesetReader reader;
  if ( !reader.open( changeset ) )
  {
    Logger::instance().error( "Could not open changeset: " + std::string( changeset ) );
    return -1;
  }

  int changesCount = 0;
  ChangesetEntry entry;
  try
  {
    while ( reader.nextEntry( entry ) )
      ++changesCount;
  }
  catch ( GeoDiffException exc )
  {
    Logger::instance().error( exc );
    return -1;
  }

  return changesCount;
""", """  try
  {
    ChangesetReader reader;
    if ( !reader.open( changeset ) )
      throw GeoDiffException( "Could not open changeset: " + std::string( changeset ) );

    int changesCount = 0;
    for ( ChangesetEntry entry; reader.nextEntry( entry ); )
      changesCount++;
    return changesCount;
  }
  catch ( const GeoDiffException &exc )
  {
    Logger::instance().error( exc );
  }
  return -1;
"""),
(G, """  std::string res;
  try
  {
    if ( onlySummary )
      res = changesetToJSONSummary( reader );
    else
      res = changesetToJSON( reader );

    flushString( jsonfile, res );
  }
""", """  try
  {
    flushString( jsonfile, onlySummary ? changesetToJSONSummary( reader ) : changesetToJSON( reader ) );
  }
"""),
(G, """    // open source
    std::map<std::string, std::string> connSrc;
    connSrc["base"] = std::string( src );
    if ( driverSrcExtraInfo )
      connSrc["conninfo"] = std::string( driverSrcExtraInfo );
    driverSrc->open( connSrc );

    // get source tables
    std::vector<TableSchema> tables;
    std::vector<std::string> tableNames = driverSrc->listTables();
    for ( const std::string &tableName : tableNames )
    {
      TableSchema tbl = driverSrc->tableSchema( tableName );
      tableSchemaConvert( driverSrcName, driverDstName, tbl );
      tables.push_back( tbl );
    }

    // get source data
    {
      ChangesetWriter writer;
      if ( !writer.open( tmpFileChangeset.c_path() ) )
        throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
      driverSrc->dumpData( writer );
      writer.close();
    }
""", """    // open source
    driverSrc->open( connection( src, nullptr, driverSrcExtraInfo ) );

    // get source data
    {
      ChangesetWriter writer;
      if ( !writer.open( tmpFileChangeset.path() ) )
        throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
      driverSrc->dumpData( writer );
      writer.close();
    }

    // get source tables
    std::vector<TableSchema> tables;
    for ( const std::string &tableName : driverSrc->listTables() )
      tables.push_back( driverSrc->tableSchema( tableName ) );
    for ( TableSchema &tbl : tables )
      tableSchemaConvert( driverSrcName, driverDstName, tbl );
"""),
(G, """  ChangesetWriter writer;
  if ( !writer.open( changeset_inv ) )
  {
    Logger::instance().error( "Could not open file for writing: " + std::string( changeset_inv ) );
    return GEODIFF_ERROR;
  }

  try
  {
    invertChangeset( reader, writer );
    writer.close();
  }
  catch ( GeoDiffException exc )
  {
    Logger::instance().error( exc );
    return GEODIFF_ERROR;
  }

  return GEODIFF_SUCCESS;
""", """  return guarded( [&reader, changeset_inv]() -> int
  {
    ChangesetWriter writer;
    if ( !writer.open( changeset_inv ) )
      throw GeoDiffException( "Could not open file for writing: " + std::string( changeset_inv ) );
    invertChangeset( reader, writer );
    writer.close();
    return GEODIFF_SUCCESS;
  } );
"""),
# ---- utilities of changesets
(U, """    if ( entry.op == ChangesetEntry::OpInsert )
    {
      ChangesetEntry out;
      out.op = ChangesetEntry::OpDelete;
      out.oldValues = entry.newValues;
      writer.writeEntry( out );
    }
    else if ( entry.op == ChangesetEntry::OpDelete )
    {
      ChangesetEntry out;
      out.op = ChangesetEntry::OpInsert;
      out.newValues = entry.oldValues;
      writer.writeEntry( out );
    }
    else if ( entry.op == ChangesetEntry::OpUpdate )
    {
      ChangesetEntry out;
      out.op = ChangesetEntry::OpUpdate;
      out.newValues = entry.oldValues;
      out.oldValues = entry.newValues;
      // if a column is a part of pkey and has not been changed,
      // the original entry has "old" value the pkey value and "new"
      // value is undefined - let's reverse "old" and "new" in that case.
      for ( size_t i = 0; i < currentPkeys.size(); ++i )
      {
        if ( currentPkeys[i] && out.oldValues[i].type() == Value::TypeUndefined )
        {
          out.oldValues[i] = out.newValues[i];
          out.newValues[i].setUndefined();
        }
      }
      writer.writeEntry( out );
    }
    else
    {
      throw GeoDiffException( "Unknown entry operation!" );
    }
""", """    writer.writeEntry( invertedEntry( entry, currentPkeys ) );
"""),
(U, """void invertChangeset( ChangesetReader""", """static ChangesetEntry invertedEntry( const ChangesetEntry &entry, const std::vector<bool> &pkeys )
{
  ChangesetEntry out;
  switch ( entry.op )
  {
    case ChangesetEntry::OpInsert:
      out.op = ChangesetEntry::OpDelete;
      out.oldValues = entry.newValues;
      break;
    case ChangesetEntry::OpDelete:
      out.op = ChangesetEntry::OpInsert;
      out.newValues = entry.oldValues;
      break;
    case ChangesetEntry::OpUpdate:
      out.op = ChangesetEntry::OpUpdate;
      for ( size_t i = 0; i < entry.oldValues.size(); ++i )
      {
        const bool keep = pkeys[i] && entry.newValues[i].type() == Value::TypeUndefined;
        out.oldValues.push_back( keep ? entry.oldValues[i] : entry.newValues[i] );
        out.newValues.push_back( keep ? Value() : entry.oldValues[i] );
      }
      break;
    default:
      throw GeoDiffException( "Unknown entry operation!" );
  }
  return out;
}

void invertChangeset( ChangesetReader"""),
(U, """  val = replace( val, "\\\\", "\\\\\\\\" );
  val = replace( val, "\\n", "\\\\n" );
  val = replace( val, "\\r", "\\\\r" );
  val = replace( val, "\\t", "\\\\t" );
  val = replace( val, "\\"", "\\\\\\"" );
  std::string res;
  for ( char c : val )
  {
    if ( ( unsigned char ) c < 0x20 )
    {
      res += ( unsigned char ) c < 0x10 ? "\\\\u000" : "\\\\u001";
      res += "0123456789abcdef"[c & 0x0f];
    }
    else
      res += c;
  }
  return "\\"" + res + "\\"";
""", """  std::string res = "\\"";
  for ( size_t i = 0; i < val.size(); ++i )
  {
    const char c = val[i];
    switch ( c )
    {
      case '\\\\': res += "\\\\\\\\"; break;
      case '"': res += "\\\\\\""; break;
      case '\\n': res += "\\\\n"; break;
      case '\\r': res += "\\\\r"; break;
      case '\\t': res += "\\\\t"; break;
      default:
        if ( static_cast<unsigned char>( c ) < 0x20 )
        {
          char code[8];
          snprintf( code, sizeof( code ), "\\\\u%04x", static_cast<unsigned char>( c ) );
          res += code;
        }
        else
          res.push_back( c );
    }
  }
  res += '"';
  return res;
"""),
(U, """  std::string status;
  if ( entry.op == ChangesetEntry::OpUpdate )
    status = "update";
  else if ( entry.op == ChangesetEntry::OpInsert )
    status = "insert";
  else if ( entry.op == ChangesetEntry::OpDelete )
    status = "delete";
""", """  const char *status = entry.op == ChangesetEntry::OpUpdate ? "update" :
                       entry.op == ChangesetEntry::OpInsert ? "insert" :
                       entry.op == ChangesetEntry::OpDelete ? "delete" : "";
"""),
(U, """  res += "        \\"type\\": \\"" + status + "\\",\\n";
  res += "        \\"changes\\": [";
  bool first = true;

  Value valueOld, valueNew;
  for ( size_t i = 0; i < entry.table->columnCount(); ++i )
  {
    valueNew = ( entry.op == ChangesetEntry::OpUpdate || entry.op == ChangesetEntry::OpInsert ) ? entry.newValues[i] : Value();
    valueOld = ( entry.op == ChangesetEntry::OpUpdate || entry.op == ChangesetEntry::OpDelete ) ? entry.oldValues[i] : Value();
""", """  res += std::string( "        \\"type\\": \\"" ) + status + "\\",\\n";
  res += "        \\"changes\\": [";
  bool first = true;
  const bool hasOld = entry.op != ChangesetEntry::OpInsert;
  const bool hasNew = entry.op != ChangesetEntry::OpDelete;

  for ( size_t i = 0; i < entry.table->columnCount(); ++i )
  {
    const Value valueOld = hasOld ? entry.oldValues[i] : Value();
    const Value valueNew = hasNew ? entry.newValues[i] : Value();
"""),
(U, """  ChangesetEntry entry;
  bool first = true;
  while ( reader.nextEntry( entry ) )
  {
    std::string msg = changesetEntryToJSON( entry );
    if ( msg.empty() )
      continue;

    if ( first )
    {
      res += "\\n" + msg;
      first = false;
    }
    else
    {
      res += ",\\n" + msg;
    }
  }
""", """  ChangesetEntry entry;
  const char *separator = "\\n";
  while ( reader.nextEntry( entry ) )
  {
    res += separator;
    res += changesetEntryToJSON( entry );
    separator = ",\\n";
  }
"""),
(U, """    std::string tableName = entry.table->name;
    TableSummary &tableSummary = summary[tableName];

    if ( entry.op == ChangesetEntry::OpUpdate )
      ++tableSummary.updates;
    else if ( entry.op == ChangesetEntry::OpInsert )
      ++tableSummary.inserts;
    else if ( entry.op == ChangesetEntry::OpDelete )
      ++tableSummary.deletes;
""", """    TableSummary &tableSummary = summary[entry.table->name];
    switch ( entry.op )
    {
      case ChangesetEntry::OpInsert: tableSummary.inserts++; break;
      case ChangesetEntry::OpUpdate: tableSummary.updates++; break;
      case ChangesetEntry::OpDelete: tableSummary.deletes++; break;
    }
"""),
(U, """  std::string output( str.size() * 2, 0 );
  for ( size_t i = 0; i < str.size(); ++i )
  {
    unsigned char ch = str[i];
    output[i * 2] = num2hex( ch / 16 );
    output[i * 2 + 1] = num2hex( ch % 16 );
  }
  return output;
""", """  std::string output;
  output.reserve( str.size() * 2 );
  for ( char c : str )
  {
    const unsigned char ch = static_cast<unsigned char>( c );
    output += num2hex( ch >> 4 );
    output += num2hex( ch & 0x0f );
  }
  return output;
"""),
# ---- utilities
(T, """  int pk_column_number = -1;
  for ( size_t i = 0; i < tablePkeys.size(); ++i )
  {
    if ( tablePkeys[i] )
    {
      if ( pk_column_number >= 0 )
      {
        // ups primary key composite!
        throw GeoDiffException( "internal error in _get_primary_key: support composite primary keys not implemented" );
      }
      pk_column_number = i;
    }
  }
  if ( pk_column_number == -1 )
  {
    throw GeoDiffException( "internal error in _get_primary_key: unable to find internal key" );
  }

  nColumn = pk_column_number;
""", """  const auto first = std::find( tablePkeys.begin(), tablePkeys.end(), true );
  if ( first == tablePkeys.end() )
    throw GeoDiffException( "internal error in _get_primary_key: unable to find internal key" );
  if ( std::find( first + 1, tablePkeys.end(), true ) != tablePkeys.end() )
    throw GeoDiffException( "internal error in _get_primary_key: support composite primary keys not implemented" );

  const int pk_column_number = static_cast<int>( first - tablePkeys.begin() );
  nColumn = pk_column_number;
"""),
(T, """  std::string res( str );

  size_t i = 0;
  while ( res.find( substr,  i ) != std::string::npos )
  {
    i = res.find( substr, i );
    res.replace( i, substr.size(), replacestr );
    i = i + replacestr.size();
  }
  return res;
""", """  std::string res;
  size_t last = 0;
  for ( size_t i = str.find( substr ); i != std::string::npos; i = str.find( substr, last ) )
  {
    res += str.substr( last, i - last ) + replacestr;
    last = i + substr.size();
  }
  return res + str.substr( last );
"""),
(T, """  if ( str.size() < substr.size() )
    return false;

  return str.rfind( substr, 0 ) == 0;
""", """  return str.compare( 0, substr.size(), substr ) == 0;
"""),
(T, """  // table handled by triggers trigger_*_feature_count_*
  if ( startsWith( tableName, "gpkg_" ) )
    return false;
  // table handled by triggers rtree_*_geometry_*
  if ( startsWith( tableName, "rtree_" ) )
    return false;
  // internal table for AUTOINCREMENT
  if ( tableName == "sqlite_sequence" )
    return false;

  return true;
""", """  return tableName != "sqlite_sequence" && !startsWith( tableName, "gpkg_" ) && !startsWith( tableName, "rtree_" );
"""),
(T, """  if ( fileexists( mPath ) )
  {
    fileremove( mPath );
  }
""", """  fileremove( mPath );
"""),
(T, """  std::string output;
  for ( const std::string &name : names )
  {
    if ( !output.empty() )
      output += ", ";
    output += name;
  }
  return output;
""", """  std::ostringstream output;
  for ( size_t i = 0; i < names.size(); ++i )
    output << ( i ? ", " : "" ) << names[i];
  return output.str();
"""),
(T, """  std::string ret = str;
  std::transform( ret.begin(), ret.end(), ret.begin(),
  []( char c ) { return c >= 'A' && c <= 'Z' ? static_cast<char>( c - 'A' + 'a' ) : c; } );
  return ret;
""", """  std::string ret;
  for ( char c : str )
  {
    if ( c >= 'A' && c <= 'Z' )
      ret.push_back( static_cast<char>( c - 'A' + 'a' ) );
    else
      ret.push_back( c );
  }
  return ret;
"""),
(T, """  std::vector<std::string>::const_iterator result = std::find( arr.begin(), arr.end(), val );
  if ( result == arr.end() )
    return -1;
  else
    return std::distance( arr.begin(), result );
""", """  for ( size_t i = 0; i < arr.size(); ++i )
  {
    if ( arr[i] == val )
      return static_cast<int>( i );
  }
  return -1;
"""),
(T, """#include <algorithm>
""", """#include <algorithm>
#include <sstream>
"""),
# ---- sqlite utilities
(Q, """    const std::string triggerName( name );
    if ( startsWith( triggerName, "gpkg_" ) )
      continue;
    if ( startsWith( triggerName, "rtree_" ) )
      continue;
    if ( startsWith( triggerName, "trigger_insert_feature_count_" ) )
      continue;
    if ( startsWith( triggerName, "trigger_delete_feature_count_" ) )
      continue;
    triggerNames.push_back( name );
    triggerCmds.push_back( sql );
  }
  statament.close();
""", """    const std::string triggerName( name );
    bool known = false;
    for ( const char *prefix : { "gpkg_", "rtree_", "trigger_insert_feature_count_", "trigger_delete_feature_count_" } )
      known = known || startsWith( triggerName, prefix );
    if ( !known )
    {
      triggerNames.push_back( triggerName );
      triggerCmds.push_back( sql );
    }
  }
"""),
(Q, """  int rc = sqlite3_step( mStmt );
  if ( rc != SQLITE_ROW && rc != SQLITE_DONE )
  {
    throw GeoDiffException( "SQL statement error: " + std::string( sqlite3_errstr( rc ) ) );
  }
  return rc == SQLITE_ROW;
""", """  const int rc = sqlite3_step( mStmt );
  switch ( rc )
  {
    case SQLITE_ROW:
      return true;
    case SQLITE_DONE:
      return false;
    default:
      throw GeoDiffException( "SQL statement error: " + std::string( sqlite3_errstr( rc ) ) );
  }
"""),
(Q, """  return std::find( tableNames.begin(), tableNames.end(), "gpkg_contents" ) != tableNames.end();
""", """  return indexOf( tableNames, "gpkg_contents" ) >= 0;
"""),
(Q, """  for ( const std::string &fromTableName : fromTableNames )
  {
    if ( isLayerTable( fromTableName ) )
    {
      Sqlite3Stmt pStmt;     /* SQL statement being run */
""", """  for ( const std::string &fromTableName : fromTableNames )
  {
    if ( !isLayerTable( fromTableName ) )
      continue;
    {
      Sqlite3Stmt pStmt;     /* SQL statement being run */
"""),
# ---- schema
(S, """  for ( const TableColumnInfo &c : columns )
  {
    if ( c.isPrimaryKey )
      return true;
  }
  return false;
""", """  return std::any_of( columns.begin(), columns.end(), []( const TableColumnInfo & c ) { return c.isPrimaryKey; } );
"""),
(S, """  for ( size_t i = 0; i < columns.size(); ++i )
  {
    if ( columns[i].isGeometry )
      return i;
  }
  return SIZE_MAX;
""", """  size_t i = 0;
  while ( i < columns.size() && !columns[i].isGeometry )
    ++i;
  return i < columns.size() ? i : SIZE_MAX;
"""),
(S, """    if ( col.type == "int" || col.type == "integer" || col.type == "smallint" ||
         col.type == "mediumint" || col.type == "bigint" || col.type == "tinyint" )
    {
      col.type = "integer";
    }
    else if ( col.type == "double" || col.type == "real" || col.type == "double precision" || col.type == "float" )
    {
      col.type = "double precision";
    }
""", """    static const std::map<std::string, std::string> names =
    {
      { "int", "integer" }, { "integer", "integer" }, { "smallint", "integer" },
      { "mediumint", "integer" }, { "bigint", "integer" }, { "tinyint", "integer" },
      { "double", "double precision" }, { "real", "double precision" },
      { "double precision", "double precision" }, { "float", "double precision" },
    };
    const auto found = names.find( col.type );
    if ( found != names.end() )
    {
      col.type = found->second;
    }
"""),
(S, """#include "geodiffutils.hpp"
""", """#include "geodiffutils.hpp"

#include <algorithm>
#include <map>
"""),
(S, """  if ( driverSrcName == "postgres" && driverDstName == "sqlite" )
    tableSchemaPostgresToSqlite( tbl );
  else if ( driverSrcName == "sqlite" && driverDstName == "postgres" )
    tableSchemaSqliteToPostgres( tbl );
  else
    throw GeoDiffException( "Unable to convert table schema from " + driverSrcName + " to " + driverDstName );
""", """  if ( driverSrcName == "sqlite" && driverDstName == "postgres" )
    return tableSchemaSqliteToPostgres( tbl );
  if ( driverSrcName == "postgres" && driverDstName == "sqlite" )
    return tableSchemaPostgresToSqlite( tbl );
  throw GeoDiffException( "Unable to convert table schema from " + driverSrcName + " to " + driverDstName );
"""),
# ---- program
("geodiffinfo.cpp", """  if ( argc > 1 )
  {
    std::string mode( argv[1] );
    if ( mode == "version" )
    {
      printf( "%s", GEODIFF_version() );
      return 0;
    }
    else if ( mode == "createChangeset" )
    {
      return createChangeset( argc, argv );
    }
    else if ( mode == "createRebasedChangeset" )
    {
      return createRebasedChangeset( argc, argv );
    }
    else if ( mode == "applyChangeset" )
    {
      return applyChangeset( argc, argv );
    }
    else if ( mode == "listChanges" )
    {
      return listChanges( argc, argv );
    }
    else if ( mode == "listChangesSummary" )
    {
      return listChangesSummary( argc, argv );
    }
    else if ( mode == "makeCopy" )
    {
      return makeCopy( argc, argv );
    }
    else if ( mode == "createChangesetEx" )
    {
      return createChangesetEx( argc, argv );
    }
    else if ( mode == "applyChangesetEx" )
    {
      return applyChangesetEx( argc, argv );
    }
    else if ( mode == "rebaseEx" )
    {
      return rebaseEx( argc, argv );
    }
    else if ( mode == "dumpData" )
    {
      return dumpData( argc, argv );
    }
    else
    {
      return err( "invalid mode" );
    }
  }
  else
  {
    return err( "missing mode" );
  }
}""", """  if ( argc < 2 )
    return err( "missing mode" );

  const std::string mode( argv[1] );
  if ( mode == "version" )
  {
    printf( "%s", GEODIFF_version() );
    return 0;
  }

  struct Command
  {
    const char *name;
    int ( *function )( int, char ** );
  };
  static const Command commands[] =
  {
    { "createChangeset", createChangeset },
    { "createRebasedChangeset", createRebasedChangeset },
    { "applyChangeset", applyChangeset },
    { "listChanges", listChanges },
    { "listChangesSummary", listChangesSummary },
    { "makeCopy", makeCopy },
    { "createChangesetEx", createChangesetEx },
    { "applyChangesetEx", applyChangesetEx },
    { "rebaseEx", rebaseEx },
    { "dumpData", dumpData },
  };
  for ( const Command &command : commands )
  {
    if ( mode == command.name )
      return command.function( argc, argv );
  }
  return err( "invalid mode" );
}"""),
# ---- logger
("geodifflogger.cpp", """  if ( mLoggerCallback )
  {
    // Check out if we want to print this message
    if ( static_cast<int>( level ) <= static_cast<int>( maxLogLevel() ) )
    {
      // Send to callback
      mLoggerCallback( level, msg.c_str() );
    }
  }
""", """  const bool wanted = static_cast<int>( level ) <= static_cast<int>( maxLogLevel() );
  if ( !wanted || mLoggerCallback == nullptr )
    return;
  ( *mLoggerCallback )( level, msg.c_str() );
"""),
("geodifflogger.cpp", """  char *val = getenv( key );
  if ( val )
  {
    return atoi( val );
  }
  return -1;  // not set
""", """  const char *val = getenv( key );
  return val ? atoi( val ) : -1;  // -1: not set
"""),
]
