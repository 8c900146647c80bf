P = "drivers/postgresdriver.cpp"
C = "changesetutils.cpp"
EDITS = [
(C, "#include <cmath>\n", "#include <cmath>\n#include <algorithm>\n#include <iterator>\n"),
(P, """  DriverParametersMap::const_iterator connInfo = conn.find( "conninfo" );
  if ( connInfo == conn.end() )
    throw GeoDiffException( "Missing 'conninfo' parameter" );
  std::string connInfoStr = connInfo->second;

  DriverParametersMap::const_iterator baseSchema = conn.find( "base" );
  if ( baseSchema == conn.end() )
    throw GeoDiffException( "Missing 'base' parameter" );
  mBaseSchema = baseSchema->second;

  DriverParametersMap::const_iterator modifiedSchema = conn.find( "modified" );
  mModifiedSchema = ( modifiedSchema == conn.end() ) ? std::string() : modifiedSchema->second;

  if ( mConn )
    throw GeoDiffException( "Connection already opened" );

  PGconn *c = PQconnectdb( connInfoStr.c_str() );
""", """  if ( mConn )
    throw GeoDiffException( "Connection already opened" );

  auto connInfo = conn.find( "conninfo" );
  if ( connInfo == conn.end() )
    throw GeoDiffException( "Missing 'conninfo' parameter" );

  auto baseSchema = conn.find( "base" );
  if ( baseSchema == conn.end() )
    throw GeoDiffException( "Missing 'base' parameter" );

  auto modifiedSchema = conn.find( "modified" );

  mBaseSchema = baseSchema->second;
  if ( modifiedSchema != conn.end() )
    mModifiedSchema = modifiedSchema->second;
  else
    mModifiedSchema.clear();

  PGconn *c = PQconnectdb( connInfo->second.c_str() );
"""),
(P, """void PostgresDriver::open( const DriverParametersMap &conn )
{
  openPrivate( conn );

  {
    PostgresResult resBase( execSql( mConn, "SELECT 1 FROM pg_namespace WHERE nspname = " + quotedString( mBaseSchema ) ) );
    if ( resBase.rowCount() == 0 )
    {
      std::string baseSchema = mBaseSchema;  // close() will erase mBaseSchema...
      close();
      throw GeoDiffException( "The base schema does not exist: " + baseSchema );
    }
  }

  if ( !mModifiedSchema.empty() )
  {
    PostgresResult resBase( execSql( mConn, "SELECT 1 FROM pg_namespace WHERE nspname = " + quotedString( mModifiedSchema ) ) );
    if ( resBase.rowCount() == 0 )
    {
      std::string modifiedSchema = mModifiedSchema;  // close() will erase mModifiedSchema...
      close();
      throw GeoDiffException( "The base schema does not exist: " + modifiedSchema );
    }
  }
}
""", """static bool schemaExists( PGconn *conn, const std::string &schemaName )
{
  PostgresResult res( execSql( conn, "SELECT 1 FROM pg_namespace WHERE nspname = " + quotedString( schemaName ) ) );
  return res.rowCount() != 0;
}

void PostgresDriver::open( const DriverParametersMap &conn )
{
  openPrivate( conn );

  std::string missing;
  if ( !schemaExists( mConn, mBaseSchema ) )
    missing = "The base schema does not exist: " + mBaseSchema;
  else if ( !mModifiedSchema.empty() && !schemaExists( mConn, mModifiedSchema ) )
    missing = "The base schema does not exist: " + mModifiedSchema;

  if ( !missing.empty() )
  {
    close();
    throw GeoDiffException( missing );
  }
}
"""),
(P, """  std::string sql;
  if ( overwrite )
    sql += "DROP SCHEMA IF EXISTS " + quotedIdentifier( mBaseSchema ) + " CASCADE; ";
  sql += "CREATE SCHEMA " + quotedIdentifier( mBaseSchema ) + ";";
""", """  const std::string schema = quotedIdentifier( mBaseSchema );
  std::string sql = "CREATE SCHEMA " + schema + ";";
  if ( overwrite )
    sql = "DROP SCHEMA IF EXISTS " + schema + " CASCADE; " + sql;
"""),
(P, """  std::vector<std::string> tables;
  for ( int i = 0; i < res.rowCount(); ++i )
  {
    tables.push_back( res.value( i, 0 ) );
  }
""", """  const int count = res.rowCount();
  std::vector<std::string> tables( count );
  for ( int i = 0; i < count; ++i )
    tables[i] = res.value( i, 0 );
"""),
(P, """  std::map<std::string, std::string> geomTypes;
  std::map<std::string, std::string> geomDims;
  std::map<std::string, int> geomSrids;
""", """  struct GeomDetails
  {
    std::string type;
    std::string dim;
    int srid = -1;
  };
  std::map<std::string, GeomDetails> geomDetails;
"""),
(P, """    std::string name = resGeomDetails.value( i, 0 );
    std::string type = resGeomDetails.value( i, 1 );
    std::string srid = resGeomDetails.value( i, 2 );
    int sridInt = srid.empty() ? -1 : atoi( srid.c_str() );
    geomTypes[name] = type;
    geomDims[name] = resGeomDetails.value( i, 3 );
    geomSrids[name] = sridInt;
""", """    GeomDetails &details = geomDetails[resGeomDetails.value( i, 0 )];
    details.type = resGeomDetails.value( i, 1 );
    details.dim = resGeomDetails.value( i, 3 );
    const std::string srid = resGeomDetails.value( i, 2 );
    if ( !srid.empty() )
      details.srid = atoi( srid.c_str() );
"""),
(P, """      if ( geomTypes.find( col.name ) != geomTypes.end() )
      {
        extractGeometryTypeDetails( geomTypes[col.name], geomDims[col.name], col.geomType, col.geomHasZ, col.geomHasM );
        col.geomSrsId = geomSrids[col.name];
        srsId = col.geomSrsId;
      }
""", """      auto details = geomDetails.find( col.name );
      if ( details != geomDetails.end() )
      {
        extractGeometryTypeDetails( details->second.type, details->second.dim, col.geomType, col.geomHasZ, col.geomHasM );
        srsId = col.geomSrsId = details->second.srid;
      }
"""),
(P, """    std::string name;
    if ( !prefix.empty() )
      name = prefix + ".";
    name += quotedIdentifier( c.name );

    if ( c.isGeometry )
      columns += "ST_AsBinary(" + name + ")";
    else if ( c.type == "timestamp without time zone" )
""", """    const std::string name = ( prefix.empty() ? std::string() : prefix + "." ) + quotedIdentifier( c.name );

    if ( c.isGeometry )
    {
      columns += "ST_AsBinary(";
      columns += name;
      columns += ")";
    }
    else if ( c.type == "timestamp without time zone" )
"""),
(P, """  std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + quotedIdentifier( tableName ) +
                    " WHERE NOT EXISTS ( SELECT 1 FROM " +
                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + quotedIdentifier( tableName ) +
                    " WHERE " + exprPk + ")";
  return sql;
""", """  const std::string tableBase = quotedIdentifier( schemaNameBase ) + "." + quotedIdentifier( tableName );
  const std::string tableModified = quotedIdentifier( schemaNameModified ) + "." + quotedIdentifier( tableName );
  const std::string &from = reverse ? tableBase : tableModified;
  const std::string &other = reverse ? tableModified : tableBase;

  return "SELECT " + allColumnNames( tbl ) + " FROM " + from + " WHERE NOT EXISTS ( SELECT 1 FROM " + other + " WHERE " + exprPk + ")";
"""),
(P, """  Value v;
  if ( res.isNull( r, i ) )
  {
    v.setNull();
  }
  else
  {
    std::string valueStr = res.value( r, i );
""", """  Value v;
  if ( res.isNull( r, i ) )
  {
    v.setNull();
    return v;
  }

  {
    std::string valueStr = res.value( r, i );
"""),
(P, """  if ( v.type() == Value::TypeUndefined )
  {
    throw GeoDiffException( "valueToSql: got 'undefined' value (malformed changeset?)" );
  }
  else if ( v.type() == Value::TypeNull )
  {
    return "NULL";
  }
  else if ( v.type() == Value::TypeInt )
  {
    if ( col.type == "boolean" )
      return v.getInt() ? "'t'" : "'f'";
    else
      return std::to_string( v.getInt() );
  }
  else if ( v.type() == Value::TypeDouble )
  {
    char buf[32];
    snprintf( buf, sizeof( buf ), "'%.17g'", v.getDouble() );  // quoted because of NaN and Infinity
    return numberFromLocale( buf );
  }
  else if ( v.type() == Value::TypeText || v.type() == Value::TypeBlob )
  {
    if ( col.isGeometry )
    {
      // handling of geometries - they are encoded with GPKG header
      std::string gpkgWkb = v.getString();
      size_t headerSize = gpkgHeaderSize( gpkgWkb );
      std::string wkb( gpkgWkb.size() - headerSize, 0 );
      memcpy( &wkb[0], &gpkgWkb[headerSize], gpkgWkb.size() - headerSize );
      return "ST_GeomFromWKB('\\\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
    }
    if ( v.type() == Value::TypeBlob )
      return "'\\\\x" + bin2hex( v.getString() ) + "'";
    return quotedString( v.getString() );
  }
  else
  {
    throw GeoDiffException( "unexpected value" );
  }
""", """  const Value::Type type = v.type();
  switch ( type )
  {
    case Value::TypeUndefined:
      throw GeoDiffException( "valueToSql: got 'undefined' value (malformed changeset?)" );

    case Value::TypeNull:
      return "NULL";

    case Value::TypeInt:
      if ( col.type != "boolean" )
        return std::to_string( v.getInt() );
      return v.getInt() != 0 ? "'t'" : "'f'";

    case Value::TypeDouble:
    {
      char buf[64];
      snprintf( buf, sizeof( buf ), "%.17g", v.getDouble() );
      return "'" + numberFromLocale( buf ) + "'";  // quoted because of NaN and Infinity
    }

    case Value::TypeText:
    case Value::TypeBlob:
    {
      const std::string &str = v.getString();
      if ( col.isGeometry )
      {
        // handling of geometries - they are encoded with GPKG header
        return "ST_GeomFromWKB('\\\\x" + bin2hex( str.substr( gpkgHeaderSize( str ) ) ) + "', " + std::to_string( col.geomSrsId ) + ")";
      }
      return type == Value::TypeText ? quotedString( str ) : "'\\\\x" + bin2hex( str ) + "'";
    }
  }
  throw GeoDiffException( "unexpected value" );
"""),
(P, """    ChangesetEntry e;
    e.op = reverse ? ChangesetEntry::OpDelete : ChangesetEntry::OpInsert;

    size_t numColumns = tbl.columns.size();
    for ( size_t i = 0; i < numColumns; ++i )
    {
      Value v( resultToValue( res, r, i, tbl.columns[i] ) );
      if ( reverse )
        e.oldValues.push_back( v );
      else
        e.newValues.push_back( v );
    }

    writer.writeEntry( e );
""", """    std::vector<Value> values;
    values.reserve( tbl.columns.size() );
    for ( size_t i = 0; i < tbl.columns.size(); ++i )
      values.push_back( resultToValue( res, r, i, tbl.columns[i] ) );

    ChangesetEntry e;
    if ( reverse )
    {
      e.op = ChangesetEntry::OpDelete;
      e.oldValues = values;
    }
    else
    {
      e.op = ChangesetEntry::OpInsert;
      e.newValues = values;
    }
    writer.writeEntry( e );
"""),
(P, """      bool pkey = tbl.columns[i].isPrimaryKey;
      bool updated = v1 != v2;
      e.oldValues.push_back( ( pkey || updated ) ? v1 : Value() );
      e.newValues.push_back( updated ? v2 : Value() );
""", """      if ( v1 == v2 )
      {
        e.newValues.push_back( Value() );
        e.oldValues.push_back( tbl.columns[i].isPrimaryKey ? v1 : Value() );
      }
      else
      {
        e.newValues.push_back( v2 );
        e.oldValues.push_back( v1 );
      }
"""),
(P, """  std::string sql;
  sql += "INSERT INTO " + quotedIdentifier( schemaName ) + "." + quotedIdentifier( tableName ) + " (";
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    if ( i > 0 )
      sql += ", ";
    sql += quotedIdentifier( tbl.columns[i].name );
  }
  sql += ") VALUES (";
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    if ( i > 0 )
      sql += ", ";
    sql += valueToSql( values[i], tbl.columns[i] );
  }
  sql += ")";
  return sql;
""", """  std::string names, data;
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    const TableColumnInfo &col = tbl.columns[i];
    const char *separator = i == 0 ? "" : ", ";
    names += separator + quotedIdentifier( col.name );
    data += separator + valueToSql( values[i], col );
  }
  return "INSERT INTO " + quotedIdentifier( schemaName ) + "." + quotedIdentifier( tableName ) + " (" + names + ") VALUES (" + data + ")";
"""),
(P, """  bool first = true;
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    if ( newValues[i].type() != Value::TypeUndefined )
    {
      if ( !first )
        sql += ", ";
      first = false;
      sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( newValues[i], tbl.columns[i] );
    }
  }
  first = true;
  sql += " WHERE ";
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    if ( oldValues[i].type() != Value::TypeUndefined || tbl.columns[i].isPrimaryKey )
    {
      if ( !first )
        sql += " AND ";
      first = false;
      sql += quotedIdentifier( tbl.columns[i].name );
      if ( oldValues[i].type() == Value::TypeNull )
        sql += " IS NULL";
      else
        sql += " = " + valueToSql( oldValues[i], tbl.columns[i] );
    }
  }

  return sql;
""", """  std::vector<std::string> assignments, conditions;
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    const TableColumnInfo &col = tbl.columns[i];
    const std::string name = quotedIdentifier( col.name );
    if ( newValues[i].type() != Value::TypeUndefined )
      assignments.push_back( name + " = " + valueToSql( newValues[i], col ) );

    if ( oldValues[i].type() == Value::TypeUndefined && !col.isPrimaryKey )
      continue;
    conditions.push_back( oldValues[i].type() == Value::TypeNull ? name + " IS NULL" : name + " = " + valueToSql( oldValues[i], col ) );
  }

  for ( size_t i = 0; i < assignments.size(); ++i )
    sql += ( i ? ", " : "" ) + assignments[i];
  sql += " WHERE ";
  for ( size_t i = 0; i < conditions.size(); ++i )
    sql += ( i ? " AND " : "" ) + conditions[i];

  return sql;
"""),
(P, """    if ( tbl.columns[i].isPrimaryKey )
      sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( values[i], tbl.columns[i] );
    else
    {
      if ( values[i].type() == Value::TypeNull )
        sql += quotedIdentifier( tbl.columns[i].name ) + " IS NULL";
      else
        sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( values[i], tbl.columns[i] ) ;
    }
""", """    sql += quotedIdentifier( tbl.columns[i].name );
    if ( !tbl.columns[i].isPrimaryKey && values[i].type() == Value::TypeNull )
      sql += " IS NULL";
    else
      sql += " = " + valueToSql( values[i], tbl.columns[i] );
"""),
(P, """void PostgresDriver::applyChangeset( ChangesetReader &reader )
{
""", """static void checkTableSchema( const TableSchema &tbl, const ChangesetTable &table )
{
  if ( tbl.columns.empty() )
    throw GeoDiffException( "No such table: " + table.name );

  if ( tbl.columns.size() != table.columnCount() )
    throw GeoDiffException( "Wrong number of columns for table: " + table.name );

  size_t i = 0;
  for ( const TableColumnInfo &col : tbl.columns )
  {
    if ( col.isPrimaryKey != table.primaryKeys[i++] )
      throw GeoDiffException( "Mismatch of primary keys in table: " + table.name );
  }
}

static int logFailure( const std::string &what, const std::string &type, const ChangesetEntry &entry, const PostgresResult &res )
{
  logApplyConflict( type, entry );
  Logger::instance().warn( "Failure doing " + what + ": " + res.statusErrorMessage() );
  return 1;
}

void PostgresDriver::applyChangeset( ChangesetReader &reader )
{
"""),
(P, """      if ( tbl.columns.size() == 0 )
        throw GeoDiffException( "No such table: " + tableName );

      if ( tbl.columns.size() != entry.table->columnCount() )
        throw GeoDiffException( "Wrong number of columns for table: " + tableName );

      for ( size_t i = 0; i < entry.table->columnCount(); ++i )
      {
        if ( tbl.columns[i].isPrimaryKey != entry.table->primaryKeys[i] )
          throw GeoDiffException( "Mismatch of primary keys in table: " + tableName );
      }
""", """      checkTableSchema( tbl, *entry.table );
"""),
(P, """      if ( res.status() != PGRES_COMMAND_OK )
      {
        logApplyConflict( "update_failed", entry );
        ++conflictCount;
        Logger::instance().warn( "Failure doing UPDATE: " + res.statusErrorMessage() );
      }
""", """      if ( res.status() != PGRES_COMMAND_OK )
        conflictCount += logFailure( "UPDATE", "update_failed", entry, res );
"""),
(P, """      if ( res.status() != PGRES_COMMAND_OK )
      {
        logApplyConflict( "delete_failed", entry );
        ++conflictCount;
        Logger::instance().warn( "Failure doing DELETE: " + res.statusErrorMessage() );
      }
""", """      if ( res.status() != PGRES_COMMAND_OK )
        conflictCount += logFailure( "DELETE", "delete_failed", entry, res );
"""),
(P, """        int64_t pkey = entry.newValues[autoIncrementPkeyIndex].getInt();
        if ( autoIncrementTablesToFix.find( tableName ) == autoIncrementTablesToFix.end() )
          autoIncrementTablesToFix[tableName] = pkey;
        else
          autoIncrementTablesToFix[tableName] = std::max( autoIncrementTablesToFix[tableName], pkey );
""", """        const int64_t pkey = entry.newValues[autoIncrementPkeyIndex].getInt();
        auto known = autoIncrementTablesToFix.emplace( tableName, pkey ).first;
        if ( known->second < pkey )
          known->second = pkey;
"""),
(P, """  if ( !conflictCount )
  {
    // at the end, update any SEQUENCE objects if needed (this is not undone if the transaction is rolled back)
    for ( const std::pair<std::string, int64_t> &it : autoIncrementTablesToFix )
      updateSequenceObject( tableNameToSequenceName[it.first], it.second );

    transaction.commitChanges();
  }
  else
  {
    throw GeoDiffException( "Conflicts encountered while applying changes! Total " + std::to_string( conflictCount ) );
  }
""", """  if ( conflictCount )
    throw GeoDiffException( "Conflicts encountered while applying changes! Total " + std::to_string( conflictCount ) );

  // at the end, update any SEQUENCE objects if needed (this is not undone if the transaction is rolled back)
  for ( auto it = autoIncrementTablesToFix.begin(); it != autoIncrementTablesToFix.end(); ++it )
    updateSequenceObject( tableNameToSequenceName.at( it->first ), it->second );

  transaction.commitChanges();
"""),
(P, """  std::string colName;
  autoIncrementPkeyIndex = -1;
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    if ( tbl.columns[i].isPrimaryKey && tbl.columns[i].isAutoIncrement )
    {
      autoIncrementPkeyIndex = i;
      colName = tbl.columns[i].name;
      break;
    }
  }

  if ( autoIncrementPkeyIndex == -1 )
    return "";

""", """  auto column = std::find_if( tbl.columns.begin(), tbl.columns.end(), []( const TableColumnInfo & c ) { return c.isPrimaryKey && c.isAutoIncrement; } );
  if ( column == tbl.columns.end() )
  {
    autoIncrementPkeyIndex = -1;
    return std::string();
  }

  autoIncrementPkeyIndex = static_cast<int>( column - tbl.columns.begin() );
  const std::string &colName = column->name;
"""),
(P, """  if ( currValue < maxValue )
  {
    Logger::instance().info( "Updating sequence " + seqName + " from " + std::to_string( currValue ) + " to " + std::to_string( maxValue ) );

    std::string sql = "SELECT setval(" + quotedString( seqName ) + ", " + std::to_string( maxValue ) + ")";
    PostgresResult resSetVal( execSql( mConn, sql ) );
    // the SQL just returns the new value we set
  }
""", """  if ( currValue >= maxValue )
    return;

  const std::string newValue = std::to_string( maxValue );
  Logger::instance().info( "Updating sequence " + seqName + " from " + std::to_string( currValue ) + " to " + newValue );
  // the SQL just returns the new value we set
  PostgresResult resSetVal( execSql( mConn, "SELECT setval(" + quotedString( seqName ) + ", " + newValue + ")" ) );
"""),
(P, """      if ( !columns.empty() )
        columns += ", ";

      std::string type = c.type;
      if ( c.isAutoIncrement )
        type = "SERIAL";   // there is also "smallserial", "bigserial" ...
      columns += quotedIdentifier( c.name ) + " " + type;

      if ( c.isNotNull )
        columns += " NOT NULL";
""", """      const std::string type = c.isAutoIncrement ? "SERIAL" : c.type;   // there is also "smallserial", "bigserial" ...
      const std::string definition = quotedIdentifier( c.name ) + " " + type + ( c.isNotNull ? " NOT NULL" : "" );
      columns = columns.empty() ? definition : columns + ", " + definition;
"""),
(P, """    int rows = res.rowCount();
    for ( int r = 0; r < rows; ++r )
    {
      if ( r == 0 )
      {
        writer.beginTable( schemaToChangesetTable( tableName, tbl ) );
      }

      ChangesetEntry e;
""", """    const int rows = res.rowCount();
    if ( rows == 0 )
      continue;

    writer.beginTable( schemaToChangesetTable( tableName, tbl ) );
    for ( int r = 0; r < rows; ++r )
    {
      ChangesetEntry e;
"""),
(C, """std::string changesetToJSON( ChangesetReader &reader )
{
  std::string res = "{\\n   \\"geodiff\\": [";

  ChangesetEntry entry;
  bool first = true;
  while ( reader.nextEntry( entry ) )
  {
    std::string msg = changesetEntryToJSON( entry );
    if ( msg.empty() )
      continue;

    if ( first )
    {
      res += "\\n" + msg;
      first = false;
    }
    else
    {
      res += ",\\n" + msg;
    }
  }

  res += "\\n   ]\\n";
  res += "}";
  return res;
}
""", """static std::string jsonDocument( const std::string &name, const std::vector<std::string> &items )
{
  std::string res = "{\\n   \\"" + name + "\\": [";
  for ( size_t i = 0; i < items.size(); ++i )
  {
    res += i == 0 ? "\\n" : ",\\n";
    res += items[i];
  }
  return res + "\\n   ]\\n}";
}

std::string changesetToJSON( ChangesetReader &reader )
{
  std::vector<std::string> items;
  ChangesetEntry entry;
  while ( reader.nextEntry( entry ) )
    items.push_back( changesetEntryToJSON( entry ) );
  return jsonDocument( "geodiff", items );
}
"""),
(C, """  TableSummary() : inserts( 0 ), updates( 0 ), deletes( 0 ) {}
  int inserts;
  int updates;
  int deletes;
""", """  int inserts = 0;
  int updates = 0;
  int deletes = 0;
"""),
(C, """  bool first = true;
  ChangesetEntry entry;
  while ( reader.nextEntry( entry ) )
  {
    std::string tableName = entry.table->name;
    TableSummary &tableSummary = summary[tableName];

    if ( entry.op == ChangesetEntry::OpUpdate )
      ++tableSummary.updates;
    else if ( entry.op == ChangesetEntry::OpInsert )
      ++tableSummary.inserts;
    else if ( entry.op == ChangesetEntry::OpDelete )
      ++tableSummary.deletes;
  }

  // write JSON
  std::string res = "{\\n   \\"geodiff_summary\\": [";
""", """  ChangesetEntry entry;
  while ( reader.nextEntry( entry ) )
  {
    TableSummary &tableSummary = summary[entry.table->name];
    switch ( entry.op )
    {
      case ChangesetEntry::OpInsert:
        tableSummary.inserts++;
        break;
      case ChangesetEntry::OpDelete:
        tableSummary.deletes++;
        break;
      case ChangesetEntry::OpUpdate:
        tableSummary.updates++;
        break;
    }
  }

  // write JSON
  std::vector<std::string> items;
"""),
(C, """    if ( first )
    {
      res += "\\n" + tableJson;
      first = false;
    }
    else
    {
      res += ",\\n" + tableJson;
    }

  }
  res += "\\n   ]\\n";
  res += "}";
  return res;
}


std::string conflictToJSON""", """    items.push_back( tableJson );
  }
  return jsonDocument( "geodiff_summary", items );
}


std::string conflictToJSON"""),
(C, """std::string conflictsToJSON( const std::vector<ConflictFeature> &conflicts )
{
  std::string res = "{\\n   \\"geodiff\\": [";

  bool first = true;
  for ( const ConflictFeature &item : conflicts )
  {
    std::string msg = conflictToJSON( item );
    if ( msg.empty() )
      continue;

    if ( first )
    {
      res += "\\n" + msg;
      first = false;
    }
    else
    {
      res += ",\\n" + msg;
    }
  }

  res += "\\n   ]\\n";
  res += "}";
  return res;
}
""", """std::string conflictsToJSON( const std::vector<ConflictFeature> &conflicts )
{
  std::vector<std::string> items;
  std::transform( conflicts.begin(), conflicts.end(), std::back_inserter( items ), conflictToJSON );
  return jsonDocument( "geodiff", items );
}
"""),
(C, """    std::string strValueBase = valueToJSON( item.base() );
    std::string strValueOld = valueToJSON( item.theirs() );
    std::string strValueNew = valueToJSON( item.ours() );
    if ( !strValueBase.empty() )
      res += ",\\n              \\"base\\": " + strValueBase;
    if ( !strValueOld.empty() )
      res += ",\\n              \\"old\\": " + strValueOld;
    if ( !strValueNew.empty() )
      res += ",\\n              \\"new\\": " + strValueNew;
""", """    auto addValue = [&res]( const std::string & name, const Value & value )
    {
      const std::string str = valueToJSON( value );
      if ( !str.empty() )
        res += ",\\n              \\"" + name + "\\": " + str;
    };
    addValue( "base", item.base() );
    addValue( "old", item.theirs() );
    addValue( "new", item.ours() );
"""),
(C, """  if ( i <= '9' && i >= '0' )
    return i - '0';
  if ( i >= 'A' && i <= 'F' )
    return 10 + i - 'A';
  if ( i >= 'a' && i <= 'f' )
    return 10 + i - 'a';
  assert( false );
""", """  if ( i >= '0' && i <= '9' )
    return i - '0';
  const unsigned char upper = i & ~0x20;
  assert( upper >= 'A' && upper <= 'F' );
  return upper - 'A' + 10;
"""),
(C, """  assert( n >= 0 && n < 16 );
  if ( n >= 0 && n < 10 )
    return '0' + n;
  else if ( n >= 10 && n < 16 )
    return 'A' + n - 10;
""", """  assert( n >= 0 && n < 16 );
  return "0123456789ABCDEF"[n];
"""),
(C, """  std::string output( str.size() * 2, 0 );
  for ( size_t i = 0; i < str.size(); ++i )
  {
    unsigned char ch = str[i];
    output[i * 2] = num2hex( ch / 16 );
    output[i * 2 + 1] = num2hex( ch % 16 );
  }
  return output;
""", """  std::string output;
  output.reserve( str.size() * 2 );
  for ( unsigned char ch : str )
  {
    output.push_back( num2hex( ch >> 4 ) );
    output.push_back( num2hex( ch & 0x0f ) );
  }
  return output;
"""),
]
