P = "drivers/postgresdriver.cpp"
EDITS = [
(P, """    if ( col.type == "bool" || col.type == "boolean" )
    {
      v.setInt( valueStr == "t" );  // PostgreSQL uses 't' for true and 'f' for false
    }
    else if ( isColumnInt( col ) )
    {
      v.setInt( atol( valueStr.c_str() ) );
    }
    else if ( isColumnDouble( col ) )
    {
      v.setDouble( atof( numberToLocale( valueStr ).c_str() ) );
    }
    else if ( isColumnText( col ) )
    {
      v.setString( Value::TypeText, valueStr.c_str(), valueStr.size() );
    }
    else if ( col.type == "timestamp without time zone" )
    {
      v.setString( Value::TypeText, valueStr.c_str(), valueStr.size() );
    }
""", """    const bool isBool = col.type == "bool" || col.type == "boolean";
    if ( isColumnDouble( col ) )
    {
      v.setDouble( strtod( numberToLocale( valueStr ).c_str(), nullptr ) );
    }
    else if ( isColumnInt( col ) )
    {
      v.setInt( strtoll( valueStr.c_str(), nullptr, 10 ) );
    }
    else if ( isBool )
    {
      v.setInt( valueStr == "t" ? 1 : 0 );
    }
    else if ( isColumnText( col ) || col.type == "timestamp without time zone" )
    {
      v.setString( Value::TypeText, valueStr.data(), valueStr.size() );
    }
"""),
(P, """      if ( valueStr.size() < 2 )
        throw GeoDiffException( "Unexpected geometry value" );
      if ( valueStr[0] != '\\\\' || valueStr[1] != 'x' )
        throw GeoDiffException( "Unexpected prefix in geometry value" );
""", """      if ( valueStr.compare( 0, 2, "\\\\x" ) != 0 )
        throw GeoDiffException( "Unexpected prefix in geometry value" );
"""),
(P, """      std::string outBinString( 8 + binString.size(), 0 );
      memcpy( &outBinString[0], "GP\\x00\\x01", 4 );
      // write SRID in little endian
      outBinString[4] = 0xff & ( col.geomSrsId >> 0 );
      outBinString[5] = 0xff & ( col.geomSrsId >> 8 );
      outBinString[6] = 0xff & ( col.geomSrsId >> 16 );
      outBinString[7] = 0xff & ( col.geomSrsId >> 24 );

      memcpy( &outBinString[8], binString.data(), binString.size() );
""", """      std::string outBinString( "GP\\x00\\x01", 4 );
      // write SRID in little endian
      for ( int shift = 0; shift < 32; shift += 8 )
        outBinString.push_back( static_cast<char>( 0xff & ( col.geomSrsId >> shift ) ) );
      outBinString += binString;
"""),
(P, """  std::string exprPk;
  for ( const TableColumnInfo &c : tbl.columns )
  {
    if ( c.isPrimaryKey )
    {
      if ( !exprPk.empty() )
        exprPk += " AND ";
      exprPk += quotedIdentifier( schemaNameBase ) + "." + quotedIdentifier( tableName ) + "." + quotedIdentifier( c.name ) + "=" +
                quotedIdentifier( schemaNameModified ) + "." + quotedIdentifier( tableName ) + "." + quotedIdentifier( c.name );
    }
  }

  std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + quotedIdentifier( tableName ) +
                    " WHERE NOT EXISTS ( SELECT 1 FROM " +
                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + quotedIdentifier( tableName ) +
                    " WHERE " + exprPk + ")";
  return sql;
""", """  const std::string base = quotedIdentifier( schemaNameBase ) + "." + quotedIdentifier( tableName );
  const std::string modified = quotedIdentifier( schemaNameModified ) + "." + quotedIdentifier( tableName );
  std::vector<std::string> parts;
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    if ( !tbl.columns[i].isPrimaryKey )
      continue;
    const std::string column = quotedIdentifier( tbl.columns[i].name );
    parts.push_back( modified + "." + column + " = " + base + "." + column );
  }
  std::string exprPk;
  for ( size_t i = 0; i < parts.size(); ++i )
    exprPk += ( i ? " AND " : "" ) + parts[i];

  std::string from = modified, other = base;
  if ( reverse )
    std::swap( from, other );
  return "SELECT " + allColumnNames( tbl ) + " FROM " + from + " WHERE NOT EXISTS (SELECT * FROM " + other + " WHERE " + exprPk + ")";
"""),
(P, """      std::string colBase = "b." + quotedIdentifier( c.name );
      std::string colModified = "a." + quotedIdentifier( c.name );
      exprOther += "(" + colBase + " IS DISTINCT FROM " + colModified + ")";
""", """      const std::string col = quotedIdentifier( c.name );
      exprOther += "a." + col + " IS DISTINCT FROM b." + col;
"""),
(P, """  int rows = res.rowCount();
  for ( int r = 0; r < rows; ++r )
  {
    if ( first )
    {
      ChangesetTable chTable = schemaToChangesetTable( tableName, tbl );
      writer.beginTable( chTable );
      first = false;
    }

    ChangesetEntry e;
    e.op = reverse ? ChangesetEntry::OpDelete : ChangesetEntry::OpInsert;

    size_t numColumns = tbl.columns.size();
    for ( size_t i = 0; i < numColumns; ++i )
    {
      Value v( resultToValue( res, r, i, tbl.columns[i] ) );
      if ( reverse )
        e.oldValues.push_back( v );
      else
        e.newValues.push_back( v );
    }

    writer.writeEntry( e );
  }
""", """  const int rows = res.rowCount();
  if ( rows == 0 )
    return;
  if ( first )
  {
    writer.beginTable( schemaToChangesetTable( tableName, tbl ) );
    first = false;
  }
  for ( int r = 0; r < rows; ++r )
  {
    ChangesetEntry e;
    e.op = reverse ? ChangesetEntry::OpDelete : ChangesetEntry::OpInsert;
    std::vector<Value> &values = reverse ? e.oldValues : e.newValues;
    values.reserve( tbl.columns.size() );
    size_t i = 0;
    for ( const TableColumnInfo &c : tbl.columns )
      values.push_back( resultToValue( res, r, i++, c ) );
    writer.writeEntry( e );
  }
"""),
(P, """      e.oldValues.push_back( ( pkey || updated ) ? v1 : Value() );
      e.newValues.push_back( updated ? v2 : Value() );
""", """      Value oldValue, newValue;
      if ( updated )
        newValue = v2;
      if ( updated || pkey )
        oldValue = v1;
      e.newValues.push_back( newValue );
      e.oldValues.push_back( oldValue );
"""),
(P, """  bool first = true;
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    if ( newValues[i].type() != Value::TypeUndefined )
    {
      if ( !first )
        sql += ", ";
      first = false;
      sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( newValues[i], tbl.columns[i] );
    }
  }
  first = true;
  sql += " WHERE ";
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    if ( oldValues[i].type() != Value::TypeUndefined || tbl.columns[i].isPrimaryKey )
    {
      if ( !first )
        sql += " AND ";
      first = false;
      sql += quotedIdentifier( tbl.columns[i].name );
      if ( oldValues[i].type() == Value::TypeNull )
        sql += " IS NULL";
      else
        sql += " = " + valueToSql( oldValues[i], tbl.columns[i] );
    }
  }

  return sql;
""", """  std::string assignments, conditions;
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    const TableColumnInfo &c = tbl.columns[i];
    if ( newValues[i].type() != Value::TypeUndefined )
    {
      if ( !assignments.empty() )
        assignments += ", ";
      assignments += quotedIdentifier( c.name ) + "=" + valueToSql( newValues[i], c );
    }
    if ( oldValues[i].type() != Value::TypeUndefined || c.isPrimaryKey )
      conditions += ( conditions.empty() ? "" : " AND " ) + columnEquals( oldValues[i], c );
  }
  return sql + assignments + " WHERE " + conditions;
"""),
(P, """static std::string sqlForUpdate(""", """static std::string columnEquals( const Value &v, const TableColumnInfo &c )
{
  const std::string name = quotedIdentifier( c.name );
  return v.type() == Value::TypeNull ? name + " IS NULL" : name + " = " + valueToSql( v, c );
}


static std::string sqlForUpdate("""),
(P, """    if ( i > 0 )
      sql += " AND ";
    if ( tbl.columns[i].isPrimaryKey )
      sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( values[i], tbl.columns[i] );
    else
    {
      if ( values[i].type() == Value::TypeNull )
        sql += quotedIdentifier( tbl.columns[i].name ) + " IS NULL";
      else
        sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( values[i], tbl.columns[i] ) ;
    }
""", """    sql += ( i == 0 ? "" : " AND " );
    sql += columnEquals( values[i], tbl.columns[i] );
"""),
(P, """        if ( autoIncrementTablesToFix.find( tableName ) == autoIncrementTablesToFix.end() )
          autoIncrementTablesToFix[tableName] = pkey;
        else
          autoIncrementTablesToFix[tableName] = std::max( autoIncrementTablesToFix[tableName], pkey );
""", """        auto known = autoIncrementTablesToFix.insert( std::make_pair( tableName, pkey ) );
        if ( !known.second && known.first->second < pkey )
          known.first->second = pkey;
"""),
(P, """  if ( !conflictCount )
  {
    // at the end, update any SEQUENCE objects if needed (this is not undone if the transaction is rolled back)
    for ( const std::pair<std::string, int64_t> &it : autoIncrementTablesToFix )
      updateSequenceObject( tableNameToSequenceName[it.first], it.second );

    transaction.commitChanges();
  }
  else
  {
    throw GeoDiffException( "Conflicts encountered while applying changes! Total " + std::to_string( conflictCount ) );
  }
""", """  if ( conflictCount > 0 )
    throw GeoDiffException( "Conflicts encountered while applying changes! Total " + std::to_string( conflictCount ) );

  for ( auto it = autoIncrementTablesToFix.begin(); it != autoIncrementTablesToFix.end(); ++it )
  {
    const std::string &seq = tableNameToSequenceName[it->first];
    updateSequenceObject( seq, it->second );
  }

  transaction.commitChanges();
"""),
(P, """    PostgresResult res( execSql( mConn, sql ) );
    int rows = res.rowCount();
    for ( int r = 0; r < rows; ++r )
    {
      if ( r == 0 )
      {
        writer.beginTable( schemaToChangesetTable( tableName, tbl ) );
      }

      ChangesetEntry e;
      e.op = ChangesetEntry::OpInsert;
      size_t numColumns = tbl.columns.size();
      for ( size_t i = 0; i < numColumns; ++i )
      {
        e.newValues.push_back( Value( resultToValue( res, r, i, tbl.columns[i] ) ) );
      }
      writer.writeEntry( e );
    }
""", """    const PostgresResult res( execSql( mConn, sql ) );
    bool headerWritten = false;
    for ( int r = 0, rows = res.rowCount(); r < rows; ++r )
    {
      if ( !headerWritten )
        writer.beginTable( schemaToChangesetTable( tableName, tbl ) );
      headerWritten = true;

      ChangesetEntry e;
      e.op = ChangesetEntry::OpInsert;
      e.newValues.resize( tbl.columns.size() );
      for ( size_t i = 0; i < tbl.columns.size(); ++i )
        e.newValues[i] = resultToValue( res, r, i, tbl.columns[i] );
      writer.writeEntry( e );
    }
"""),
]
