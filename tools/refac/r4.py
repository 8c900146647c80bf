P = "drivers/sqlitedriver.cpp"
EDITS = [
# listing
(P, """  std::string all_tables_sql = "SELECT name FROM " + dbName + ".sqlite_master\\n"
                               " WHERE type='table' AND sql NOT LIKE 'CREATE VIRTUAL%%'\\n"
                               " ORDER BY name";
  Sqlite3Stmt statement;
  statement.prepare( mDb, "%s", all_tables_sql.c_str() );
  while ( statement.nextRow() )
  {
    const char *name = ( const char * )sqlite3_column_text( statement.get(), 0 );
    if ( !name )
      continue;

    std::string tableName( name );
""", """  Sqlite3Stmt statement;
  statement.prepare( mDb, "SELECT name FROM \\"%w\\".sqlite_master WHERE type = 'table' AND sql NOT LIKE 'CREATE VIRTUAL%%' ORDER BY name", dbName.c_str() );
  for ( ;; )
  {
    if ( !statement.nextRow() )
      break;
    const char *name = reinterpret_cast<const char *>( sqlite3_column_text( statement.get(), 0 ) );
    if ( name == nullptr )
      continue;

    const std::string tableName = name;
"""),
(P, """    // table handled by triggers trigger_*_feature_count_*
    if ( startsWith( tableName, "gpkg_ogr_contents" ) )
      continue;
    // table handled by triggers rtree_*_geometry_*
    if ( startsWith( tableName, "rtree_" ) )
      continue;
    // internal table for AUTOINCREMENT
    if ( tableName == "sqlite_sequence" )
      continue;

    tableNames.push_back( tableName );
""", """    if ( !isInternalTable( tableName ) )
      tableNames.emplace_back( tableName );
"""),
(P, """std::vector<std::string> SqliteDriver::listTables( bool useModified )
{""", """static bool isInternalTable( const std::string &tableName )
{
  static const char *const prefixes[] = { "gpkg_ogr_contents", "rtree_" };
  for ( const char *prefix : prefixes )
  {
    if ( startsWith( tableName, prefix ) )
      return true;
  }
  return tableName == "sqlite_sequence";
}

std::vector<std::string> SqliteDriver::listTables( bool useModified )
{"""),
# schema: geometry helper
(P, """    columnInfo.isNotNull = sqlite3_column_int( statement.get(), 3 );
    columnInfo.isPrimaryKey = sqlite3_column_int( statement.get(), 5 );

    if ( columnInfo.isPrimaryKey && lowercaseString( columnInfo.type ) == "integer" )
    {
      // sqlite uses auto-increment automatically for INTEGER PRIMARY KEY - https://sqlite.org/autoinc.html
      columnInfo.isAutoIncrement = true;
    }
""", """    columnInfo.isNotNull = sqlite3_column_int( statement.get(), 3 ) != 0;
    columnInfo.isPrimaryKey = sqlite3_column_int( statement.get(), 5 ) > 0;
    columnInfo.isAutoIncrement = columnInfo.isPrimaryKey && lowercaseString( columnInfo.type ) == "integer";
"""),
(P, """  if ( srsId != -1 )
  {
    Sqlite3Stmt stmtCrs;""", """  if ( srsId == -1 )
    return tbl;

  {
    Sqlite3Stmt stmtCrs;"""),
# key expression helper
(P, """//! Constructs SQL query to get all rows that do not exist in the other table (used for insert and delete)
static std::string sqlFindInserted( const std::string &tableName, const TableSchema &tbl, bool reverse )
{
  // rows are the same if their primary keys are equal. Rows with NULL in the primary key (which is possible
  // unless the key is a single integer) have no key: they are only the same if all their columns are
  std::string exprPk, exprPkNull, exprAll;
  for ( const TableColumnInfo &c : tbl.columns )
  {
    std::string columns[2];
    columns[0] = sqlitePrintf( "\\"%w\\".\\"%w\\".\\"%w\\"", "main", tableName.c_str(), c.name.c_str() );
    columns[1] = sqlitePrintf( "\\"%w\\".\\"%w\\".\\"%w\\"", "aux", tableName.c_str(), c.name.c_str() );
    if ( c.isPrimaryKey )
    {
      if ( !exprPk.empty() )
      {
        exprPk += " AND ";
        exprPkNull += " AND ";
      }
      exprPk += columns[0] + "=" + columns[1];
      exprPkNull += columns[0] + " IS " + columns[1];
    }
    if ( !exprAll.empty() )
      exprAll += " AND ";
    exprAll += columns[0] + " IS " + columns[1];
  }

  std::string sql = sqlitePrintf( "SELECT %s FROM \\"%w\\".\\"%w\\" WHERE NOT EXISTS ( SELECT 1 FROM \\"%w\\".\\"%w\\" WHERE %s AND (( %s ) OR ( %s )))",
                                  sqlAllColumns( reverse ? "aux" : "main", tableName, tbl ).c_str(),
                                  reverse ? "aux" : "main", tableName.c_str(),
                                  reverse ? "main" : "aux", tableName.c_str(), exprPkNull.c_str(), exprPk.c_str(), exprAll.c_str() );
  return sql;
}
""", """static std::string sqlSamePkey( const std::string &tableName, const TableSchema &tbl )
{
  std::vector<std::string> parts;
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    if ( !tbl.columns[i].isPrimaryKey )
      continue;
    const char *col = tbl.columns[i].name.c_str();
    parts.push_back( sqlitePrintf( "aux.\\"%w\\".\\"%w\\" = main.\\"%w\\".\\"%w\\"", tableName.c_str(), col, tableName.c_str(), col ) );
  }
  std::string expr;
  for ( size_t i = 0; i < parts.size(); ++i )
    expr += ( i == 0 ? "" : " AND " ) + parts[i];
  return expr;
}

//! Constructs SQL query to get all rows that do not exist in the other table (used for insert and delete)
static std::string sqlFindInserted( const std::string &tableName, const TableSchema &tbl, bool reverse )
{
  const char *from = "main";
  const char *other = "aux";
  if ( reverse )
    std::swap( from, other );
  // the same key, or (rows without a complete key) the same content; with keys first so that they can be looked up
  std::vector<std::string> is, keyIs;
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    const char *col = tbl.columns[i].name.c_str();
    is.push_back( sqlitePrintf( "aux.\\"%w\\".\\"%w\\" IS main.\\"%w\\".\\"%w\\"", tableName.c_str(), col, tableName.c_str(), col ) );
    if ( tbl.columns[i].isPrimaryKey )
      keyIs.push_back( is.back() );
  }
  auto join = []( const std::vector<std::string> &l )
  {
    std::string s;
    for ( const std::string &x : l )
      s += s.empty() ? x : " AND " + x;
    return s;
  };
  return sqlitePrintf( "SELECT %s FROM \\"%w\\".\\"%w\\" WHERE NOT EXISTS (SELECT * FROM \\"%w\\".\\"%w\\" WHERE %s AND (( %s ) OR ( %s )))",
                       sqlAllColumns( from, tableName, tbl ).c_str(), from, tableName.c_str(), other, tableName.c_str(), join( keyIs ).c_str(),
                       sqlSamePkey( tableName, tbl ).c_str(), join( is ).c_str() );
}
"""),
(P, """  std::string exprPk;
  std::string exprOther;
  for ( const TableColumnInfo &c : tbl.columns )
  {
    if ( c.isPrimaryKey )
    {
      if ( !exprPk.empty() )
        exprPk += " AND ";
      exprPk += sqlitePrintf( "\\"%w\\".\\"%w\\".\\"%w\\"=\\"%w\\".\\"%w\\".\\"%w\\"",
                              "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
    }
    else // not a primary key column
    {""", """  const std::string exprPk = sqlSamePkey( tableName, tbl );
  std::string exprOther;
  for ( const TableColumnInfo &c : tbl.columns )
  {
    if ( !c.isPrimaryKey )
    {"""),
# values
(P, """  int type1 = sqlite3_value_type( v1 );
  int type2 = sqlite3_value_type( v2 );
  if ( type1 != type2 )
    return false;

  if ( type1 == SQLITE_NULL )
    return true;
  else if ( type1 == SQLITE_INTEGER )
    return sqlite3_value_int64( v1 ) == sqlite3_value_int64( v2 );
  else if ( type1 == SQLITE_FLOAT )
    return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );
  else if ( type1 == SQLITE_TEXT )
  {
    const void *text1 = sqlite3_value_text( v1 );
    const void *text2 = sqlite3_value_text( v2 );
    int len1 = sqlite3_value_bytes( v1 );
    int len2 = sqlite3_value_bytes( v2 );
    return len1 == len2 && memcmp( text1, text2, len1 ) == 0;
  }
  else if ( type1 == SQLITE_BLOB )
  {
    int len1 = sqlite3_value_bytes( v1 );
    int len2 = sqlite3_value_bytes( v2 );
    if ( len1 != len2 )
      return false;
    return memcmp( sqlite3_value_blob( v1 ), sqlite3_value_blob( v2 ), len1 ) == 0;
  }
  else
  {
    throw GeoDiffException( "Unexpected value type" );
  }
}
""", """  const int type = sqlite3_value_type( v1 );
  if ( sqlite3_value_type( v2 ) != type )
    return false;

  switch ( type )
  {
    case SQLITE_NULL:
      return true;
    case SQLITE_INTEGER:
      return sqlite3_value_int64( v1 ) == sqlite3_value_int64( v2 );
    case SQLITE_FLOAT:
      return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );
    case SQLITE_TEXT:
    case SQLITE_BLOB:
      return bytesOf( v1 ) == bytesOf( v2 );
    default:
      throw GeoDiffException( "Unexpected value type" );
  }
}
"""),
(P, """static bool valuesEqual( sqlite3_value *v1""", """static std::string bytesOf( sqlite3_value *v )
{
  const char *data;
  if ( sqlite3_value_type( v ) == SQLITE_TEXT )
    data = reinterpret_cast<const char *>( sqlite3_value_text( v ) );
  else
    data = static_cast<const char *>( sqlite3_value_blob( v ) );
  int len = sqlite3_value_bytes( v );
  return len > 0 ? std::string( data, len ) : std::string();
}

static bool valuesEqual( sqlite3_value *v1"""),
(P, """static Value changesetValue( sqlite3_value *v )
{
  Value x;
  int type = sqlite3_value_type( v );
  if ( type == SQLITE_NULL )
    x.setNull();
  else if ( type == SQLITE_INTEGER )
    x.setInt( sqlite3_value_int64( v ) );
  else if ( type == SQLITE_FLOAT )
    x.setDouble( sqlite3_value_double( v ) );
  else if ( type == SQLITE_TEXT )
    x.setString( Value::TypeText, ( const char * )sqlite3_value_text( v ), sqlite3_value_bytes( v ) );
  else if ( type == SQLITE_BLOB )
    x.setString( Value::TypeBlob, ( const char * )sqlite3_value_blob( v ), sqlite3_value_bytes( v ) );
  else
    throw GeoDiffException( "Unexpected value type" );

  return x;
}
""", """static Value changesetValue( sqlite3_value *v )
{
  Value x;
  switch ( sqlite3_value_type( v ) )
  {
    case SQLITE_INTEGER:
      x.setInt( sqlite3_value_int64( v ) );
      break;
    case SQLITE_FLOAT:
      x.setDouble( sqlite3_value_double( v ) );
      break;
    case SQLITE_TEXT:
    {
      const char *text = reinterpret_cast<const char *>( sqlite3_value_text( v ) );
      x.setString( Value::TypeText, text, sqlite3_value_bytes( v ) );
      break;
    }
    case SQLITE_BLOB:
    {
      const void *data = sqlite3_value_blob( v );
      x.setString( Value::TypeBlob, static_cast<const char *>( data ), sqlite3_value_bytes( v ) );
      break;
    }
    case SQLITE_NULL:
      x.setNull();
      break;
    default:
      throw GeoDiffException( "Unexpected value type" );
  }
  return x;
}

static void beginTableOnce( const std::string &tableName, const TableSchema &tbl, ChangesetWriter &writer, bool &first )
{
  if ( !first )
    return;
  writer.beginTable( schemaToChangesetTable( tableName, tbl ) );
  first = false;
}

static std::vector<Value> rowValues( Sqlite3Stmt &statement, size_t numColumns )
{
  std::vector<Value> values;
  values.reserve( numColumns );
  for ( size_t i = 0; i < numColumns; ++i )
  {
    Sqlite3Value v( sqlite3_column_value( statement.get(), static_cast<int>( i ) ) );
    values.push_back( changesetValue( v.value() ) );
  }
  return values;
}
"""),
(P, """    if ( first )
    {
      ChangesetTable chTable = schemaToChangesetTable( tableName, tbl );
      writer.beginTable( chTable );
      first = false;
    }

    ChangesetEntry e;
    e.op = reverse ? ChangesetEntry::OpDelete : ChangesetEntry::OpInsert;

    size_t numColumns = tbl.columns.size();
    for ( size_t i = 0; i < numColumns; ++i )
    {
      Sqlite3Value v( sqlite3_column_value( statementI.get(), static_cast<int>( i ) ) );
      if ( reverse )
        e.oldValues.push_back( changesetValue( v.value() ) );
      else
        e.newValues.push_back( changesetValue( v.value() ) );
    }

    writer.writeEntry( e );
""", """    ChangesetEntry e;
    std::vector<Value> values = rowValues( statementI, tbl.columns.size() );
    if ( reverse )
    {
      e.op = ChangesetEntry::OpDelete;
      e.oldValues = values;
    }
    else
    {
      e.op = ChangesetEntry::OpInsert;
      e.newValues = values;
    }
    beginTableOnce( tableName, tbl, writer, first );
    writer.writeEntry( e );
"""),
(P, """    if ( first )
    {
      ChangesetTable chTable = schemaToChangesetTable( tableName, tbl );
      writer.beginTable( chTable );
      first = false;
    }

    /*""", """    beginTableOnce( tableName, tbl, writer, first );

    /*"""),
(P, """      bool pkey = tbl.columns[i].isPrimaryKey;
      bool updated = !valuesEqual( v1.value(), v2.value() );
      e.oldValues.push_back( ( pkey || updated ) ? changesetValue( v1.value() ) : Value() );
      e.newValues.push_back( updated ? changesetValue( v2.value() ) : Value() );
""", """      Value oldValue, newValue;
      if ( !valuesEqual( v1.value(), v2.value() ) )
      {
        oldValue = changesetValue( v1.value() );
        newValue = changesetValue( v2.value() );
      }
      else if ( tbl.columns[i].isPrimaryKey )
      {
        oldValue = changesetValue( v1.value() );
      }
      e.oldValues.push_back( oldValue );
      e.newValues.push_back( newValue );
"""),
(P, """    bool first = true;
    Sqlite3Stmt statementI;
    statementI.prepare( mDb, "SELECT %s FROM \\"%w\\".\\"%w\\"", sqlAllColumns( dbName, tableName, tbl ).c_str(), dbName.c_str(), tableName.c_str() );
    while ( statementI.nextRow() )
    {
      if ( first )
      {
        writer.beginTable( schemaToChangesetTable( tableName, tbl ) );
        first = false;
      }

      ChangesetEntry e;
      e.op = ChangesetEntry::OpInsert;
      size_t numColumns = tbl.columns.size();
      for ( size_t i = 0; i < numColumns; ++i )
      {
        Sqlite3Value v( sqlite3_column_value( statementI.get(), static_cast<int>( i ) ) );
        e.newValues.push_back( changesetValue( v.value() ) );
      }
      writer.writeEntry( e );
    }
""", """    bool first = true;
    Sqlite3Stmt statementI;
    statementI.prepare( mDb, "SELECT %s FROM \\"%w\\".\\"%w\\"", sqlAllColumns( dbName, tableName, tbl ).c_str(), dbName.c_str(), tableName.c_str() );
    while ( statementI.nextRow() )
    {
      beginTableOnce( tableName, tbl, writer, first );
      ChangesetEntry e;
      e.op = ChangesetEntry::OpInsert;
      e.newValues = rowValues( statementI, tbl.columns.size() );
      writer.writeEntry( e );
    }
"""),
# compare tables first
(P, """  for ( const std::string &tableName : tablesBase )
  {
    TableSchema tbl = tableSchema( tableName );
    TableSchema tblNew = tableSchema( tableName, true );

    // test that table schema in the modified is the same
    if ( tbl != tblNew )
      throw GeoDiffException( "table schemas are not the same for table: " + tableName );

    if ( !tbl.hasPrimaryKey() )
      continue;  // ignore tables without primary key - they can't be compared properly

    bool first = true;

    handleInserted( tableName, tbl, false, mDb, writer, first );  // INSERT
    handleInserted( tableName, tbl, true, mDb, writer, first );   // DELETE
    handleUpdated( tableName, tbl, mDb, writer, first );          // UPDATE
  }
""", """  for ( size_t i = 0; i < tablesBase.size(); i++ )
  {
    const std::string &tableName = tablesBase[i];
    const TableSchema tblNew = tableSchema( tableName, true );
    const TableSchema tbl = tableSchema( tableName, false );

    // test that table schema in the modified is the same
    if ( !( tbl == tblNew ) )
      throw GeoDiffException( "table schemas are not the same for table: " + tableName );

    if ( tbl.hasPrimaryKey() )
    {
      bool first = true;
      for ( int reverse = 0; reverse < 2; ++reverse )
        handleInserted( tableName, tbl, reverse == 1, mDb, writer, first );
      handleUpdated( tableName, tbl, mDb, writer, first );
    }
  }
"""),
(P, """  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    if ( i > 0 )
      sql += ", ";
    sql += sqlitePrintf( "\\"%w\\"", tbl.columns[i].name.c_str() );
  }
  sql += ") VALUES (";
  for ( size_t i = 0; i < tbl.columns.size(); ++i )
  {
    if ( i > 0 )
      sql += ", ";
    sql += "?";
  }
  sql += ")";
  return sql;
""", """  std::string marks;
  const char *separator = "";
  for ( const TableColumnInfo &c : tbl.columns )
  {
    sql += separator + sqlitePrintf( "\\"%w\\"", c.name.c_str() );
    marks += separator;
    marks += '?';
    separator = ", ";
  }
  return sql + ") VALUES (" + marks + ")";
"""),
(P, """    sql += sqlitePrintf( "\\"%w\\" IS ?", tbl.columns[i].name.c_str() );
""", """    sql += sqlitePrintf( "\\"%w\\" %s ?", tbl.columns[i].name.c_str(), "IS" );
"""),
(P, """  int rc;
  if ( v.type() == Value::TypeInt )
    rc = sqlite3_bind_int64( stmt, index, v.getInt() );
  else if ( v.type() == Value::TypeDouble )
    rc = sqlite3_bind_double( stmt, index, v.getDouble() );
  else if ( v.type() == Value::TypeNull )
    rc = sqlite3_bind_null( stmt, index );
  else if ( v.type() == Value::TypeText )
    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
  else if ( v.type() == Value::TypeBlob )
    rc = sqlite3_bind_blob( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
  else
    throw GeoDiffException( "unexpected bind type" );

  if ( rc != SQLITE_OK )
    throw GeoDiffException( "bind failed" );
}
""", """  int rc = SQLITE_ERROR;
  switch ( v.type() )
  {
    case Value::TypeInt:
      rc = sqlite3_bind_int64( stmt, index, v.getInt() );
      break;
    case Value::TypeDouble:
      rc = sqlite3_bind_double( stmt, index, v.getDouble() );
      break;
    case Value::TypeNull:
      rc = sqlite3_bind_null( stmt, index );
      break;
    case Value::TypeText:
    case Value::TypeBlob:
    {
      const std::string &str = v.getString();
      if ( v.type() == Value::TypeText )
        rc = sqlite3_bind_text( stmt, index, str.data(), static_cast<int>( str.size() ), SQLITE_TRANSIENT );
      else
        rc = sqlite3_bind_blob( stmt, index, str.data(), static_cast<int>( str.size() ), SQLITE_TRANSIENT );
      break;
    }
    default:
      throw GeoDiffException( "unexpected bind type" );
  }

  if ( rc != SQLITE_OK )
    throw GeoDiffException( "bind failed" );
}

static void runTriggerCommand( std::shared_ptr<Sqlite3Db> db, const std::string &cmd )
{
  Sqlite3Stmt statement;
  statement.prepare( db, "%s", cmd.c_str() );
  if ( sqlite3_step( statement.get() ) != SQLITE_DONE )
    throw GeoDiffException( "Unable to remove or restore a trigger" );
}

static void checkTable( const TableSchema &tbl, const ChangesetTable &table )
{
  if ( tbl.columns.empty() )
    throw GeoDiffException( "No such table: " + table.name );

  if ( tbl.columns.size() != table.columnCount() )
    throw GeoDiffException( "Wrong number of columns for table: " + table.name );

  size_t i = 0;
  for ( const TableColumnInfo &c : tbl.columns )
  {
    if ( c.isPrimaryKey != table.primaryKeys[i++] )
      throw GeoDiffException( "Mismatch of primary keys in table: " + table.name );
  }
}

static int applyDelete( std::shared_ptr<Sqlite3Db> db, sqlite3_stmt *stmt, const ChangesetEntry &entry )
{
  int conflicts = 0;
  int index = 1;
  for ( const Value &v : entry.oldValues )
    bindValue( stmt, index++, v );
  if ( sqlite3_step( stmt ) != SQLITE_DONE )
  {
    logApplyConflict( "delete_failed", entry );
    ++conflicts;
  }
  if ( !sqlite3_changes( db->get() ) )
  {
    logApplyConflict( "delete_nothing", entry );
    ++conflicts;
  }
  sqlite3_reset( stmt );
  return conflicts;
}
"""),
(P, """  Sqlite3Stmt statament;
  for ( std::string name : triggerNames )
  {
    statament.prepare( mDb, "drop trigger \\"%w\\"", name.c_str() );
    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
      throw GeoDiffException( "Unable to remove or restore a trigger" );
    statament.close();
  }
""", """  for ( size_t i = 0; i < triggerNames.size(); ++i )
    runTriggerCommand( mDb, sqlitePrintf( "DROP TRIGGER \\"%w\\"", triggerNames[i].c_str() ) );
"""),
(P, """  for ( std::string cmd : triggerCmds )
  {
    statament.prepare( mDb, "%s", cmd.c_str() );
    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
      throw GeoDiffException( "Unable to remove or restore a trigger" );
    statament.close();
  }

  if ( !conflictCount )
  {
    savepointTransaction.commitChanges();
  }
  else
  {
    throw GeoDiffException( "Conflicts encountered while applying changes! Total " + std::to_string( conflictCount ) );
  }
""", """  for ( const std::string &cmd : triggerCmds )
    runTriggerCommand( mDb, cmd );

  if ( conflictCount > 0 )
    throw GeoDiffException( "Conflicts encountered while applying changes! Total " + std::to_string( conflictCount ) );

  savepointTransaction.commitChanges();
"""),
(P, """      if ( tbl.columns.size() == 0 )
        throw GeoDiffException( "No such table: " + tableName );

      if ( tbl.columns.size() != entry.table->columnCount() )
        throw GeoDiffException( "Wrong number of columns for table: " + tableName );

      for ( size_t i = 0; i < entry.table->columnCount(); ++i )
      {
        if ( tbl.columns[i].isPrimaryKey != entry.table->primaryKeys[i] )
          throw GeoDiffException( "Mismatch of primary keys in table: " + tableName );
      }
""", """      checkTable( tbl, *entry.table );
"""),
(P, """      for ( size_t i = 0; i < tbl.columns.size(); ++i )
      {
        const Value &v = entry.oldValues[i];
        bindValue( stmtDelete->get(), static_cast<int>( i ) + 1, v );
      }
      if ( sqlite3_step( stmtDelete->get() ) != SQLITE_DONE )
      {
        // a foreign key constraint must have been violated
        logApplyConflict( "delete_failed", entry );
        ++conflictCount;
      }
      if ( sqlite3_changes( mDb->get() ) == 0 )
      {
        // either the row with such pkey does not exist or its data have been modified
        logApplyConflict( "delete_nothing", entry );
        ++conflictCount;
      }
      sqlite3_reset( stmtDelete->get() );
""", """      conflictCount += applyDelete( mDb, stmtDelete->get(), entry );
"""),
(P, """        const Value &vOld = entry.oldValues[i];
        const Value &vNew = entry.newValues[i];
        if ( sqlite3_bind_int( stmtUpdate->get(), static_cast<int>( i ) * 3 + 2, vNew.type() != Value::TypeUndefined ) != SQLITE_OK )
          throw GeoDiffException( "bind failed" );
        if ( vOld.type() != Value::TypeUndefined )
          bindValue( stmtUpdate->get(), static_cast<int>( i ) * 3 + 1, vOld );
        if ( vNew.type() != Value::TypeUndefined )
          bindValue( stmtUpdate->get(), static_cast<int>( i ) * 3 + 3, vNew );
""", """        const Value &vOld = entry.oldValues[i];
        const Value &vNew = entry.newValues[i];
        const int index = static_cast<int>( 3 * i + 1 );
        const bool modified = vNew.type() != Value::TypeUndefined;
        if ( vOld.type() != Value::TypeUndefined )
          bindValue( stmtUpdate->get(), index, vOld );
        if ( modified )
          bindValue( stmtUpdate->get(), index + 2, vNew );
        if ( sqlite3_bind_int( stmtUpdate->get(), index + 1, modified ? 1 : 0 ) != SQLITE_OK )
          throw GeoDiffException( "bind failed" );
"""),
(P, """  Sqlite3Stmt stmtCheck;
  stmtCheck.prepare( db, "select count(*) from gpkg_spatial_ref_sys where srs_id = %d;", crs.srsId );
  int res = sqlite3_step( stmtCheck.get() );
  if ( res != SQLITE_ROW )
    throw GeoDiffException( "Failed to access gpkg_spatial_ref_sys table" );

  if ( sqlite3_column_int( stmtCheck.get(), 0 ) )
    return;  // already there
""", """  int res = 0;
  {
    Sqlite3Stmt stmtCheck;
    stmtCheck.prepare( db, "SELECT 1 FROM gpkg_spatial_ref_sys WHERE srs_id = %d", crs.srsId );
    if ( stmtCheck.nextRow() )
      return;  // already there
  }
"""),
(P, """      if ( c.isPrimaryKey )
      {
        if ( !pkeyCols.empty() )
          pkeyCols += ", ";
        pkeyCols += sqlitePrintf( "\\"%w\\"", c.name.c_str() );
      }
    }

    sql = sqlitePrintf( "CREATE TABLE \\"%w\\".\\"%w\\" (", "main", tbl.name.c_str() );
    sql += columns;
    sql += ", PRIMARY KEY (" + pkeyCols + ")";
    sql += ");";
""", """      if ( !c.isPrimaryKey )
        continue;
      pkeyCols += ( pkeyCols.empty() ? "" : ", " ) + sqlitePrintf( "\\"%w\\"", c.name.c_str() );
    }

    sql = sqlitePrintf( "CREATE TABLE main.\\"%w\\" (%s, PRIMARY KEY (%s));", tbl.name.c_str(), columns.c_str(), pkeyCols.c_str() );
"""),
(P, """  if ( !triggerNames.empty() )
  {
    std::string msg = "Unable to perform rebase for database with unknown triggers:\\n";
    for ( size_t i = 0; i < triggerNames.size(); ++i )
      msg += triggerNames[i] + "\\n";
    throw GeoDiffException( msg );
  }

  ForeignKeys fks = sqliteForeignKeys( mDb, dbName );
  if ( !fks.empty() )
  {
    throw GeoDiffException( "Unable to perform rebase for database with foreign keys" );
  }
""", """  if ( !sqliteForeignKeys( mDb, dbName ).empty() )
    throw GeoDiffException( "Unable to perform rebase for database with foreign keys" );

  if ( triggerNames.empty() )
    return;

  std::string msg = "Unable to perform rebase for database with unknown triggers:\\n";
  for ( const std::string &name : triggerNames )
    msg += name + "\\n";
  throw GeoDiffException( msg );
"""),
(P, """  DriverParametersMap::const_iterator connModifiedIt = conn.find( "modified" );
  mHasModified = connModifiedIt != conn.end();

  std::string base = connBaseIt->second;
  if ( !fileexists( base ) )
  {
    throw GeoDiffException( "Missing 'base' file when opening sqlite driver: " + base );
  }

  mDb = std::make_shared<Sqlite3Db>();
  if ( mHasModified )
  {
    std::string modified = connModifiedIt->second;

    if ( !fileexists( modified ) )
    {
      throw GeoDiffException( "Missing 'modified' file when opening sqlite driver: " + base );
    }

    mDb->open( modified );
""", """  const std::string base = connBaseIt->second;
  if ( !fileexists( base ) )
    throw GeoDiffException( "Missing 'base' file when opening sqlite driver: " + base );

  mHasModified = conn.count( "modified" ) > 0;
  mDb = std::make_shared<Sqlite3Db>();
  if ( mHasModified )
  {
    const std::string modified = conn.at( "modified" );
    if ( !fileexists( modified ) )
      throw GeoDiffException( "Missing 'modified' file when opening sqlite driver: " + base );

    mDb->open( modified );
"""),
]
