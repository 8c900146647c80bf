R = "geodiffrebase.cpp"
EDITS = [
(R, """    auto ids = mapIds.find( table );
    if ( ids == mapIds.end() )
    {
      std::map < int64_t, int64_t  > newSet;
      newSet.insert( std::pair<int64_t, int64_t>( id, id2 ) );
      mapIds[table] = newSet;
    }
    else
    {
      std::map < int64_t, int64_t  > &oldSet = ids->second;
      oldSet.insert( std::pair<int64_t, int64_t>( id, id2 ) );
    }
""", """    mapIds[table].insert( std::make_pair( id, id2 ) );
"""),
(R, """    auto mapId = mapIds.find( table );
    if ( mapId == mapIds.end() )
    {
      return false;
    }
    else
    {
      const std::map < int64_t, int64_t  > &ids = mapId->second;
      auto fid =  ids.find( id );
      return fid != ids.end();
    }
""", """    const auto mapId = mapIds.find( table );
    return mapId != mapIds.end() && mapId->second.count( id ) > 0;
"""),
(R, """    auto ids = mapIds.find( table );
    if ( ids == mapIds.end() )
    {
      throw GeoDiffException( "internal error: _get_new MappingIds" );
    }
    else
    {
      const std::map < int64_t, int64_t  > &oldSet = ids->second;
      auto a = oldSet.find( id );
      if ( a == oldSet.end() )
        throw GeoDiffException( "internal error: _get_new MappingIds" );
      return a->second;
    }
""", """    if ( !hasOldPkey( table, id ) )
      throw GeoDiffException( "internal error: _get_new MappingIds" );
    return mapIds.at( table ).at( id );
"""),
(R, """    if ( entry.op == ChangesetEntry::OpInsert )
    {
      tableInfo.inserted.insert( pk );
    }
    if ( entry.op == ChangesetEntry::OpDelete )
    {
      tableInfo.deleted.insert( pk );
    }
    if ( entry.op == ChangesetEntry::OpUpdate )
    {
      tableInfo.updated[pk] = entry.newValues;
    }
""", """    switch ( entry.op )
    {
      case ChangesetEntry::OpInsert:
        tableInfo.inserted.emplace( pk );
        break;
      case ChangesetEntry::OpDelete:
        tableInfo.deleted.insert( pk );
        break;
      case ChangesetEntry::OpUpdate:
      {
        std::vector<Value> &known = tableInfo.updated[pk];
        known = entry.newValues;
        break;
      }
    }
"""),
(R, """  for ( auto mapId : dbInfo.tables )
  {
    const std::set < int64_t > &oldSet = mapId.second.inserted;
    if ( oldSet.empty() )
      continue;  // TODO: or set 0 to free indices??

    freeIndices[mapId.first] = *std::max_element( oldSet.begin(), oldSet.end() ) + 1;
  }
""", """  for ( auto it = dbInfo.tables.begin(); it != dbInfo.tables.end(); ++it )
  {
    const std::set<int64_t> &oldSet = it->second.inserted;
    if ( !oldSet.empty() )
      freeIndices[it->first] = *oldSet.rbegin() + 1;
  }
"""),
(R, """    else if ( entry.op == ChangesetEntry::OpUpdate )
    {
      int64_t pk = _get_primary_key( entry );

      if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
      {
        // update on deleted feature...
        mapping.addPkeyMapping( tableName, pk, RebaseMapping::INVALID_FID );
      }
    }
    else if ( entry.op == ChangesetEntry::OpDelete )
    {
      int64_t pk = _get_primary_key( entry );

      if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
      {
        // delete of deleted feature...
        mapping.addPkeyMapping( tableName, pk, RebaseMapping::INVALID_FID );
      }
    }
""", """    else
    {
      const int64_t pk = _get_primary_key( entry );
      if ( tableInfo.deleted.count( pk ) != 0 )
        mapping.addPkeyMapping( tableName, pk, RebaseMapping::INVALID_FID );
    }
"""),
(R, """bool _handle_delete( const ChangesetEntry &entry,""", """static std::vector<Value> patchedValues( const TableRebaseInfo &tableInfo, int64_t pk, const ChangesetEntry &entry )
{
  const size_t numColumns = entry.table->columnCount();
  std::vector<Value> vals( numColumns );
  const auto it = tableInfo.updated.find( pk );
  if ( it != tableInfo.updated.end() )
    vals = it->second;
  if ( vals.size() != numColumns )
    throw GeoDiffException( "Wrong number of columns for table: " + entry.table->name );
  return vals;
}

bool _handle_delete( const ChangesetEntry &entry,"""),
(R, """  std::vector<Value> patchedVals;
  auto a = tableInfo.updated.find( pk );
  if ( a == tableInfo.updated.end() )
    patchedVals.resize( static_cast<size_t>( numColumns ) );
  else
    patchedVals = a->second;
  if ( patchedVals.size() != numColumns )
    throw GeoDiffException( "Wrong number of columns for table: " + entry.table->name );
""", """  const std::vector<Value> patchedVals = patchedValues( tableInfo, pk, entry );
"""),
(R, """  std::vector<Value> patchedVals;
  auto a = tableInfo.updated.find( pk );
  if ( a == tableInfo.updated.end() )
    patchedVals.resize( static_cast<size_t>( numColumns ) );
  else
    patchedVals = a->second;
  if ( patchedVals.size() != numColumns )
    throw GeoDiffException( "Wrong number of columns for table: " + entry.table->name );
""", """  const std::vector<Value> patchedVals = patchedValues( tableInfo, pk, entry );
"""),
(R, """    if ( entry.table->primaryKeys[i] && newPk != pk )
    {
      outEntry.oldValues[i].setInt( newPk );
    }
    else if ( entry.table->primaryKeys[i] )
    {
      outEntry.oldValues[i] = entry.oldValues[i];
    }
    else
    {
      // if the value was patched in the previous commit, use that one as base
      Value value;
      const Value &patchedVal = patchedVals[i];
      if ( patchedVal.type() != Value::TypeUndefined )
      {
        value = patchedVal;
      }
      else
      {
        // otherwise the value is same for both patched and this, so use base value
        value = entry.oldValues[i];
      }
      outEntry.oldValues[i] = value;
    }
""", """    Value &out = outEntry.oldValues[i];
    if ( entry.table->primaryKeys[i] )
    {
      if ( newPk != pk )
        out.setInt( newPk );
      else
        out = entry.oldValues[i];
      continue;
    }
    out = patchedVals[i].type() == Value::TypeUndefined ? entry.oldValues[i] : patchedVals[i];
"""),
(R, """    Value patchedVal = patchedVals[i];
    if ( patchedVal.type() != Value::TypeUndefined )
    {
      outEntry.oldValues[i] = patchedVal;
      // conflict for this value (unless only the other side has changed it)
      if ( entry.newValues[i].type() != Value::TypeUndefined )
        _addConflictItem( conflictFeature, i, entry.oldValues[i], patchedVal, entry.newValues[i] );
    }
    else
    {
      // otherwise the value is same for both patched and this, so use base value
      outEntry.oldValues[i] = entry.oldValues[i];
    }
  }

  outEntry.newValues = entry.newValues;

  if ( conflictFeature.isValid() )
  {
    conflicts.push_back( conflictFeature );
  }
  return true;
""", """    const bool theirs = patchedVals[i].type() != Value::TypeUndefined;
    const bool ours = entry.newValues[i].type() != Value::TypeUndefined;
    if ( theirs && ours )
      _addConflictItem( conflictFeature, static_cast<int>( i ), entry.oldValues[i], patchedVals[i], entry.newValues[i] );
    outEntry.newValues[i] = entry.newValues[i];
    outEntry.oldValues[i] = theirs ? patchedVals[i] : entry.oldValues[i];
  }

  if ( !conflictFeature.isValid() )
    return true;
  conflicts.push_back( conflictFeature );
  return true;
"""),
(R, """    if ( tableDefinitions.find( tableName ) == tableDefinitions.end() )
    {
      tableDefinitions[tableName] = *entry.table;
    }
    else if ( tableDefinitions[tableName].primaryKeys != entry.table->primaryKeys )
    {
      throw GeoDiffException( "Different definitions of table: " + tableName );
    }
""", """    auto inserted = tableDefinitions.insert( std::make_pair( tableName, *entry.table ) );
    if ( !inserted.second && inserted.first->second.primaryKeys != entry.table->primaryKeys )
      throw GeoDiffException( "Different definitions of table: " + tableName );
"""),
(R, """    bool writeEntry = false;
    ChangesetEntry outEntry;

    // commits to same table -> now save the change to changeset
    switch ( entry.op )
    {
      case ChangesetEntry::OpUpdate:
        writeEntry = _handle_update( entry, mapping, tablesIt->second, outEntry, conflicts );
        break;

      case ChangesetEntry::OpInsert:
        writeEntry = _handle_insert( entry, mapping, outEntry );
        break;

      case ChangesetEntry::OpDelete:
        writeEntry = _handle_delete( entry, mapping, tablesIt->second, outEntry );
        break;
    }

    if ( writeEntry )
      tableChanges[tableName].push_back( outEntry );
""", """    const TableRebaseInfo &info = tablesIt->second;
    ChangesetEntry outEntry;
    if ( ( entry.op == ChangesetEntry::OpInsert && _handle_insert( entry, mapping, outEntry ) ) ||
         ( entry.op == ChangesetEntry::OpDelete && _handle_delete( entry, mapping, info, outEntry ) ) ||
         ( entry.op == ChangesetEntry::OpUpdate && _handle_update( entry, mapping, info, outEntry, conflicts ) ) )
    {
      tableChanges[tableName].push_back( outEntry );
    }
"""),
(R, """  for ( auto it : tableDefinitions )
  {
    writer.beginTable( it.second );

    auto chit = tableChanges.find( it.first );
    if ( chit != tableChanges.end() )
    {
      const std::vector<ChangesetEntry> &changes = chit->second;
      for ( const ChangesetEntry &entry : changes )
      {
        writer.writeEntry( entry );
      }
    }
  }
""", """  for ( const auto &it : tableDefinitions )
  {
    writer.beginTable( it.second );
    const std::vector<ChangesetEntry> &changes = tableChanges[it.first];
    for ( size_t k = 0; k < changes.size(); ++k )
      writer.writeEntry( changes[k] );
  }
"""),
(R, """  ChangesetReader reader_BASE_THEIRS;
  if ( !reader_BASE_THEIRS.open( changeset_BASE_THEIRS ) )
  {
    Logger::instance().error( "Could not open changeset_BASE_THEIRS: " + changeset_BASE_THEIRS );
    return GEODIFF_ERROR;
  }
""", """  auto openOrReport = []( ChangesetReader &reader, const std::string &path, const std::string &what )
  {
    const bool opened = reader.open( path );
    if ( !opened )
      Logger::instance().error( "Could not open " + what + ": " + path );
    return opened;
  };

  ChangesetReader reader_BASE_THEIRS;
  if ( !openOrReport( reader_BASE_THEIRS, changeset_BASE_THEIRS, "changeset_BASE_THEIRS" ) )
    return GEODIFF_ERROR;
"""),
(R, """  if ( !reader_BASE_MODIFIED.open( changeset_BASE_MODIFIED ) )
  {
    Logger::instance().error( "Could not open changeset_BASE_MODIFIED: " + changeset_BASE_MODIFIED );
    return GEODIFF_ERROR;
  }
""", """  if ( !openOrReport( reader_BASE_MODIFIED, changeset_BASE_MODIFIED, "changeset_BASE_MODIFIED" ) )
    return GEODIFF_ERROR;
"""),
]
