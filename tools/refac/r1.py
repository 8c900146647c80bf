R = "changesetreader.cpp"
W = "changesetwriter.cpp"
EDITS = [
(R, """  while ( 1 )
  {
    if ( mOffset >= mBuffer->size() )
      break;   // EOF

    int type = readByte();
    if ( type != 'T' && mCurrentTable.columnCount() == 0 )
      throwReaderError( "nextEntry: missing table record" );
    if ( type == 'T' )
    {
      readTableRecord();
      // and now continue reading, we want an entry
    }
    else if ( type == ChangesetEntry::OpInsert || type == ChangesetEntry::OpUpdate || type == ChangesetEntry::OpDelete )
    {
      int indirect = readByte();
      if ( type != ChangesetEntry::OpInsert )
        readRowValues( entry.oldValues );
      if ( type != ChangesetEntry::OpDelete )
        readRowValues( entry.newValues );

      entry.op = static_cast<ChangesetEntry::OperationType>( type );
      entry.table = &mCurrentTable;
      return true;  // we're done!
    }
    else
    {
      throwReaderError( "nextEntry: unexpected record type" );
    }
  }
  return false;
""", """  for ( ; mOffset < mBuffer->size(); )
  {
    const int recordType = readByte();
    if ( recordType == 'T' )
    {
      readTableRecord();
      continue;
    }

    if ( mCurrentTable.columnCount() == 0 )
      throwReaderError( "nextEntry: missing table record" );

    switch ( recordType )
    {
      case ChangesetEntry::OpInsert:
        readByte();
        readRowValues( entry.newValues );
        break;
      case ChangesetEntry::OpUpdate:
        readByte();
        readRowValues( entry.oldValues );
        readRowValues( entry.newValues );
        break;
      case ChangesetEntry::OpDelete:
        readByte();
        readRowValues( entry.oldValues );
        break;
      default:
        throwReaderError( "nextEntry: unexpected record type" );
    }

    entry.table = &mCurrentTable;
    entry.op = static_cast<ChangesetEntry::OperationType>( recordType );
    return true;
  }
  return false;
"""),
(R, """  const char *ptr = mBuffer->c_buf() + mOffset;
  ++mOffset;
  return *ptr;
""", """  return mBuffer->c_buf()[mOffset++];
"""),
(R, """      int64_t v;
      uint64_t x;
      checkAvailable( 8 );
      memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
      mOffset += 8;
      x = be64toh( x ); // convert big endian to host
      memcpy( &v, &x, 8 );
      values[i].setInt( v );
""", """      uint64_t x = readBigEndian64();
      values[i].setInt( static_cast<int64_t>( x ) );
"""),
(R, """      double v;
      uint64_t x;
      checkAvailable( 8 );
      memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
      mOffset += 8;
      x = be64toh( x ); // convert big endian to host
      memcpy( &v, &x, 8 );
      values[i].setDouble( v );
""", """      const uint64_t bits = readBigEndian64();
      double v;
      memcpy( &v, &bits, sizeof( v ) );
      values[i].setDouble( v );
"""),
(R, """void ChangesetReader::readTableRecord()
""", """uint64_t ChangesetReader::readBigEndian64()
{
  uint64_t x;
  checkAvailable( sizeof( x ) );
  memcpy( &x, mBuffer->c_buf() + mOffset, sizeof( x ) );
  mOffset += sizeof( x );
  return be64toh( x );
}

void ChangesetReader::readTableRecord()
"""),
("changesetreader.h", "    int readVarint();", "    uint64_t readBigEndian64();\n    int readVarint();"),
(R, """  mCurrentTable.primaryKeys.clear();

  for ( int i = 0; i < nCol; ++i )
  {
    mCurrentTable.primaryKeys.push_back( readByte() );
  }

  mCurrentTable.name = readNullTerminatedString();
""", """  std::vector<bool> keys;
  keys.reserve( nCol );
  while ( keys.size() < static_cast<size_t>( nCol ) )
    keys.push_back( readByte() != 0 );

  mCurrentTable.primaryKeys = keys;
  mCurrentTable.name = readNullTerminatedString();
"""),
(R, """  if ( values.size() != mCurrentTable.columnCount() )
  {
    values.resize( mCurrentTable.columnCount() );
  }

  for ( size_t i = 0; i < mCurrentTable.columnCount(); ++i )
  {
    int type = readByte();
""", """  const size_t count = mCurrentTable.columnCount();
  values.resize( count );

  size_t i = 0;
  for ( ; i < count; i++ )
  {
    const int type = readByte();
"""),
(R, """  const char *ptr = mBuffer->c_buf() + mOffset;
  int count = 0;
  while ( mOffset + count < mBuffer->size() && ptr[count] )
    ++count;

  if ( mOffset + count >= mBuffer->size() )
    throwReaderError( "readNullTerminatedString: at the end of buffer" );

  mOffset += count + 1;
  return std::string( ptr, count );
""", """  std::string result;
  for ( int pos = mOffset; pos < mBuffer->size(); ++pos )
  {
    const char c = mBuffer->c_buf()[pos];
    if ( c == 0 )
    {
      mOffset = pos + 1;
      return result;
    }
    result.push_back( c );
  }
  throwReaderError( "readNullTerminatedString: at the end of buffer" );
  return result;
"""),
(W, """  if ( entry.op != ChangesetEntry::OpInsert && entry.op != ChangesetEntry::OpUpdate && entry.op != ChangesetEntry::OpDelete )
    throw GeoDiffException( "wrong op for changeset entry" );
  writeByte( entry.op );
  writeByte( 0 );  // "indirect" always false

  if ( entry.op != ChangesetEntry::OpInsert )
    writeRowValues( entry.oldValues );
  if ( entry.op != ChangesetEntry::OpDelete )
    writeRowValues( entry.newValues );
""", """  const bool isInsert = entry.op == ChangesetEntry::OpInsert;
  const bool isUpdate = entry.op == ChangesetEntry::OpUpdate;
  const bool isDelete = entry.op == ChangesetEntry::OpDelete;
  if ( !( isInsert || isUpdate || isDelete ) )
    throw GeoDiffException( "wrong op for changeset entry" );

  for ( char c : { static_cast<char>( entry.op ), '\\0' } )
    writeByte( c );

  if ( isUpdate || isDelete )
    writeRowValues( entry.oldValues );
  if ( isUpdate || isInsert )
    writeRowValues( entry.newValues );
"""),
(W, """  for ( size_t i = 0; i < mCurrentTable.columnCount(); ++i )
  {
    Value::Type type = values[i].type();
    writeByte( type );
    if ( type == Value::TypeInt ) // 0x01
    {
      // 64-bit int (big endian)
      uint64_t x;
      int64_t v = values[i].getInt();
      memcpy( &x, &v, 8 );
      x = htobe64( x ); // convert host to big endian
      mFile.write( ( char * )&x, 8 );
    }
    else if ( type == Value::TypeDouble ) // 0x02
    {
      // 64-bit double (big endian)
      int64_t x;
      double v = values[i].getDouble();
      memcpy( &x, &v, 8 );
      x = htobe64( x ); // convert host to big endian
      mFile.write( ( char * )&x, 8 );
    }
    else if ( type == Value::TypeText || type == Value::TypeBlob ) // 0x03 or 0x04
    {
      const std::string &str = values[i].getString();
      writeVarint( str.size() );
      mFile.write( str.c_str(), str.size() );
    }
    else if ( type == Value::TypeNull ) // 0x05
    {
      // nothing extra to write
    }
    else if ( type == Value::TypeUndefined )  // undefined value  (different from NULL)
    {
      // nothing extra to write
    }
    else
    {
      throw GeoDiffException( "unexpected entry type" );
    }
  }
""", """  for ( const Value &value : values )
    writeValue( value );
}

void ChangesetWriter::writeValue( const Value &value )
{
  writeByte( value.type() );
  switch ( value.type() )
  {
    case Value::TypeInt:
      writeBigEndian64( static_cast<uint64_t>( value.getInt() ) );
      break;
    case Value::TypeDouble:
    {
      const double d = value.getDouble();
      uint64_t bits;
      memcpy( &bits, &d, sizeof( bits ) );
      writeBigEndian64( bits );
      break;
    }
    case Value::TypeText:
    case Value::TypeBlob:
    {
      const std::string str = value.getString();
      writeVarint( static_cast<int>( str.length() ) );
      mFile.write( str.data(), str.length() );
      break;
    }
    case Value::TypeNull:
    case Value::TypeUndefined:
      break;
    default:
      throw GeoDiffException( "unexpected entry type" );
  }
}

void ChangesetWriter::writeBigEndian64( uint64_t x )
{
  x = htobe64( x );
  mFile.write( reinterpret_cast<const char *>( &x ), sizeof( x ) );
"""),
("changesetwriter.h", "    void writeRowValues(", "    void writeValue( const Value &value );\n    void writeBigEndian64( uint64_t x );\n    void writeRowValues("),
]
