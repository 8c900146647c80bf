From 74ca5d608f0c0eefefe3b227f696d00b56f3b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:11 +0000
Subject: [PATCH 01/49] fix: rebase with an empty changeset overwrote its input
 instead of writing the output

---
 geodiff/src/geodiffrebase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 1bc459b..1bfb0a7 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -579,7 +579,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_THEIRS.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2theirs) --\n" );
-    filecopy( changeset_BASE_MODIFIED, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
@@ -592,7 +592,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_MODIFIED.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2modified) --\n" );
-    filecopy( changeset_BASE_THEIRS, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
-- 
2.43.0


From 6b3e8b765a070f7f35867383c418b97fb8e41dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 02/49] fix: comparing two NULL values fell off the end of the
 function

---
 geodiff/src/changeset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 89ee970..533f69a 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -52,7 +52,7 @@ struct Value
     {
       if ( mType != other.mType )
         return false;
-      if ( mType == TypeUndefined || mType == TypeUndefined )
+      if ( mType == TypeUndefined || mType == TypeNull )
         return true;
       if ( mType == TypeInt )
         return getInt() == other.getInt();
-- 
2.43.0


From 468219b86df0a63d116018705222f1b602eae429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:32 +0000
Subject: [PATCH 03/49] fix: errors were not logged by default and the default
 logger dropped infos

---
 geodiff/src/geodifflogger.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodifflogger.cpp b/geodiff/src/geodifflogger.cpp
index 8350f4d..ea41915 100644
--- a/geodiff/src/geodifflogger.cpp
+++ b/geodiff/src/geodifflogger.cpp
@@ -15,7 +15,7 @@ int _envInt( const char *key )
   {
     return atoi( val );
   }
-  return 0;
+  return -1;  // not set
 }
 
 void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
@@ -28,6 +28,9 @@ void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
     case LevelWarning:
       std::cout << "Warn: " << msg << std::endl;
       break;
+    case LevelInfo:
+      std::cout << "Info: " << msg << std::endl;
+      break;
     case LevelDebug:
       std::cout << "Debug: " << msg << std::endl;
       break;
-- 
2.43.0


From 74c7f0a7f7eac571e83fa601b831db4a529a6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:23 +0000
Subject: [PATCH 04/49] fix: changeset files that could not be opened or
 completely written were reported as written

---
 geodiff/src/changesetwriter.cpp |  7 +++++++
 geodiff/src/changesetwriter.h   |  3 +++
 geodiff/src/geodiff.cpp         | 13 ++++++++++---
 geodiff/src/geodiffrebase.cpp   |  1 +
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/changesetwriter.cpp b/geodiff/src/changesetwriter.cpp
index 3b7b6fe..3bba7e8 100644
--- a/geodiff/src/changesetwriter.cpp
+++ b/geodiff/src/changesetwriter.cpp
@@ -28,6 +28,13 @@ bool ChangesetWriter::open( const std::string &filename )
   return true;
 }
 
+void ChangesetWriter::close()
+{
+  mFile.close();
+  if ( !mFile )
+    throw GeoDiffException( "Unable to write the changeset file" );
+}
+
 void ChangesetWriter::beginTable( const ChangesetTable &table )
 {
   mCurrentTable = table;
diff --git a/geodiff/src/changesetwriter.h b/geodiff/src/changesetwriter.h
index 81a40b8..655afdf 100644
--- a/geodiff/src/changesetwriter.h
+++ b/geodiff/src/changesetwriter.h
@@ -27,6 +27,9 @@ class ChangesetWriter
     //! opens a file for writing changeset (will overwrite if it exists already)
     bool open( const std::string &filename );
 
+    //! Finishes writing, throws GeoDiffException if anything could not be written
+    void close();
+
     //! writes table information, all subsequent writes will be related to this table until next call to beginTable()
     void beginTable( const ChangesetTable &table );
 
diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index ff4da8d..8bc7e49 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -95,6 +95,7 @@ int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraIn
     if ( !writer.open( changeset ) )
       throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->createChangeset( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -349,6 +350,7 @@ int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
   try
   {
     invertChangeset( reader, writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -525,8 +527,10 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // get source data
     {
       ChangesetWriter writer;
-      writer.open( tmpFileChangeset.c_path() );
+      if ( !writer.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
       driverSrc->dumpData( writer );
+      writer.close();
     }
 
     // create destination
@@ -542,7 +546,8 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // insert data to destination
     {
       ChangesetReader reader;
-      reader.open( tmpFileChangeset.c_path() );
+      if ( !reader.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for reading: " + tmpFileChangeset.path() );
       driverDst->applyChangeset( reader );
     }
   }
@@ -584,8 +589,10 @@ int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const
 
     // get source data
     ChangesetWriter writer;
-    writer.open( changeset );
+    if ( !writer.open( changeset ) )
+      throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->dumpData( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 1bfb0a7..e2a02cf 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -559,6 +559,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
     }
   }
 
+  writer.close();
   return GEODIFF_SUCCESS;
 }
 
-- 
2.43.0


From 57ca634b5a756dd5efbb28f6fbaaa9d4c44027ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:23 +0000
Subject: [PATCH 05/49] fix: failures writing or copying output files were
 ignored

---
 geodiff/src/geodiff.cpp      |  3 ++-
 geodiff/src/geodiffutils.cpp | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 8bc7e49..ddf2512 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -299,13 +299,14 @@ static int listChangesJSON( const char *changeset, const char *jsonfile, bool on
       res = changesetToJSONSummary( reader );
     else
       res = changesetToJSON( reader );
+
+    flushString( jsonfile, res );
   }
   catch ( GeoDiffException exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
   }
-  flushString( jsonfile, res );
   return GEODIFF_SUCCESS;
 }
 
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 15368b9..800c39b 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -188,8 +188,11 @@ void Buffer::write( const std::string &filename )
   {
     throw GeoDiffException( "Unable to open " + filename + " for writing" );
   }
-  fwrite( mZ, mAlloc, 1, f );
-  fclose( f );
+  size_t written = fwrite( mZ, 1, mAlloc, f );
+  if ( fclose( f ) != 0 || written != ( size_t )mAlloc )
+  {
+    throw GeoDiffException( "Unable to write " + filename );
+  }
 }
 
 const char *Buffer::c_buf() const
@@ -288,7 +291,13 @@ void filecopy( const std::string &to, const std::string &from )
   std::ifstream  src( from, std::ios::binary );
   std::ofstream  dst( to,   std::ios::binary );
 
-  dst << src.rdbuf();
+  if ( !src )
+    throw GeoDiffException( "Unable to open " + from );
+  if ( src.peek() != std::ifstream::traits_type::eof() )  // copying nothing would set the fail bit
+    dst << src.rdbuf();
+  dst.close();
+  if ( !dst || src.bad() )
+    throw GeoDiffException( "Unable to copy " + from + " to " + to );
 #endif
 }
 
@@ -444,6 +453,8 @@ void flushString( const std::string &filename, const std::string &str )
   std::ofstream out( filename );
   out << str;
   out.close();
+  if ( !out )
+    throw GeoDiffException( "Unable to write " + filename );
 }
 
 std::string getEnvVar( std::string const &key, const std::string &defaultVal )
-- 
2.43.0


From 6f0b9217ccfcb849ca8552b9826a837f1ec969b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:39 +0000
Subject: [PATCH 06/49] fix: file sizes over 2 GB overflowed and a failed
 reallocation leaked

---
 geodiff/src/geodiffutils.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 800c39b..55261ba 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -12,6 +12,7 @@
 #include <stdlib.h>
 #include <stdarg.h>
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 #include <sqlite3.h>
 #include <exception>
@@ -108,6 +109,11 @@ void Buffer::read( const std::string &filename )
     fclose( fp );
     throw GeoDiffException( "Unable to read file size of " + filename );
   }
+  if ( off_end > INT_MAX )
+  {
+    fclose( fp );
+    throw GeoDiffException( "File is too large: " + filename );
+  }
   mAlloc = ( size_t )off_end;
   mUsed = mAlloc;
 
@@ -173,8 +179,10 @@ void Buffer::printf( const char *zFormat, ... )
       break;
     }
     mAlloc = mAlloc * 2 + 1000;
-    mZ = ( char * ) sqlite3_realloc( mZ, mAlloc );
-    if ( mZ == nullptr )
+    char *mem = ( char * ) sqlite3_realloc( mZ, mAlloc );
+    if ( mem )
+      mZ = mem;
+    else
     {
       throw GeoDiffException( "out of memory in Buffer::printf" );
     }
-- 
2.43.0


From 14687dc07c76025644d7047d0f5bb1a31bae3d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:05 +0000
Subject: [PATCH 07/49] fix: reading truncated or corrupted changesets accessed
 memory out of bounds or skipped unknown records

---
 geodiff/src/changesetreader.cpp | 27 +++++++++++++++++++++++----
 geodiff/src/changesetreader.h   |  1 +
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 27ca43c..b3485ec 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -43,6 +43,8 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
       break;   // EOF
 
     int type = readByte();
+    if ( type != 'T' && mCurrentTable.columnCount() == 0 )
+      throwReaderError( "nextEntry: missing table record" );
     if ( type == 'T' )
     {
       readTableRecord();
@@ -60,6 +62,10 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
       entry.table = &mCurrentTable;
       return true;  // we're done!
     }
+    else
+    {
+      throwReaderError( "nextEntry: unexpected record type" );
+    }
   }
   return false;
 }
@@ -87,8 +93,14 @@ char ChangesetReader::readByte()
 int ChangesetReader::readVarint()
 {
   u32 value;
-  const unsigned char *ptr = ( const unsigned char * )mBuffer->c_buf() + mOffset;
+  unsigned char ptr[9] = { 0 };  // a varint has 1-9 bytes, zeros end it at the end of the buffer
+  int available = mBuffer->size() - mOffset;
+  if ( available > 9 )
+    available = 9;
+  memcpy( ptr, mBuffer->c_buf() + mOffset, available );
   int nBytes = getVarint32( ptr, value );
+  if ( nBytes > available )
+    throwReaderError( "readVarint: at the end of buffer" );
   mOffset += nBytes;
   return value;
 }
@@ -123,6 +135,7 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit int (big endian)
       int64_t v;
       uint64_t x;
+      checkAvailable( 8 );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -134,6 +147,7 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit double (big endian)
       double v;
       uint64_t x;
+      checkAvailable( 8 );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -143,8 +157,7 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
     else if ( type == Value::TypeText || type == Value::TypeBlob ) // 0x03 or 0x04
     {
       int len = readVarint();
-      if ( mOffset + len > mBuffer->size() )
-        throwReaderError( "readRowValues: text/blob: at the end of buffer" );
+      checkAvailable( len );
       values[i].setString( type == Value::TypeText ? Value::TypeText : Value::TypeBlob, mBuffer->c_buf() + mOffset, len );
       mOffset += len;
     }
@@ -174,7 +187,7 @@ void ChangesetReader::readTableRecord()
   */
 
   int nCol = readVarint();
-  if ( nCol < 0 || nCol > 65536 )
+  if ( nCol < 1 || nCol > 65536 )
     throwReaderError( "readByte: unexpected number of columns" );
 
   mCurrentTable.primaryKeys.clear();
@@ -188,6 +201,12 @@ void ChangesetReader::readTableRecord()
 }
 
 
+void ChangesetReader::checkAvailable( int count )
+{
+  if ( count < 0 || count > mBuffer->size() - mOffset )
+    throwReaderError( "readRowValues: at the end of buffer" );
+}
+
 void ChangesetReader::throwReaderError( const std::string &message )
 {
   std::ostringstream stringStream;
diff --git a/geodiff/src/changesetreader.h b/geodiff/src/changesetreader.h
index 46f9f10..9ff3583 100644
--- a/geodiff/src/changesetreader.h
+++ b/geodiff/src/changesetreader.h
@@ -46,6 +46,7 @@ class ChangesetReader
     void readRowValues( std::vector<Value> &values );
     void readTableRecord();
 
+    void checkAvailable( int count );
     void throwReaderError( const std::string &message );
 
     int mOffset = 0;  // where are we in the buffer
-- 
2.43.0


From 6056bfc19f28a13f2178120385406b9a0f944ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:38 +0000
Subject: [PATCH 08/49] fix: entries were applied under a changed definition of
 the same table without any check

---
 geodiff/src/changesetutils.cpp         | 2 +-
 geodiff/src/drivers/postgresdriver.cpp | 4 +++-
 geodiff/src/drivers/sqlitedriver.cpp   | 4 +++-
 geodiff/src/geodiffrebase.cpp          | 8 ++++++++
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 2d9b5dd..f348051 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -29,7 +29,7 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
   while ( reader.nextEntry( entry ) )
   {
     assert( entry.table );
-    if ( entry.table->name != currentTableName )
+    if ( entry.table->name != currentTableName || entry.table->primaryKeys != currentPkeys )
     {
       writer.beginTable( *entry.table );
       currentTableName = entry.table->name;
diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index b078586..fd86bb7 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -730,6 +730,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
     throw GeoDiffException( "Not connected to a database" );
 
   std::string lastTableName;
+  std::vector<bool> lastPrimaryKeys;
   TableSchema tbl;
 
   int autoIncrementPkeyIndex = -1;
@@ -749,9 +750,10 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
     if ( tableName.rfind( "gpkg_", 0 ) == 0 )
       continue;   // skip any changes to GPKG meta tables
 
-    if ( tableName != lastTableName )
+    if ( tableName != lastTableName || entry.table->primaryKeys != lastPrimaryKeys )
     {
       lastTableName = tableName;
+      lastPrimaryKeys = entry.table->primaryKeys;
       tbl = tableSchema( tableName );
 
       if ( tbl.columns.size() == 0 )
diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index fd237ab..54f3eff 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -669,6 +669,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
 void SqliteDriver::applyChangeset( ChangesetReader &reader )
 {
   std::string lastTableName;
+  std::vector<bool> lastPrimaryKeys;
   std::unique_ptr<Sqlite3Stmt> stmtInsert, stmtUpdate, stmtDelete;
   TableSchema tbl;
 
@@ -700,10 +701,11 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   ChangesetEntry entry;
   while ( reader.nextEntry( entry ) )
   {
-    if ( entry.table->name != lastTableName )
+    if ( entry.table->name != lastTableName || entry.table->primaryKeys != lastPrimaryKeys )
     {
       std::string tableName = entry.table->name;
       lastTableName = tableName;
+      lastPrimaryKeys = entry.table->primaryKeys;
       tbl = tableSchema( tableName );
 
       if ( tbl.columns.size() == 0 )
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index e2a02cf..4bad6fb 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -395,6 +395,8 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
     patchedVals.resize( static_cast<size_t>( numColumns ) );
   else
     patchedVals = a->second;
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "Wrong number of columns for table: " + entry.table->name );
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
@@ -461,6 +463,8 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
     patchedVals.resize( static_cast<size_t>( numColumns ) );
   else
     patchedVals = a->second;
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "Wrong number of columns for table: " + entry.table->name );
 
   ConflictFeature conflictFeature( pk, entry.table->name );
 
@@ -504,6 +508,10 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
     {
       tableDefinitions[tableName] = *entry.table;
     }
+    else if ( tableDefinitions[tableName].primaryKeys != entry.table->primaryKeys )
+    {
+      throw GeoDiffException( "Different definitions of table: " + tableName );
+    }
 
     auto tablesIt = dbInfo.tables.find( tableName );
     if ( tablesIt == dbInfo.tables.end() )
-- 
2.43.0


From 15af5eb9cdafe79626b875ed6c88ef1a92c5dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:38 +0000
Subject: [PATCH 09/49] fix: counting the changes of a malformed changeset let
 an exception out of the C interface

---
 geodiff/src/geodiff.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index ddf2512..8a6f635 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -271,8 +271,16 @@ int GEODIFF_changesCount( const char *changeset )
 
   int changesCount = 0;
   ChangesetEntry entry;
-  while ( reader.nextEntry( entry ) )
-    ++changesCount;
+  try
+  {
+    while ( reader.nextEntry( entry ) )
+      ++changesCount;
+  }
+  catch ( GeoDiffException exc )
+  {
+    Logger::instance().error( exc );
+    return -1;
+  }
 
   return changesCount;
 }
-- 
2.43.0


From fd0567fbf64a07f896f48e13603c7eaf57c1d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:38 +0000
Subject: [PATCH 10/49] fix: NULL arguments crashed some functions of the C
 interface

---
 geodiff/src/geodiff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 8a6f635..556281a 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -155,7 +155,7 @@ int GEODIFF_createRebasedChangeset( const char *base,
                                     const char *conflictfile
                                   )
 {
-  if ( !conflictfile )
+  if ( !base || !modified || !changeset_their || !changeset || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangeset" );
     return GEODIFF_ERROR;
@@ -330,7 +330,7 @@ int GEODIFF_listChangesSummary( const char *changeset, const char *jsonfile )
 
 int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
 {
-  if ( !changeset )
+  if ( !changeset || !changeset_inv )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_invertChangeset" );
     return GEODIFF_ERROR;
@@ -409,7 +409,7 @@ int GEODIFF_rebaseEx( const char *driverName,
                       const char *base2their,
                       const char *conflictfile )
 {
-  if ( !base || !modified || !modified || !conflictfile )
+  if ( !driverName || !base || !modified || !base2their || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_rebase" );
     return GEODIFF_ERROR;
-- 
2.43.0


From 06fab29e4adb673ad86c03243787a49133db91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:15 +0000
Subject: [PATCH 11/49] fix: a delete that matched no row was not counted as a
 conflict with PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index fd86bb7..097c496 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -829,6 +829,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
       if ( res.affectedRows() != "1" )
       {
         logApplyConflict( "delete_nothing", entry );
+        ++conflictCount;
         Logger::instance().warn( "Wrong number of affected rows! Expected 1, got: " + res.affectedRows() );
       }
     }
-- 
2.43.0


From 3b4c7e25b8ed4b9bbd6dc202edca90915e33abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:15 +0000
Subject: [PATCH 12/49] fix: updates between NULL and a value were not found
 with PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 097c496..8329519 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -388,7 +388,7 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
 
       std::string colBase = "b." + quotedIdentifier( c.name );
       std::string colModified = "a." + quotedIdentifier( c.name );
-      exprOther += "NOT ((" + colBase + " IS NULL AND " + colModified + " IS NULL) OR (" + colBase + " = " + colModified + "))";
+      exprOther += "(" + colBase + " IS DISTINCT FROM " + colModified + ")";
     }
   }
 
-- 
2.43.0


From 221edab2bac7e4191d8ac717aa3f7a8356b30251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:15 +0000
Subject: [PATCH 13/49] fix: tables with primary key columns only could not be
 compared

---
 geodiff/src/drivers/postgresdriver.cpp | 3 +++
 geodiff/src/drivers/sqlitedriver.cpp   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 8329519..b6a84e4 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -392,6 +392,9 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
     }
   }
 
+  if ( exprOther.empty() )
+    exprOther = "FALSE";  // only primary key columns: nothing can be modified
+
   std::string sql = "SELECT " + allColumnNames( tbl, "a" ) + ", " + allColumnNames( tbl, "b" ) + " FROM " +
                     quotedIdentifier( schemaNameModified ) + "." + quotedIdentifier( tableName ) + " a, " +
                     quotedIdentifier( schemaNameBase ) + "." + quotedIdentifier( tableName ) + " b" +
diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 54f3eff..107b652 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -387,6 +387,9 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
     }
   }
 
+  if ( exprOther.empty() )
+    exprOther = "0";  // only primary key columns: nothing can be modified
+
   std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
                                   "main", tableName.c_str(), "aux", tableName.c_str(), exprPk.c_str(), exprOther.c_str() );
   return sql;
-- 
2.43.0


From c089904938c967ae2f87437077654a439d62dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:15 +0000
Subject: [PATCH 14/49] fix: table and trigger names with special characters
 were not quoted in SQL

---
 geodiff/src/drivers/postgresdriver.cpp | 8 ++++----
 geodiff/src/drivers/sqlitedriver.cpp   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index b6a84e4..f499f0e 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -360,9 +360,9 @@ static std::string sqlFindInserted( const std::string &schemaNameBase, const std
   }
 
   std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + quotedIdentifier( tableName ) +
                     " WHERE NOT EXISTS ( SELECT 1 FROM " +
-                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + quotedIdentifier( tableName ) +
                     " WHERE " + exprPk + ")";
   return sql;
 }
@@ -926,7 +926,7 @@ void PostgresDriver::createTables( const std::vector<TableSchema> &tables )
       }
     }
 
-    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + tbl.name + " (";
+    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + quotedIdentifier( tbl.name ) + " (";
     sql += columns;
     sql += ", PRIMARY KEY (" + pkeyCols + ")";
     sql += ");";
@@ -951,7 +951,7 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
       continue;  // ignore tables without primary key - they can't be compared properly
 
     std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + tableName;
+                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + quotedIdentifier( tableName );
 
     PostgresResult res( execSql( mConn, sql ) );
     int rows = res.rowCount();
diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 107b652..3b204be 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -695,7 +695,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   Sqlite3Stmt statament;
   for ( std::string name : triggerNames )
   {
-    statament.prepare( mDb, "drop trigger %s", name.c_str() );
+    statament.prepare( mDb, "drop trigger \"%w\"", name.c_str() );
     sqlite3_step( statament.get() );
     statament.close();
   }
-- 
2.43.0


From 5fffb148c2e6b1882d7b94b5ef9e918397b94578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 15/49] fix: errors while fetching rows were treated as the end
 of the data

---
 geodiff/src/drivers/sqlitedriver.cpp | 16 ++++++++--------
 geodiff/src/drivers/sqliteutils.cpp  | 22 ++++++++++++++++------
 geodiff/src/drivers/sqliteutils.h    |  2 ++
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 3b204be..418ca89 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -178,7 +178,7 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
                                " ORDER BY name";
   Sqlite3Stmt statement;
   statement.prepare( mDb, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     const char *name = ( const char * )sqlite3_column_text( statement.get(), 0 );
     if ( !name )
@@ -222,7 +222,7 @@ bool tableExists( std::shared_ptr<Sqlite3Db> db, const std::string &tableName, c
   Sqlite3Stmt stmtHasGeomColumnsInfo;
   stmtHasGeomColumnsInfo.prepare( db, "SELECT name FROM \"%w\".sqlite_master WHERE type='table' "
                                   "AND name='%q'", dbName.c_str(), tableName.c_str() );
-  return sqlite3_step( stmtHasGeomColumnsInfo.get() ) == SQLITE_ROW;
+  return stmtHasGeomColumnsInfo.nextRow();
 }
 
 TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useModified )
@@ -237,7 +237,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
 
   Sqlite3Stmt statement;
   statement.prepare( mDb, "PRAGMA '%q'.table_info('%q')", dbName.c_str(), tableName.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     const unsigned char *zName = sqlite3_column_text( statement.get(), 1 );
     if ( zName == nullptr )
@@ -269,7 +269,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
   int srsId = -1;
   Sqlite3Stmt stmtGeomCol;
   stmtGeomCol.prepare( mDb, "SELECT * FROM \"%w\".gpkg_geometry_columns WHERE table_name = '%q'", dbName.c_str(), tableName.c_str() );
-  if ( SQLITE_ROW == sqlite3_step( stmtGeomCol.get() ) )
+  if ( stmtGeomCol.nextRow() )
   {
     const unsigned char *chrColumnName = sqlite3_column_text( stmtGeomCol.get(), 1 );
     const unsigned char *chrTypeName = sqlite3_column_text( stmtGeomCol.get(), 2 );
@@ -304,7 +304,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
   {
     Sqlite3Stmt stmtCrs;
     stmtCrs.prepare( mDb, "SELECT * FROM \"%w\".gpkg_spatial_ref_sys WHERE srs_id = %d", dbName.c_str(), srsId );
-    if ( SQLITE_ROW != sqlite3_step( stmtCrs.get() ) )
+    if ( !stmtCrs.nextRow() )
       throw GeoDiffException( "Unable to find entry in gpkg_spatial_ref_sys for srs_id = " + std::to_string( srsId ) );
 
     const unsigned char *chrAuthName = sqlite3_column_text( stmtCrs.get(), 2 );
@@ -452,7 +452,7 @@ static void handleInserted( const std::string &tableName, const TableSchema &tbl
   std::string sqlInserted = sqlFindInserted( tableName, tbl, reverse );
   Sqlite3Stmt statementI;
   statementI.prepare( db, "%s", sqlInserted.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+  while ( statementI.nextRow() )
   {
     if ( first )
     {
@@ -484,7 +484,7 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
   Sqlite3Stmt statement;
   statement.prepare( db, "%s", sqlModified.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  while ( statement.nextRow() )
   {
     if ( first )
     {
@@ -952,7 +952,7 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
     bool first = true;
     Sqlite3Stmt statementI;
     statementI.prepare( mDb, "SELECT * FROM \"%w\".\"%w\"", dbName.c_str(), tableName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+    while ( statementI.nextRow() )
     {
       if ( first )
       {
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index b6c1ba6..da4def9 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -126,6 +126,16 @@ sqlite3_stmt *Sqlite3Stmt::get()
   return mStmt;
 }
 
+bool Sqlite3Stmt::nextRow()
+{
+  int rc = sqlite3_step( mStmt );
+  if ( rc != SQLITE_ROW && rc != SQLITE_DONE )
+  {
+    throw GeoDiffException( "SQL statement error: " + std::string( sqlite3_errstr( rc ) ) );
+  }
+  return rc == SQLITE_ROW;
+}
+
 void Sqlite3Stmt::close()
 {
   if ( mStmt )
@@ -233,7 +243,7 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
 
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", "select name, sql from sqlite_master where type = 'trigger'" );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  while ( statament.nextRow() )
   {
     const char *name = ( char * ) sqlite3_column_text( statament.get(), 0 );
     const char *sql = ( char * ) sqlite3_column_text( statament.get(), 1 );
@@ -300,7 +310,7 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
     {
       Sqlite3Stmt pStmt;     /* SQL statement being run */
       pStmt.prepare( db, "SELECT * FROM %s.pragma_foreign_key_list(%Q)", dbName.c_str(), fromTableName.c_str() );
-      while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+      while ( pStmt.nextRow() )
       {
         const char *fk_to_table = ( const char * )sqlite3_column_text( pStmt.get(), 2 );
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
@@ -344,7 +354,7 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
                                " ORDER BY name";
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  while ( statament.nextRow() )
   {
     const char *name = ( const char * )sqlite3_column_text( statament.get(), 0 );
     if ( !name )
@@ -409,7 +419,7 @@ std::vector<std::string> sqliteColumnNames(
   */
   const char *zTab = tableName.c_str();
   pStmt.prepare( db, "PRAGMA %s.index_list=%Q", zDb.c_str(), zTab );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( pStmt.nextRow() )
   {
     if ( sqlite3_stricmp( ( const char * )sqlite3_column_text( pStmt.get(), 3 ), "pk" ) == 0 )
     {
@@ -425,7 +435,7 @@ std::vector<std::string> sqliteColumnNames(
     int nCol = 0;
     truePk = 0;
     pStmt.prepare( db, "PRAGMA %s.index_xinfo=%Q", zDb.c_str(), zPkIdxName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+    while ( pStmt.nextRow() )
     {
       nCol++;
       if ( sqlite3_column_int( pStmt.get(), 5 ) ) { nKey++; continue; }
@@ -451,7 +461,7 @@ std::vector<std::string> sqliteColumnNames(
 
   naz = nPK;
   az.resize( naz );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( pStmt.nextRow() )
   {
     int iPKey;
     std::string name = ( char * )sqlite3_column_text( pStmt.get(), 1 );
diff --git a/geodiff/src/drivers/sqliteutils.h b/geodiff/src/drivers/sqliteutils.h
index b6038f1..2e8a211 100644
--- a/geodiff/src/drivers/sqliteutils.h
+++ b/geodiff/src/drivers/sqliteutils.h
@@ -42,6 +42,8 @@ class Sqlite3Stmt
     void prepare( std::shared_ptr<Sqlite3Db> db, const std::string &sql );
     void prepare( std::shared_ptr<Sqlite3Db> db, const char *zFormat, ... );
     sqlite3_stmt *get();
+    //! Moves to the next row, returns false when there are no more rows, throws GeoDiffException on error
+    bool nextRow();
     void close();
     //! Returns SQL statement with bound parameters expanded
     std::string expandedSql() const;
-- 
2.43.0


From e3c04b125424ac96f94c00b43b3f62ad97e63ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 16/49] fix: failures removing and restoring triggers were
 ignored

---
 geodiff/src/drivers/sqlitedriver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 418ca89..8c52f10 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -696,7 +696,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   for ( std::string name : triggerNames )
   {
     statament.prepare( mDb, "drop trigger \"%w\"", name.c_str() );
-    sqlite3_step( statament.get() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Unable to remove or restore a trigger" );
     statament.close();
   }
 
@@ -805,7 +806,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   for ( std::string cmd : triggerCmds )
   {
     statament.prepare( mDb, "%s", cmd.c_str() );
-    sqlite3_step( statament.get() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Unable to remove or restore a trigger" );
     statament.close();
   }
 
-- 
2.43.0


From e4211309f7b67bf72677c3c40592e6353c6b4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 17/49] fix: an update entry without some old values was
 matched with the values of the previous entry

---
 geodiff/src/drivers/sqlitedriver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 8c52f10..2cee55c 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -757,7 +757,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
       {
         const Value &vOld = entry.oldValues[i];
         const Value &vNew = entry.newValues[i];
-        sqlite3_bind_int( stmtUpdate->get(), static_cast<int>( i ) * 3 + 2, vNew.type() != Value::TypeUndefined );
+        if ( sqlite3_bind_int( stmtUpdate->get(), static_cast<int>( i ) * 3 + 2, vNew.type() != Value::TypeUndefined ) != SQLITE_OK )
+          throw GeoDiffException( "bind failed" );
         if ( vOld.type() != Value::TypeUndefined )
           bindValue( stmtUpdate->get(), static_cast<int>( i ) * 3 + 1, vOld );
         if ( vNew.type() != Value::TypeUndefined )
@@ -776,6 +777,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
         ++conflictCount;
       }
       sqlite3_reset( stmtUpdate->get() );
+      sqlite3_clear_bindings( stmtUpdate->get() );  // absent values must not keep the ones of this entry
     }
     else if ( entry.op == SQLITE_DELETE )
     {
-- 
2.43.0


From bac20e79ff738ea696adf3dc79ac7eb2928aa096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 18/49] fix: texts with embedded zero bytes were cut off and
 compared incompletely

---
 geodiff/src/drivers/sqlitedriver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 2cee55c..e1ff46f 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -411,7 +411,11 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
     return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );
   else if ( type1 == SQLITE_TEXT )
   {
-    return strcmp( ( const char * ) sqlite3_value_text( v1 ), ( const char * ) sqlite3_value_text( v2 ) ) == 0;
+    const void *text1 = sqlite3_value_text( v1 );
+    const void *text2 = sqlite3_value_text( v2 );
+    int len1 = sqlite3_value_bytes( v1 );
+    int len2 = sqlite3_value_bytes( v2 );
+    return len1 == len2 && memcmp( text1, text2, len1 ) == 0;
   }
   else if ( type1 == SQLITE_BLOB )
   {
@@ -658,7 +662,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
   else if ( v.type() == Value::TypeNull )
     rc = sqlite3_bind_null( stmt, index );
   else if ( v.type() == Value::TypeText )
-    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), -1, SQLITE_TRANSIENT );
+    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else if ( v.type() == Value::TypeBlob )
     rc = sqlite3_bind_blob( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else
-- 
2.43.0


From 205b833d68b9ee974b06e26b3f95851501a3916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 19/49] fix: dumping the modified database listed the tables of
 the base

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 geodiff/src/drivers/sqlitedriver.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index f499f0e..f2c6760 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -943,7 +943,7 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
   if ( !mConn )
     throw GeoDiffException( "Not connected to a database" );
 
-  std::vector<std::string> tables = listTables();
+  std::vector<std::string> tables = listTables( useModified );
   for ( const std::string &tableName : tables )
   {
     TableSchema tbl = tableSchema( tableName, useModified );
diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index e1ff46f..c2b2998 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -950,7 +950,7 @@ void SqliteDriver::createTables( const std::vector<TableSchema> &tables )
 void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
 {
   std::string dbName = databaseName( useModified );
-  std::vector<std::string> tables = listTables();
+  std::vector<std::string> tables = listTables( useModified );
   for ( const std::string &tableName : tables )
   {
     TableSchema tbl = tableSchema( tableName, useModified );
-- 
2.43.0


From f20d02860a55ca8b3e7bf6e0f33be047ffb304dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:27 +0000
Subject: [PATCH 20/49] fix: real numbers lost precision when written to
 PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index f2c6760..6dbc63e 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -505,7 +505,9 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
   }
   else if ( v.type() == Value::TypeDouble )
   {
-    return std::to_string( v.getDouble() );
+    char buf[32];
+    snprintf( buf, sizeof( buf ), "'%.17g'", v.getDouble() );  // quoted because of NaN and Infinity
+    return buf;
   }
   else if ( v.type() == Value::TypeText || v.type() == Value::TypeBlob )
   {
-- 
2.43.0


From f49f43be97ad7aa79e55efe5246bb6b844af0138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:55 +0000
Subject: [PATCH 21/49] fix: failed PostgreSQL connections leaked and a failed
 rollback ended the process

---
 geodiff/src/drivers/postgresdriver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 6dbc63e..859994b 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -41,7 +41,7 @@ class PostgresTransaction
       if ( mConn )
       {
         // we had some problems - roll back any pending changes
-        PostgresResult res( execSql( mConn, "ROLLBACK" ) );
+        PostgresResult res( ::PQexec( mConn, "ROLLBACK" ) );  // execSql() could throw
       }
     }
 
@@ -97,7 +97,9 @@ void PostgresDriver::openPrivate( const DriverParametersMap &conn )
 
   if ( PQstatus( c ) != CONNECTION_OK )
   {
-    throw GeoDiffException( "Cannot connect to PostgreSQL database: " + std::string( PQerrorMessage( c ) ) );
+    std::string error( PQerrorMessage( c ) );
+    PQfinish( c );
+    throw GeoDiffException( "Cannot connect to PostgreSQL database: " + error );
   }
 
   mConn = c;
-- 
2.43.0


From de25977a427b39d6be2878b2074affd5acc96e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:55 +0000
Subject: [PATCH 22/49] fix: geometry values shorter than their header were
 read out of bounds

---
 geodiff/src/drivers/postgresdriver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 859994b..7d871e3 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -517,6 +517,8 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
     {
       // handling of geometries - they are encoded with GPKG header
       std::string gpkgWkb = v.getString();
+      if ( gpkgWkb.size() < 8 )
+        throw GeoDiffException( "Unexpected geometry value" );
       std::string wkb( gpkgWkb.size() - 8, 0 );
       memcpy( &wkb[0], &gpkgWkb[8], gpkgWkb.size() - 8 );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
-- 
2.43.0


From 1e138de6a10ccb79c3557954c567a7b00507e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:55 +0000
Subject: [PATCH 23/49] fix: large sequence values let an exception out of the
 C interface

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 7d871e3..5245984 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -890,7 +890,7 @@ void PostgresDriver::updateSequenceObject( const std::string &seqName, int64_t m
 {
   PostgresResult resCurrVal( execSql( mConn, "SELECT last_value FROM " + seqName ) );
   std::string currValueStr = resCurrVal.value( 0, 0 );
-  int currValue = std::stoi( currValueStr );
+  int64_t currValue = strtoll( currValueStr.c_str(), nullptr, 10 );
 
   if ( currValue < maxValue )
   {
-- 
2.43.0


From 523cd3f5409be5e706d0edc11e50b364e795b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:07 +0000
Subject: [PATCH 24/49] fix: blobs could not be copied to PostgreSQL and back

---
 geodiff/src/drivers/postgresdriver.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 5245984..0703fa2 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -16,6 +16,7 @@
 #include <algorithm>
 #include <iostream>
 #include <memory.h>
+#include <stdio.h>
 
 
 /**
@@ -478,6 +479,13 @@ static Value resultToValue( const PostgresResult &res, int r, size_t i, const Ta
       memcpy( &outBinString[8], binString.data(), binString.size() );
       v.setString( Value::TypeBlob, outBinString.data(), outBinString.size() );
     }
+    else if ( col.type == "bytea" )
+    {
+      if ( valueStr.size() < 2 || valueStr[0] != '\\' || valueStr[1] != 'x' )
+        throw GeoDiffException( "Unexpected prefix in bytea value" );
+      std::string binString = hex2bin( valueStr.substr( 2 ) );
+      v.setString( Value::TypeBlob, binString.data(), binString.size() );
+    }
     else
     {
       // TODO: handling of other types (date/time, list, blob, ...)
@@ -523,6 +531,8 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
       memcpy( &wkb[0], &gpkgWkb[8], gpkgWkb.size() - 8 );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
+    if ( v.type() == Value::TypeBlob )
+      return "'\\x" + bin2hex( v.getString() ) + "'";
     return quotedString( v.getString() );
   }
   else
-- 
2.43.0


From 9e29400de2d573d52f23066517e5d5a5e80f5e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:22 +0000
Subject: [PATCH 25/49] fix: failures concatenating changesets were ignored

---
 geodiff/src/geodiffrebase.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 4bad6fb..33ec2a5 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -643,7 +643,7 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
     return true;
   }
 
-  sqlite3_changegroup *pGrp;
+  sqlite3_changegroup *pGrp = nullptr;
   int rc = sqlite3changegroup_new( &pGrp );
   if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufA.size(), bufA.v_buf() );
   if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufB.size(), bufB.v_buf() );
@@ -661,12 +661,20 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
 
     Buffer bufO;
     bufO.read( pnOut, ppOut );
-    bufO.write( out );
+    try
+    {
+      bufO.write( out );
+    }
+    catch ( GeoDiffException )
+    {
+      sqlite3changegroup_delete( pGrp );
+      throw;
+    }
   }
 
   if ( pGrp )
     sqlite3changegroup_delete( pGrp );
 
-  return false;
+  return rc != SQLITE_OK;
 }
 
-- 
2.43.0


From 34aedd4e47271714027c427cbc6e4e9e6f1e1da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 26/49] fix: names and texts with special characters and
 infinite numbers produced invalid JSON

---
 geodiff/src/changesetutils.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index f348051..7055958 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -5,6 +5,8 @@
 
 #include "changesetutils.h"
 
+#include <cmath>
+
 #include "base64utils.h"
 #include "geodiffutils.hpp"
 #include "changesetreader.h"
@@ -78,12 +80,23 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
 
 std::string escapeJSONString( std::string val )
 {
-  //val = replace( val, "\\", "\\\\" );  // TODO: escaping of backslashes?
+  val = replace( val, "\\", "\\\\" );
   val = replace( val, "\n", "\\n" );
   val = replace( val, "\r", "\\r" );
   val = replace( val, "\t", "\\t" );
   val = replace( val, "\"", "\\\"" );
-  return "\"" + val + "\"";
+  std::string res;
+  for ( char c : val )
+  {
+    if ( ( unsigned char ) c < 0x20 )
+    {
+      res += ( unsigned char ) c < 0x10 ? "\\u000" : "\\u001";
+      res += "0123456789abcdef"[c & 0x0f];
+    }
+    else
+      res += c;
+  }
+  return "\"" + res + "\"";
 }
 
 std::string valueToJSON( const Value &value )
@@ -95,6 +108,8 @@ std::string valueToJSON( const Value &value )
     case Value::TypeInt:
       return std::to_string( value.getInt() );
     case Value::TypeDouble:
+      if ( !std::isfinite( value.getDouble() ) )
+        return escapeJSONString( std::to_string( value.getDouble() ) );  // there are no such numbers in JSON
       return std::to_string( value.getDouble() );
     case Value::TypeText:
       return escapeJSONString( value.getString() );
@@ -122,7 +137,7 @@ std::string changesetEntryToJSON( const ChangesetEntry &entry )
     status = "delete";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + entry.table->name + "\",\n";
+  res += "        \"table\": " + escapeJSONString( entry.table->name ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"changes\": [";
   bool first = true;
@@ -224,7 +239,7 @@ std::string changesetToJSONSummary( ChangesetReader &reader )
   {
     std::string tableJson;
     tableJson += "      {\n";
-    tableJson += "         \"table\": \"" + kv.first + "\",\n";
+    tableJson += "         \"table\": " + escapeJSONString( kv.first ) + ",\n";
     tableJson += "         \"insert\": " + std::to_string( kv.second.inserts ) + ",\n";
     tableJson += "         \"update\": " + std::to_string( kv.second.updates ) + ",\n";
     tableJson += "         \"delete\": " + std::to_string( kv.second.deletes ) + "\n";
@@ -252,7 +267,7 @@ std::string conflictToJSON( const ConflictFeature &conflict )
   std::string status = "conflict";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + std::string( conflict.tableName() ) + "\",\n";
+  res += "        \"table\": " + escapeJSONString( conflict.tableName() ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"fid\": \"" + std::to_string( conflict.pk() ) + "\",\n";
   res += "        \"changes\": [";
-- 
2.43.0


From 07d166df756f33a351f5f827e42bfcffe0a32c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 27/49] fix: declare both arguments of listChanges and
 listChangesSummary in pygeodiff

---
 pygeodiff/geodifflib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeodiff/geodifflib.py b/pygeodiff/geodifflib.py
index e943fcd..a95f7db 100644
--- a/pygeodiff/geodifflib.py
+++ b/pygeodiff/geodifflib.py
@@ -178,7 +178,7 @@ class GeoDiffLib:
 
     def list_changes(self, changeset, result):
         func = self.lib.GEODIFF_listChanges
-        func.argtypes = [ctypes.c_char_p]
+        func.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
         func.restype = ctypes.c_int
 
         # create byte objects from the strings
@@ -189,7 +189,7 @@ class GeoDiffLib:
 
     def list_changes_summary(self, changeset, result):
         func = self.lib.GEODIFF_listChangesSummary
-        func.argtypes = [ctypes.c_char_p]
+        func.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
         func.restype = ctypes.c_int
 
         # create byte objects from the strings
-- 
2.43.0


From 91e68520a0a1d49e5f28389095ce6481ac343ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 28/49] fix: keep all 64 bits of primary keys in rebase

---
 geodiff/src/geodiffrebase.cpp | 68 +++++++++++++++++------------------
 geodiff/src/geodiffutils.cpp  |  9 +++--
 geodiff/src/geodiffutils.hpp  |  8 ++---
 3 files changed, 42 insertions(+), 43 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 33ec2a5..216c7d2 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -35,11 +35,11 @@
  */
 struct TableRebaseInfo
 {
-  std::set<int> inserted;           //!< pkeys that were inserted
-  std::set<int> deleted;            //!< pkeys that were deleted
-  std::map<int, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
+  std::set<int64_t> inserted;           //!< pkeys that were inserted
+  std::set<int64_t> deleted;            //!< pkeys that were deleted
+  std::map<int64_t, std::vector<Value> > updated;  //!< new column values for each recorded row (identified by pkey)
 
-  void dump_set( const std::set<int> &data, std::ostringstream &ret )
+  void dump_set( const std::set<int64_t> &data, std::ostringstream &ret )
   {
     if ( data.empty() )
       ret << "--none --";
@@ -60,7 +60,7 @@ struct TableRebaseInfo
     ret << "  deleted  ";
     dump_set( deleted, ret );
     ret << "  updated  ";
-    std::set<int> updatedPkeys;
+    std::set<int64_t> updatedPkeys;
     for ( auto pk : updated )
       updatedPkeys.insert( pk.first );
     dump_set( updatedPkeys, ret );
@@ -98,35 +98,35 @@ struct RebaseMapping
 {
 
   // table name -> old fid --> new fid
-  std::map<std::string, std::map < int, int > > mapIds;
+  std::map<std::string, std::map < int64_t, int64_t > > mapIds;
 
   // table name -> set of fids of inserts that have been untouched
   // (this is important because our mapping could cause FID conflicts
   // with FIDs that weren't previously in conflict, e.g. if 4,5,6
   // get mapped 4->6, 5->7 then the original 6 will need to be remapped
   // too: 6->8)
-  std::map<std::string, std::set<int> > unmappedInsertIds;
+  std::map<std::string, std::set<int64_t> > unmappedInsertIds;
 
   // special pkey value for deleted rows
-  static const int INVALID_FID = -1;
+  static const int64_t INVALID_FID = -1;
 
-  void addPkeyMapping( const std::string &table, int id, int id2 )
+  void addPkeyMapping( const std::string &table, int64_t id, int64_t id2 )
   {
     auto ids = mapIds.find( table );
     if ( ids == mapIds.end() )
     {
-      std::map < int, int  > newSet;
-      newSet.insert( std::pair<int, int>( id, id2 ) );
+      std::map < int64_t, int64_t  > newSet;
+      newSet.insert( std::pair<int64_t, int64_t>( id, id2 ) );
       mapIds[table] = newSet;
     }
     else
     {
-      std::map < int, int  > &oldSet = ids->second;
-      oldSet.insert( std::pair<int, int>( id, id2 ) );
+      std::map < int64_t, int64_t  > &oldSet = ids->second;
+      oldSet.insert( std::pair<int64_t, int64_t>( id, id2 ) );
     }
   }
 
-  bool hasOldPkey( const std::string &table, int id ) const
+  bool hasOldPkey( const std::string &table, int64_t id ) const
   {
     auto mapId = mapIds.find( table );
     if ( mapId == mapIds.end() )
@@ -135,13 +135,13 @@ struct RebaseMapping
     }
     else
     {
-      const std::map < int, int  > &ids = mapId->second;
+      const std::map < int64_t, int64_t  > &ids = mapId->second;
       auto fid =  ids.find( id );
       return fid != ids.end();
     }
   }
 
-  int getNewPkey( const std::string &table, int id ) const
+  int64_t getNewPkey( const std::string &table, int64_t id ) const
   {
     auto ids = mapIds.find( table );
     if ( ids == mapIds.end() )
@@ -150,7 +150,7 @@ struct RebaseMapping
     }
     else
     {
-      const std::map < int, int  > &oldSet = ids->second;
+      const std::map < int64_t, int64_t  > &oldSet = ids->second;
       auto a = oldSet.find( id );
       if ( a == oldSet.end() )
         throw GeoDiffException( "internal error: _get_new MappingIds" );
@@ -192,9 +192,9 @@ struct RebaseMapping
 ///////////////////////////////////////
 
 
-int _get_primary_key( const ChangesetEntry &entry )
+int64_t _get_primary_key( const ChangesetEntry &entry )
 {
-  int fid;
+  int64_t fid;
   int nFidColumn;
   get_primary_key( entry, fid, nFidColumn );
   return fid;
@@ -206,7 +206,7 @@ int _parse_old_changeset( ChangesetReader &reader_BASE_THEIRS, DatabaseRebaseInf
   ChangesetEntry entry;
   while ( reader_BASE_THEIRS.nextEntry( entry ) )
   {
-    int pk = _get_primary_key( entry );
+    int64_t pk = _get_primary_key( entry );
 
     TableRebaseInfo &tableInfo = dbInfo.tables[entry.table->name];
 
@@ -234,10 +234,10 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
 {
   // figure out first free primary key value when rebasing for each table
   // TODO: should we consider all rows in the table instead of just the inserts? (maybe not needed - those were available in the other source too)
-  std::map<std::string, int> freeIndices;
+  std::map<std::string, int64_t> freeIndices;
   for ( auto mapId : dbInfo.tables )
   {
-    const std::set < int > &oldSet = mapId.second.inserted;
+    const std::set < int64_t > &oldSet = mapId.second.inserted;
     if ( oldSet.empty() )
       continue;  // TODO: or set 0 to free indices??
 
@@ -256,7 +256,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
 
     if ( entry.op == ChangesetEntry::OpInsert )
     {
-      int pk = _get_primary_key( entry );
+      int64_t pk = _get_primary_key( entry );
 
       if ( tableInfo.inserted.find( pk ) != tableInfo.inserted.end() )
       {
@@ -278,7 +278,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     }
     else if ( entry.op == ChangesetEntry::OpUpdate )
     {
-      int pk = _get_primary_key( entry );
+      int64_t pk = _get_primary_key( entry );
 
       if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
       {
@@ -288,7 +288,7 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     }
     else if ( entry.op == ChangesetEntry::OpDelete )
     {
-      int pk = _get_primary_key( entry );
+      int64_t pk = _get_primary_key( entry );
 
       if ( tableInfo.deleted.find( pk ) != tableInfo.deleted.end() )
       {
@@ -305,12 +305,12 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     std::string tableName = pair.first;
 
     // make a set of all new pkeys
-    std::set<int> usedNewPkeys;
+    std::set<int64_t> usedNewPkeys;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
       usedNewPkeys.insert( oldNewPair.second );
 
-    std::set<int> pkeys = pair.second;
-    for ( int pk : pkeys )
+    std::set<int64_t> pkeys = pair.second;
+    for ( int64_t pk : pkeys )
     {
       if ( usedNewPkeys.find( pk ) != usedNewPkeys.end() )
       {
@@ -343,8 +343,8 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.newValues.resize( numColumns );
 
   // resolve primary key and patched primary key
-  int pk = _get_primary_key( entry );
-  int newPk = pk;
+  int64_t pk = _get_primary_key( entry );
+  int64_t newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
@@ -375,8 +375,8 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.oldValues.resize( numColumns );
 
   // resolve primary key and patched primary key
-  int pk = _get_primary_key( entry );
-  int newPk = pk;
+  int64_t pk = _get_primary_key( entry );
+  int64_t newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
@@ -448,10 +448,10 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   outEntry.newValues.resize( numColumns );
 
   // get values from patched (new) master
-  int pk = _get_primary_key( entry );
+  int64_t pk = _get_primary_key( entry );
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
-    int newPk = mapping.getNewPkey( entry.table->name, pk );
+    int64_t newPk = mapping.getNewPkey( entry.table->name, pk );
     if ( newPk == RebaseMapping::INVALID_FID )
       return false;
   }
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 55261ba..1109684 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -393,7 +393,7 @@ bool isLayerTable( const std::string &tableName )
 
 ////
 
-void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
+void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn )
 {
   const std::vector<bool> &tablePkeys = entry.table->primaryKeys;
 
@@ -433,8 +433,7 @@ void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
 
   if ( pkeyValue.type() == Value::TypeInt )
   {
-    int val = pkeyValue.getInt();
-    fid = val;
+    fid = pkeyValue.getInt();
     return;
   }
   else if ( pkeyValue.type() == Value::TypeText )
@@ -548,7 +547,7 @@ const char *TmpFile::c_path() const
   return mPath.c_str();
 }
 
-ConflictFeature::ConflictFeature( int pk,
+ConflictFeature::ConflictFeature( int64_t pk,
                                   const std::string &tableName )
   : mPk( pk )
   , mTableName( tableName )
@@ -570,7 +569,7 @@ std::string ConflictFeature::tableName() const
   return mTableName;
 }
 
-int ConflictFeature::pk() const
+int64_t ConflictFeature::pk() const
 {
   return mPk;
 }
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index bd396fb..6d18599 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -105,7 +105,7 @@ int indexOf( const std::vector<std::string> &arr, const std::string &val );
 std::string concatNames( const std::vector<std::string> &names );
 
 
-void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn );
+void get_primary_key( const ChangesetEntry &entry, int64_t &fid, int &nColumn );
 
 
 
@@ -167,15 +167,15 @@ class ConflictItem
 class ConflictFeature
 {
   public:
-    ConflictFeature( int pk,
+    ConflictFeature( int64_t pk,
                      const std::string &tableName );
     bool isValid() const;
     void addItem( const ConflictItem &item );
     std::string tableName() const;
-    int pk() const;
+    int64_t pk() const;
     std::vector<ConflictItem> items() const;
   private:
-    int mPk;
+    int64_t mPk;
     std::string mTableName;
     std::vector<ConflictItem> mItems;
 };
-- 
2.43.0


From 1dfbd4a53c24564a4d39fe338f4789b44c8a3234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:08 +0000
Subject: [PATCH 29/49] fix: keep primary keys that are not integers in rebase

---
 geodiff/src/geodiffrebase.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 216c7d2..7bd6be3 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -354,8 +354,10 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
-    if ( entry.table->primaryKeys[i] )
+    if ( entry.table->primaryKeys[i] && newPk != pk )
     {
+      if ( entry.newValues[i].type() != Value::TypeInt )
+        throw GeoDiffException( "Unable to rebase concurrent inserts with the same key: " + entry.table->name );
       outEntry.newValues[i].setInt( newPk );
     }
     else
@@ -400,10 +402,14 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
-    if ( entry.table->primaryKeys[i] )
+    if ( entry.table->primaryKeys[i] && newPk != pk )
     {
       outEntry.oldValues[i].setInt( newPk );
     }
+    else if ( entry.table->primaryKeys[i] )
+    {
+      outEntry.oldValues[i] = entry.oldValues[i];
+    }
     else
     {
       // if the value was patched in the previous commit, use that one as base
-- 
2.43.0


From 31afa45584f4ed7b9e47c9ed648d55319490aece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:04 +0000
Subject: [PATCH 30/49] fix: count foreign keys that refer to a primary key
 implicitly

---
 geodiff/src/drivers/sqliteutils.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index da4def9..6da0a74 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -316,7 +316,7 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
         const char *fk_to = ( const char * )sqlite3_column_text( pStmt.get(), 4 );
 
-        if ( fk_to_table && fk_from && fk_to )
+        if ( fk_to_table && fk_from )
         {
           // TODO: this part is not speed-optimized and could be slower for databases with a lot of
           // columns and/or foreign keys. For each entry we grab column names again
@@ -327,9 +327,8 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
             continue;
 
           std::vector<std::string> toColumnNames = sqliteColumnNames( db, dbName, fk_to_table );
-          int fk_to_id = indexOf( toColumnNames, fk_to );
-          if ( fk_to_id < 0 )
-            continue;
+          // there is no target column (-1) if the key refers to the primary key of the other table implicitly
+          int fk_to_id = fk_to ? indexOf( toColumnNames, fk_to ) : -1;
 
           TableColumn from( fromTableName, fk_from_id );
           TableColumn to( fk_to_table, fk_to_id );
-- 
2.43.0


From 90b768ef09317494dd425a1145b3d7015a720623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 31/49] fix: columns changed by the other side only were
 reported as conflicts

---
 geodiff/src/geodiffrebase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 7bd6be3..2a87f96 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -481,8 +481,9 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
     if ( patchedVal.type() != Value::TypeUndefined )
     {
       outEntry.oldValues[i] = patchedVal;
-      // conflict for this value
-      _addConflictItem( conflictFeature, i, entry.oldValues[i], patchedVal, entry.newValues[i] );
+      // conflict for this value (unless only the other side has changed it)
+      if ( entry.newValues[i].type() != Value::TypeUndefined )
+        _addConflictItem( conflictFeature, i, entry.oldValues[i], patchedVal, entry.newValues[i] );
     }
     else
     {
-- 
2.43.0


From a54bb6bf7047d79576d62cb32fb2983f9f948d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 32/49] fix: assigning a value to itself lost its content

---
 geodiff/src/changeset.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 533f69a..80dc4e7 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -38,6 +38,8 @@ struct Value
 
     Value &operator=( const Value &other )
     {
+      if ( this == &other )
+        return *this;
       reset();
       mType = other.mType;
       mVal = other.mVal;
-- 
2.43.0


From 02044410d7bb7f30888330cd9a695924f39b1e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 33/49] fix: three commands of geodiffinfo accepted too few
 arguments

---
 geodiff/src/geodiffinfo.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiffinfo.cpp b/geodiff/src/geodiffinfo.cpp
index e7d5493..1909666 100644
--- a/geodiff/src/geodiffinfo.cpp
+++ b/geodiff/src/geodiffinfo.cpp
@@ -60,7 +60,7 @@ int createRebasedChangeset( int argc, char *argv[] )
 
 int applyChangeset( int argc, char *argv[] )
 {
-  if ( argc < 1 + 2 )
+  if ( argc < 1 + 3 )
   {
     return err( "invalid number of arguments to applyChangeset" );
   }
@@ -71,7 +71,7 @@ int applyChangeset( int argc, char *argv[] )
 
 int listChanges( int argc, char *argv[] )
 {
-  if ( argc < 1 + 2 )
+  if ( argc < 1 + 3 )
   {
     return err( "invalid number of arguments to listChanges" );
   }
@@ -82,7 +82,7 @@ int listChanges( int argc, char *argv[] )
 
 int listChangesSummary( int argc, char *argv[] )
 {
-  if ( argc < 1 + 2 )
+  if ( argc < 1 + 3 )
   {
     return err( "invalid number of arguments to listChangesSummary" );
   }
-- 
2.43.0


From 691ca9d4d01f829f12fd51948164a6fb74ee26e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 34/49] fix: refuse an update entry without a primary key value
 in PostgreSQL

The WHERE clause consists of the recorded old values only. For a (malformed)
entry without the key's value it matched other rows.
---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 0703fa2..e742e54 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -704,7 +704,7 @@ static std::string sqlForUpdate( const std::string &schemaName, const std::strin
   sql += " WHERE ";
   for ( size_t i = 0; i < tbl.columns.size(); ++i )
   {
-    if ( oldValues[i].type() != Value::TypeUndefined )
+    if ( oldValues[i].type() != Value::TypeUndefined || tbl.columns[i].isPrimaryKey )
     {
       if ( !first )
         sql += " AND ";
-- 
2.43.0


From 619e8a69be31659279aaf2c2f99b1b48975e57c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 35/49] fix: own insert with key -1 was renumbered or refused
 if a change of a deleted row was dropped

---
 geodiff/src/geodiffrebase.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 2a87f96..6944807 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -304,10 +304,14 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
   {
     std::string tableName = pair.first;
 
-    // make a set of all new pkeys
+    // make a set of all new pkeys (only of inserts: rows deleted by the other side have no new pkey)
+    const std::set<int64_t> &theirInserted = dbInfo.tables.at( tableName ).inserted;
     std::set<int64_t> usedNewPkeys;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
-      usedNewPkeys.insert( oldNewPair.second );
+    {
+      if ( theirInserted.find( oldNewPair.first ) != theirInserted.end() )
+        usedNewPkeys.insert( oldNewPair.second );
+    }
 
     std::set<int64_t> pkeys = pair.second;
     for ( int64_t pk : pkeys )
-- 
2.43.0


From 85826136274934c769fd9198bc38fdef575aedd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 36/49] fix: geometries with an envelope in the GeoPackage
 header were written to PostgreSQL with the envelope as part of the WKB

---
 geodiff/src/drivers/postgresdriver.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index e742e54..2617af4 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -496,6 +496,18 @@ static Value resultToValue( const PostgresResult &res, int r, size_t i, const Ta
 }
 
 
+//! Returns size of the GPKG header of a geometry, including the envelope (if there is any)
+static size_t gpkgHeaderSize( const std::string &gpkgWkb )
+{
+  static const size_t envelopeSize[] = { 0, 32, 48, 48, 64 };
+  if ( gpkgWkb.size() < 8 )
+    throw GeoDiffException( "Unexpected geometry value" );
+  int envelope = ( gpkgWkb[3] >> 1 ) & 7;
+  if ( envelope > 4 || gpkgWkb.size() < 8 + envelopeSize[envelope] )
+    throw GeoDiffException( "Unexpected geometry value" );
+  return 8 + envelopeSize[envelope];
+}
+
 static std::string valueToSql( const Value &v, const TableColumnInfo &col )
 {
   if ( v.type() == Value::TypeUndefined )
@@ -525,10 +537,9 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
     {
       // handling of geometries - they are encoded with GPKG header
       std::string gpkgWkb = v.getString();
-      if ( gpkgWkb.size() < 8 )
-        throw GeoDiffException( "Unexpected geometry value" );
-      std::string wkb( gpkgWkb.size() - 8, 0 );
-      memcpy( &wkb[0], &gpkgWkb[8], gpkgWkb.size() - 8 );
+      size_t headerSize = gpkgHeaderSize( gpkgWkb );
+      std::string wkb( gpkgWkb.size() - headerSize, 0 );
+      memcpy( &wkb[0], &gpkgWkb[headerSize], gpkgWkb.size() - headerSize );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
     if ( v.type() == Value::TypeBlob )
-- 
2.43.0


From 921b245b1e6934eed04974b67960e59f04c902a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 37/49] fix: a PostgreSQL column that is part of several
 indexes was listed several times in the table schema

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 2617af4..6791d80 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -255,7 +255,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     "                 || '''::regclass)'"
     "       ) AS has_sequence"
     " FROM pg_catalog.pg_attribute a"
-    " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey)"
+    " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey) AND i.indisprimary"
     " WHERE"
     "   a.attnum > 0"
     "   AND NOT a.attisdropped"
-- 
2.43.0


From 25ad7382884d8e1d7838519e9f18a6e46b372b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 38/49] fix: Z coordinates of PostGIS geometry columns were not
 recognised

---
 geodiff/src/drivers/postgresdriver.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 6791d80..3c1de95 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -187,7 +187,7 @@ struct GeometryTypeDetails
   bool hasM;
 };
 
-static void extractGeometryTypeDetails( const std::string &geomType, std::string &flatGeomType, bool &hasZ, bool &hasM )
+static void extractGeometryTypeDetails( std::string geomType, const std::string &coordDimension, std::string &flatGeomType, bool &hasZ, bool &hasM )
 {
   std::map<std::string, GeometryTypeDetails> d =
   {
@@ -206,6 +206,12 @@ static void extractGeometryTypeDetails( const std::string &geomType, std::string
     // TODO: multi-part types
   };
 
+  // geometry_columns keeps "M" in the type of XYM geometries, but "Z" and "ZM" only show in the number of dimensions
+  if ( coordDimension == "4" )
+    geomType += "ZM";
+  else if ( coordDimension == "3" && ( geomType.empty() || geomType.back() != 'M' ) )
+    geomType += "Z";
+
   auto it = d.find( geomType );
   if ( it != d.end() )
   {
@@ -228,9 +234,10 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
   std::string schemaName = useModified ? mModifiedSchema : mBaseSchema;
 
   // try to figure out details of the geometry columns (if any)
-  std::string sqlGeomDetails = "SELECT f_geometry_column, type, srid FROM geometry_columns WHERE f_table_schema = " +
+  std::string sqlGeomDetails = "SELECT f_geometry_column, type, srid, coord_dimension FROM geometry_columns WHERE f_table_schema = " +
                                quotedString( schemaName ) + " AND f_table_name = " + quotedString( tableName );
   std::map<std::string, std::string> geomTypes;
+  std::map<std::string, std::string> geomDims;
   std::map<std::string, int> geomSrids;
   PostgresResult resGeomDetails( execSql( mConn, sqlGeomDetails ) );
   for ( int i = 0; i < resGeomDetails.rowCount(); ++i )
@@ -240,6 +247,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     std::string srid = resGeomDetails.value( i, 2 );
     int sridInt = srid.empty() ? -1 : atoi( srid.c_str() );
     geomTypes[name] = type;
+    geomDims[name] = resGeomDetails.value( i, 3 );
     geomSrids[name] = sridInt;
   }
 
@@ -285,7 +293,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
       col.isGeometry = true;
       if ( geomTypes.find( col.name ) != geomTypes.end() )
       {
-        extractGeometryTypeDetails( geomTypes[col.name], col.geomType, col.geomHasZ, col.geomHasM );
+        extractGeometryTypeDetails( geomTypes[col.name], geomDims[col.name], col.geomType, col.geomHasZ, col.geomHasM );
         col.geomSrsId = geomSrids[col.name];
         srsId = col.geomSrsId;
       }
-- 
2.43.0


From 94eaebee113a1d39c927fe67aa5dba18e82d6a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 39/49] fix: auto-increment of PostgreSQL columns was not
 recognised if the name of the sequence contains an apostrophe

---
 geodiff/src/drivers/postgresdriver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 3c1de95..637b58c 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -258,9 +258,9 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     "             WHERE  ad.adrelid = a.attrelid"
     "             AND    ad.adnum   = a.attnum"
     "             AND    pg_get_expr(ad.adbin, ad.adrelid)"
-    "                  = 'nextval('''"
-    "                 || (pg_get_serial_sequence (a.attrelid::regclass::text, a.attname))::regclass"
-    "                 || '''::regclass)'"
+    "                  = 'nextval('"
+    "                 || quote_literal((pg_get_serial_sequence (a.attrelid::regclass::text, a.attname))::regclass::text)"
+    "                 || '::regclass)'"
     "       ) AS has_sequence"
     " FROM pg_catalog.pg_attribute a"
     " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey) AND i.indisprimary"
-- 
2.43.0


From ee6214d1443d0a7c8f023a7a8fc5faef956bf3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 40/49] fix: a geometry column declared as BLOB was copied to
 PostgreSQL as a plain bytea column

---
 geodiff/src/tableschema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/tableschema.cpp b/geodiff/src/tableschema.cpp
index 299ebdd..6f1e14b 100644
--- a/geodiff/src/tableschema.cpp
+++ b/geodiff/src/tableschema.cpp
@@ -88,7 +88,7 @@ void tableSchemaSqliteToPostgres( TableSchema &tbl )
     {
       col.type = "text";
     }
-    else if ( col.type == "blob" )
+    else if ( col.type == "blob" && !col.isGeometry )
     {
       col.type = "bytea";
     }
-- 
2.43.0


From a3aded4ade3765c0b5bb53bc8acf9a436c9fb064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 41/49] fix: a BLOB column with a declared size was copied to
 PostgreSQL as a text column

---
 geodiff/src/tableschema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/tableschema.cpp b/geodiff/src/tableschema.cpp
index 6f1e14b..dad695c 100644
--- a/geodiff/src/tableschema.cpp
+++ b/geodiff/src/tableschema.cpp
@@ -88,7 +88,7 @@ void tableSchemaSqliteToPostgres( TableSchema &tbl )
     {
       col.type = "text";
     }
-    else if ( col.type == "blob" && !col.isGeometry )
+    else if ( ( col.type == "blob" || col.type.rfind( "blob(", 0 ) == 0 ) && !col.isGeometry )
     {
       col.type = "bytea";
     }
-- 
2.43.0


From 6d7938d6f097bda8134e8b1fdd3640c21978eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:57 +0000
Subject: [PATCH 42/49] fix: sequences were changed by changesets that are
 refused (PostgreSQL)

---
 geodiff/src/drivers/postgresdriver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 637b58c..54b35db 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -875,12 +875,12 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
       throw GeoDiffException( "Unexpected operation" );
   }
 
-  // at the end, update any SEQUENCE objects if needed
-  for ( const std::pair<std::string, int64_t> &it : autoIncrementTablesToFix )
-    updateSequenceObject( tableNameToSequenceName[it.first], it.second );
-
   if ( !conflictCount )
   {
+    // at the end, update any SEQUENCE objects if needed (this is not undone if the transaction is rolled back)
+    for ( const std::pair<std::string, int64_t> &it : autoIncrementTablesToFix )
+      updateSequenceObject( tableNameToSequenceName[it.first], it.second );
+
     transaction.commitChanges();
   }
   else
-- 
2.43.0


From 6b75aecfbe21725a062c27525987ca12189177b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 43/49] fix: rows with NULL in the primary key always differed
 and could not be deleted

---
 geodiff/src/drivers/sqlitedriver.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index c2b2998..de77c94 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -346,21 +346,32 @@ static std::string sqlitePrintf( const char *zFormat, ... )
 //! Constructs SQL query to get all rows that do not exist in the other table (used for insert and delete)
 static std::string sqlFindInserted( const std::string &tableName, const TableSchema &tbl, bool reverse )
 {
-  std::string exprPk;
+  // rows are the same if their primary keys are equal. Rows with NULL in the primary key (which is possible
+  // unless the key is a single integer) have no key: they are only the same if all their columns are
+  std::string exprPk, exprPkNull, exprAll;
   for ( const TableColumnInfo &c : tbl.columns )
   {
+    std::string columns[2];
+    columns[0] = sqlitePrintf( "\"%w\".\"%w\".\"%w\"", "main", tableName.c_str(), c.name.c_str() );
+    columns[1] = sqlitePrintf( "\"%w\".\"%w\".\"%w\"", "aux", tableName.c_str(), c.name.c_str() );
     if ( c.isPrimaryKey )
     {
       if ( !exprPk.empty() )
+      {
         exprPk += " AND ";
-      exprPk += sqlitePrintf( "\"%w\".\"%w\".\"%w\"=\"%w\".\"%w\".\"%w\"",
-                              "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
+        exprPkNull += " AND ";
+      }
+      exprPk += columns[0] + "=" + columns[1];
+      exprPkNull += columns[0] + " IS " + columns[1];
     }
+    if ( !exprAll.empty() )
+      exprAll += " AND ";
+    exprAll += columns[0] + " IS " + columns[1];
   }
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s AND (( %s ) OR ( %s )))",
                                   reverse ? "aux" : "main", tableName.c_str(),
-                                  reverse ? "main" : "aux", tableName.c_str(), exprPk.c_str() );
+                                  reverse ? "main" : "aux", tableName.c_str(), exprPkNull.c_str(), exprPk.c_str(), exprAll.c_str() );
   return sql;
 }
 
@@ -635,7 +646,7 @@ static std::string sqlForDelete( const std::string &tableName, const TableSchema
   /*
    * For a table defined like this: CREATE TABLE x(a, b, c, d, PRIMARY KEY(a, c));
    *
-   * DELETE FROM x WHERE a = ? AND b IS ? AND c = ? AND d IS ?
+   * DELETE FROM x WHERE a IS ? AND b IS ? AND c IS ? AND d IS ?
    */
 
   std::string sql;
@@ -644,10 +655,7 @@ static std::string sqlForDelete( const std::string &tableName, const TableSchema
   {
     if ( i > 0 )
       sql += " AND ";
-    if ( tbl.columns[i].isPrimaryKey )
-      sql += sqlitePrintf( "\"%w\" = ?", tbl.columns[i].name.c_str() );
-    else
-      sql += sqlitePrintf( "\"%w\" IS ?", tbl.columns[i].name.c_str() );
+    sql += sqlitePrintf( "\"%w\" IS ?", tbl.columns[i].name.c_str() );
   }
   return sql;
 }
-- 
2.43.0


From cb1f42629ad43f02c24ef7aa7f9705e7d818d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 44/49] fix: a conflict file of an earlier run was left in
 place by rebasing without conflicts

---
 geodiff/src/geodiff.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 556281a..a95ca56 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -204,6 +204,8 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
     return GEODIFF_ERROR;
   }
 
+  fileremove( conflictfile );
+
   // TODO: use driverName + driverExtraInfo + base when creating rebased
   // changeset (e.g. to check whether a newly created ID is actually free)
 
@@ -414,6 +416,7 @@ int GEODIFF_rebaseEx( const char *driverName,
     Logger::instance().error( "NULL arguments to GEODIFF_rebase" );
     return GEODIFF_ERROR;
   }
+  fileremove( conflictfile );
 
   try
   {
-- 
2.43.0


From 572f7c1cbea8a1c8b80363c3d102052451129e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:54 +0000
Subject: [PATCH 45/49] fix: generated columns shift the values of a SQLite
 table's changeset to other columns

---
 geodiff/src/drivers/sqlitedriver.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index de77c94..ed4173b 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -343,6 +343,20 @@ static std::string sqlitePrintf( const char *zFormat, ... )
   return res;
 }
 
+//! Returns the columns of the table schema for the list of a SELECT. A star would stand for generated columns too,
+//! which the table schema does not contain (their values can't be written)
+static std::string sqlAllColumns( const std::string &dbName, const std::string &tableName, const TableSchema &tbl )
+{
+  std::string columns;
+  for ( const TableColumnInfo &c : tbl.columns )
+  {
+    if ( !columns.empty() )
+      columns += ", ";
+    columns += sqlitePrintf( "\"%w\".\"%w\".\"%w\"", dbName.c_str(), tableName.c_str(), c.name.c_str() );
+  }
+  return columns;
+}
+
 //! Constructs SQL query to get all rows that do not exist in the other table (used for insert and delete)
 static std::string sqlFindInserted( const std::string &tableName, const TableSchema &tbl, bool reverse )
 {
@@ -369,7 +383,8 @@ static std::string sqlFindInserted( const std::string &tableName, const TableSch
     exprAll += columns[0] + " IS " + columns[1];
   }
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s AND (( %s ) OR ( %s )))",
+  std::string sql = sqlitePrintf( "SELECT %s FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s AND (( %s ) OR ( %s )))",
+                                  sqlAllColumns( reverse ? "aux" : "main", tableName, tbl ).c_str(),
                                   reverse ? "aux" : "main", tableName.c_str(),
                                   reverse ? "main" : "aux", tableName.c_str(), exprPkNull.c_str(), exprPk.c_str(), exprAll.c_str() );
   return sql;
@@ -401,7 +416,8 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
   if ( exprOther.empty() )
     exprOther = "0";  // only primary key columns: nothing can be modified
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
+  std::string sql = sqlitePrintf( "SELECT %s, %s FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
+                                  sqlAllColumns( "main", tableName, tbl ).c_str(), sqlAllColumns( "aux", tableName, tbl ).c_str(),
                                   "main", tableName.c_str(), "aux", tableName.c_str(), exprPk.c_str(), exprOther.c_str() );
   return sql;
 }
@@ -967,7 +983,7 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
 
     bool first = true;
     Sqlite3Stmt statementI;
-    statementI.prepare( mDb, "SELECT * FROM \"%w\".\"%w\"", dbName.c_str(), tableName.c_str() );
+    statementI.prepare( mDb, "SELECT %s FROM \"%w\".\"%w\"", sqlAllColumns( dbName, tableName, tbl ).c_str(), dbName.c_str(), tableName.c_str() );
     while ( statementI.nextRow() )
     {
       if ( first )
-- 
2.43.0


From 5c6f1db419848beb08a88a2b4807e5980780b4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:35 +0000
Subject: [PATCH 46/49] fix: fractional seconds of PostgreSQL timestamps are
 lost, rows with them can not be matched

---
 geodiff/src/drivers/postgresdriver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 54b35db..eb86a5f 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -346,7 +346,8 @@ static std::string allColumnNames( const TableSchema &tbl, const std::string &pr
     {
       // by default postgresql would return date/time as a formatted string
       // e.g. "2020-07-13 16:17:54" but we want IS0-8601 format "2020-07-13T16:17:54Z"
-      columns += "to_char(" + name + ",'YYYY-MM-DD\"T\"HH24:MI:SS\"Z\"')";
+      // (with fractional seconds if there are any: without them the value would not match the row's value)
+      columns += "replace(to_char(" + name + ",'YYYY-MM-DD\"T\"HH24:MI:SS.US\"Z\"'),'.000000Z','Z')";
     }
     else
       columns += name;
-- 
2.43.0


From 99efa1f471c00dd700b4b31c0194c74b3f9bae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:17 +0000
Subject: [PATCH 47/49] fix: names of temporary files do not repeat in every
 process

rand() is never seeded, so every process made the same names, and
operations that run at the same time overwrote each other's temporary
files.
---
 geodiff/src/geodiff.cpp      | 2 +-
 geodiff/src/geodiffutils.cpp | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index a95ca56..ddf57de 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -515,7 +515,7 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     return GEODIFF_ERROR;
   }
 
-  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + std::to_string( rand() ) );
+  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + randomString( 6 ) );
 
   try
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 1109684..af6a3f2 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -22,6 +22,7 @@
 #include <iostream>
 #include <sstream>
 #include <algorithm>
+#include <random>
 #include <cctype>
 #include <gpkg.h>
 #include <locale>
@@ -642,14 +643,16 @@ std::string lowercaseString( const std::string &str )
 // from https://stackoverflow.com/questions/440133/how-do-i-create-a-random-alpha-numeric-string-in-c
 std::string randomString( size_t length )
 {
-  auto randchar = []() -> char
+  // the names of temporary files are made of this: rand() would give every process the same sequence
+  std::random_device rd;
+  auto randchar = [&rd]() -> char
   {
     const char charset[] =
     "0123456789"
     "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
     "abcdefghijklmnopqrstuvwxyz";
     const size_t max_index = ( sizeof( charset ) - 1 );
-    return charset[ rand() % max_index ];
+    return charset[ rd() % max_index ];
   };
   std::string str( length, 0 );
   std::generate_n( str.begin(), length, randchar );
-- 
2.43.0


From 4d79b65215b9e8f5293fc26a2362ddbd0e9f5d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:24 +0000
Subject: [PATCH 48/49] fix: a rebased changeset that cannot be written is
 reported to the log

The message was printed to the standard output, so callers with a log
callback got an error without any message.
---
 geodiff/src/geodiffrebase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 6944807..e1cd289 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -559,7 +559,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
   ChangesetWriter writer;
   if ( !writer.open( changesetNew ) )
   {
-    std::cout << "unable to open file for writing " << changesetNew << std::endl;
+    Logger::instance().error( "Unable to open file for writing: " + changesetNew );
     return GEODIFF_ERROR;
   }
 
-- 
2.43.0


From ac8b40631d073eec2340338f75eef6c3e7f6c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:49 +0000
Subject: [PATCH 49/49] fix: conversions do not depend on the locale of the
 application

With a decimal comma (setlocale) the JSON output was not valid, real
numbers were refused by PostgreSQL and those read from it lost their
fraction; with Turkish rules of letters the type INTEGER was not
recognised.
---
 geodiff/src/changesetutils.cpp         |  2 +-
 geodiff/src/drivers/postgresdriver.cpp |  4 ++--
 geodiff/src/geodiffutils.cpp           | 25 ++++++++++++++++++++++++-
 geodiff/src/geodiffutils.hpp           |  8 +++++++-
 4 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 7055958..04bf9f7 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -110,7 +110,7 @@ std::string valueToJSON( const Value &value )
     case Value::TypeDouble:
       if ( !std::isfinite( value.getDouble() ) )
         return escapeJSONString( std::to_string( value.getDouble() ) );  // there are no such numbers in JSON
-      return std::to_string( value.getDouble() );
+      return numberFromLocale( std::to_string( value.getDouble() ) );
     case Value::TypeText:
       return escapeJSONString( value.getString() );
     case Value::TypeBlob:
diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index eb86a5f..02860b5 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -456,7 +456,7 @@ static Value resultToValue( const PostgresResult &res, int r, size_t i, const Ta
     }
     else if ( isColumnDouble( col ) )
     {
-      v.setDouble( atof( valueStr.c_str() ) );
+      v.setDouble( atof( numberToLocale( valueStr ).c_str() ) );
     }
     else if ( isColumnText( col ) )
     {
@@ -538,7 +538,7 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
   {
     char buf[32];
     snprintf( buf, sizeof( buf ), "'%.17g'", v.getDouble() );  // quoted because of NaN and Infinity
-    return buf;
+    return numberFromLocale( buf );
   }
   else if ( v.type() == Value::TypeText || v.type() == Value::TypeBlob )
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index af6a3f2..3ea590f 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -26,6 +26,7 @@
 #include <cctype>
 #include <gpkg.h>
 #include <locale>
+#include <clocale>
 #include <codecvt>
 
 #ifdef _WIN32
@@ -635,10 +636,32 @@ std::string lowercaseString( const std::string &str )
 {
   std::string ret = str;
   std::transform( ret.begin(), ret.end(), ret.begin(),
-  []( unsigned char c ) { return std::tolower( c ); } );
+  []( char c ) { return c >= 'A' && c <= 'Z' ? static_cast<char>( c - 'A' + 'a' ) : c; } );
   return ret;
 }
 
+static std::string replaceSeparator( const std::string &number, const std::string &from, const std::string &to )
+{
+  std::string ret = number;
+  if ( from != to )
+  {
+    size_t pos = ret.find( from );
+    if ( pos != std::string::npos )
+      ret.replace( pos, from.size(), to );
+  }
+  return ret;
+}
+
+std::string numberFromLocale( const std::string &number )
+{
+  return replaceSeparator( number, localeconv()->decimal_point, "." );
+}
+
+std::string numberToLocale( const std::string &number )
+{
+  return replaceSeparator( number, ".", localeconv()->decimal_point );
+}
+
 
 // from https://stackoverflow.com/questions/440133/how-do-i-create-a-random-alpha-numeric-string-in-c
 std::string randomString( size_t length )
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index 6d18599..3aa618a 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -87,9 +87,15 @@ bool fileexists( const std::string &path );
 //! whether string starts with substring
 bool startsWith( const std::string &str, const std::string &substr );
 
-//! Returns the same string converted to lower-case
+//! Returns the same string converted to lower-case (ASCII letters only, independent of the locale)
 std::string lowercaseString( const std::string &str );
 
+//! Replaces the decimal separator of the current locale (the application may have set one) with a dot
+std::string numberFromLocale( const std::string &number );
+
+//! Replaces the dot in a number with the decimal separator of the current locale
+std::string numberToLocale( const std::string &number );
+
 std::string replace( const std::string &str, const std::string &substr, const std::string &replacestr );
 
 //! writes std::string to file
-- 
2.43.0

