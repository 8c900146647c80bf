/* Stand-ins: libgpkg's start-up function does nothing; libpq's functions hand each command to a handler. */
#include <stdlib.h>
#include <string.h>
#include <sqlite3.h>
#include <libpq-fe.h>
int sqlite3_gpkg_auto_init( sqlite3 *db, const char **e, const void *t ) { return 0; }

typedef const char *( *handler_t )( const char *sql );
static handler_t g_handler;
char mock_conninfo[1000];
int mock_open_conns, mock_open_results;
void mock_set_handler( handler_t h ) { g_handler = h; }
const char *mock_get_conninfo() { return mock_conninfo; }
int mock_results() { return mock_open_results; }
int mock_conns() { return mock_open_conns; }

struct pg_conn { int ok; };
struct pg_result { int status, rows, cols; char err[500], tuples[50]; char **v; };
PGconn *PQconnectdb( const char *ci ) { PGconn *c = calloc( 1, sizeof( *c ) ); c->ok = 1; strncpy( mock_conninfo, ci, 999 ); mock_open_conns++; return c; }
ConnStatusType PQstatus( const PGconn *c ) { return c ? CONNECTION_OK : CONNECTION_BAD; }
void PQfinish( PGconn *c ) { mock_open_conns--; free( c ); }
char *PQerrorMessage( const PGconn *c ) { return "mock error"; }
/* the handler's answer: "status|cmdtuples|columns|" then the values, each ended by \x1f, NULL being \x01 */
PGresult *PQexec( PGconn *c, const char *sql )
{
  PGresult *r = calloc( 1, sizeof( *r ) );
  mock_open_results++;
  const char *a = g_handler ? g_handler( sql ) : "C|0|0|";
  r->status = *a == 'C' ? PGRES_COMMAND_OK : *a == 'T' ? PGRES_TUPLES_OK : PGRES_FATAL_ERROR;
  a = strchr( a, '|' ) + 1;
  int n = strchr( a, '|' ) - a;
  memcpy( r->tuples, a, n );
  a += n + 1;
  r->cols = atoi( a );
  a = strchr( a, '|' ) + 1;
  int cnt = 0;
  const char *p;
  for ( p = a; *p; ++p ) cnt += *p == 0x1f;
  r->v = calloc( cnt + 1, sizeof( char * ) );
  cnt = 0;
  while ( ( p = strchr( a, 0x1f ) ) ) { r->v[cnt++] = *a == 1 ? 0 : strndup( a, p - a ); a = p + 1; }
  r->rows = r->cols ? cnt / r->cols : 0;
  return r;
}
ExecStatusType PQresultStatus( const PGresult *r ) { return r->status; }
char *PQresultErrorMessage( const PGresult *r ) { return "mock error"; }
void PQclear( PGresult *r ) { mock_open_results--; free( r ); }
int PQntuples( const PGresult *r ) { return r->rows; }
char *PQcmdTuples( PGresult *r ) { return r->tuples; }
char *PQgetvalue( const PGresult *r, int i, int j ) { char *v = r->v[i * r->cols + j]; return v ? v : ""; }
int PQgetisnull( const PGresult *r, int i, int j ) { return !r->v[i * r->cols + j]; }
