/* Declarations only: what the analysed sources use of libgpkg (not installed here). */
#ifndef VERIF_STUB_GPKG_H
#define VERIF_STUB_GPKG_H
#include <sqlite3.h>
#ifdef __cplusplus
extern "C" {
#endif
int sqlite3_gpkg_auto_init( sqlite3 *db, const char **pzErrMsg, const sqlite3_api_routines *pThunk );
#ifdef __cplusplus
}
#endif
#endif
