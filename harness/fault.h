// Injected file system faults on checkpoint files (names containing "/ck.").
// RV_FAULT="write N": the N-th write of a checkpoint record is refused (and
// those after it succeed again); "write+ N": refused from then on; "close",
// "open": the close or open fails; "read N": the N-th read ends early. With
// RV_FAULT="limit N" the file size is limited; with RV_FAULT="count" the numbers of calls are printed. RV_FAULT_RANK limits it.
#ifndef rv_fault_h
#define rv_fault_h
#include "delay.h"
#ifndef RV_SANITIZED
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <signal.h>
#include <sys/resource.h>
static struct rlimit rv_fault_lim;
static struct { int on; char what[16]; long n, writes, reads; FILE *fp; } rv_fault;
static void rv_fault_init() {
  if( rv_fault.on ) return;
  rv_fault.on = 1;
  const char *v = getenv( "RV_FAULT" ), *r = getenv( "RV_FAULT_RANK" ), *me = getenv( "OMPI_COMM_WORLD_RANK" );
  if( !v || ( r && me && strcmp( r, me ) ) ) return;
  if( sscanf( v, "%15s %ld", rv_fault.what, &rv_fault.n ) >= 1 ) rv_fault.on = 2;
}
#define RV_NEXT( name ) typedef __typeof__( &::name ) fn_t; static fn_t fn = 0; if( !fn ) { fn = (fn_t)dlvsym( RTLD_NEXT, #name, "GLIBC_2.2.5" ); if( !fn ) fn = (fn_t)dlsym( RTLD_NEXT, #name ); }
static int rv_fault_is( const char *w ) { return rv_fault.on == 2 && !strcmp( rv_fault.what, w ); }
extern "C" FILE *fopen( const char *name, const char *mode ) {
  RV_NEXT( fopen )
  rv_fault_init();
  const char *b = strstr( name, "/ck." );
  if( b && rv_fault_is( "open" ) ) { errno = ENOSPC; return NULL; }
  FILE *f = fn( name, mode );
  if( b && rv_fault.on == 2 ) rv_fault.fp = f;
  if( b && rv_fault_is( "limit" ) ) { // the file may not grow beyond N bytes
    signal( SIGXFSZ, SIG_IGN ); getrlimit( RLIMIT_FSIZE, &rv_fault_lim );
    struct rlimit l = rv_fault_lim; l.rlim_cur = (rlim_t)rv_fault.n; setrlimit( RLIMIT_FSIZE, &l );
  }
  return f;
}
extern "C" size_t fwrite( const void *p, size_t s, size_t n, FILE *f ) {
  RV_NEXT( fwrite )
  if( f && f == rv_fault.fp ) {
    long k = ++rv_fault.writes;
    if( ( rv_fault_is( "write" ) && k == rv_fault.n ) || ( rv_fault_is( "write+" ) && k >= rv_fault.n ) ) { errno = ENOSPC; return n ? fn( p, s, n / 2, f ) : 0; }
  }
  return fn( p, s, n, f );
}
extern "C" size_t fread( void *p, size_t s, size_t n, FILE *f ) {
  RV_NEXT( fread )
  if( f && f == rv_fault.fp && ++rv_fault.reads == rv_fault.n && rv_fault_is( "read" ) ) { errno = EIO; return n ? fn( p, s, n / 2, f ) : 0; }
  return fn( p, s, n, f );
}
extern "C" int fclose( FILE *f ) {
  RV_NEXT( fclose )
  int mine = f && f == rv_fault.fp;
  if( mine ) { rv_fault.fp = NULL; if( rv_fault_is( "count" ) ) { printf( "\n@@ {\"t\":\"io\",\"writes\":%ld,\"reads\":%ld}\n", rv_fault.writes, rv_fault.reads ); fflush( stdout ); rv_fault.writes = rv_fault.reads = 0; } }
  int r = fn( f );
  if( mine && rv_fault_is( "limit" ) ) setrlimit( RLIMIT_FSIZE, &rv_fault_lim );
  if( mine && rv_fault_is( "close" ) ) { errno = EIO; return EOF; }
  return r;
}
#endif
#endif
