// Every block and every file the linked objects take from the C library and
// have not returned (link with RV_RES_WRAP: calls of the objects are wrapped,
// those inside MPI and the C library are not).
#ifndef rv_res_h
#define rv_res_h
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdint.h>
#include <pthread.h>
#include <dirent.h>
#include <unistd.h>
#include <execinfo.h>
struct rv_res_t { void *p; size_t n; long when; uint64_t site; void *bt[14]; int nbt; char kind; };
static rv_res_t *rv_res_tab; static long rv_res_cap = 1 << 16, rv_res_live[2], rv_res_bytes, rv_res_made, rv_res_bad, rv_res_now = -1, rv_res_peak;
static pthread_mutex_t rv_res_mx = PTHREAD_MUTEX_INITIALIZER;
extern "C" {
void *__real_malloc( size_t ); void __real_free( void * ); void *__real_calloc( size_t, size_t ); void *__real_realloc( void *, size_t );
int __real_posix_memalign( void **, size_t, size_t ); void *__real_aligned_alloc( size_t, size_t );
FILE *__real_fopen( const char *, const char * ); int __real_fclose( FILE * ); char *__real_strdup( const char * );
}
static long rv_res_slot( void *p ) {
  if( !rv_res_tab ) rv_res_tab = (rv_res_t *)__real_calloc( rv_res_cap, sizeof( rv_res_t ) );
  uint64_t h = (uint64_t)(uintptr_t)p * 0x9e3779b97f4a7c15ull; long i = (long)( h >> 48 ) & ( rv_res_cap - 1 );
  while( rv_res_tab[i].p && rv_res_tab[i].p != p ) i = ( i + 1 ) & ( rv_res_cap - 1 );
  return i;
}
static void rv_res_add( void *p, size_t n, char kind ) {
  if( !p ) return;
  void *bt[16]; int nb = backtrace( bt, 16 );
  pthread_mutex_lock( &rv_res_mx );
  long at = rv_res_slot( p );
  rv_res_t *e = rv_res_tab + at;
  e->p = p; e->n = n; e->when = rv_res_now; e->kind = kind; e->site = 0; e->nbt = 0;
  for( int k = 2; k < nb; k++ ) { e->bt[e->nbt++] = bt[k]; if( k < 6 ) e->site = e->site * 1000003 + (uint64_t)(uintptr_t)bt[k]; }
  rv_res_live[kind == 'f']++; rv_res_made++; if( kind != 'f' ) rv_res_bytes += (long)n;
  if( rv_res_live[0] > rv_res_peak ) rv_res_peak = rv_res_live[0];
  if( rv_res_live[0] + rv_res_live[1] > rv_res_cap / 2 ) { fprintf( stderr, "rv_res: more than %ld blocks\n", rv_res_cap / 2 ); abort(); }
  pthread_mutex_unlock( &rv_res_mx );
}
static void rv_res_del( void *p ) {
  if( !p ) return;
  pthread_mutex_lock( &rv_res_mx );
  long i = rv_res_slot( p );
  if( rv_res_tab[i].p ) { // blocks of the libraries returned here are not ours
    rv_res_live[rv_res_tab[i].kind == 'f']--; if( rv_res_tab[i].kind != 'f' ) rv_res_bytes -= (long)rv_res_tab[i].n;
    rv_res_tab[i].p = 0;
    for( long j = ( i + 1 ) & ( rv_res_cap - 1 ); rv_res_tab[j].p; j = ( j + 1 ) & ( rv_res_cap - 1 ) ) { // close the gap
      rv_res_t e = rv_res_tab[j]; rv_res_tab[j].p = 0; rv_res_tab[rv_res_slot( e.p )] = e;
    }
  }
  pthread_mutex_unlock( &rv_res_mx );
}
extern "C" {
void *__wrap_malloc( size_t n ) { void *p = __real_malloc( n ); rv_res_add( p, n, 'm' ); return p; }
void *__wrap_calloc( size_t a, size_t b ) { void *p = __real_calloc( a, b ); rv_res_add( p, a * b, 'm' ); return p; }
void *__wrap_realloc( void *q, size_t n ) { rv_res_del( q ); void *p = __real_realloc( q, n ); rv_res_add( p, n, 'm' ); return p; }
int __wrap_posix_memalign( void **q, size_t a, size_t n ) { int r = __real_posix_memalign( q, a, n ); if( !r ) rv_res_add( *q, n, 'm' ); return r; }
void *__wrap_aligned_alloc( size_t a, size_t n ) { void *p = __real_aligned_alloc( a, n ); rv_res_add( p, n, 'm' ); return p; }
void __wrap_free( void *p ) { rv_res_del( p ); __real_free( p ); }
FILE *__wrap_fopen( const char *a, const char *b ) { FILE *f = __real_fopen( a, b ); rv_res_add( f, 0, 'f' ); return f; }
int __wrap_fclose( FILE *f ) { rv_res_del( f ); return __real_fclose( f ); }
void *__real__Znwm( size_t ); void *__real__Znam( size_t ); void __real__ZdlPv( void * ); void __real__ZdlPvm( void *, size_t ); void __real__ZdaPv( void * ); void __real__ZdaPvm( void *, size_t );
void *__wrap__Znwm( size_t n ) { void *p = __real__Znwm( n ); rv_res_add( p, n, 'n' ); return p; }
void *__wrap__Znam( size_t n ) { void *p = __real__Znam( n ); rv_res_add( p, n, 'n' ); return p; }
void __wrap__ZdlPv( void *p ) { rv_res_del( p ); __real__ZdlPv( p ); }
void __wrap__ZdlPvm( void *p, size_t n ) { rv_res_del( p ); __real__ZdlPvm( p, n ); }
void __wrap__ZdaPv( void *p ) { rv_res_del( p ); __real__ZdaPv( p ); }
void __wrap__ZdaPvm( void *p, size_t n ) { rv_res_del( p ); __real__ZdaPvm( p, n ); }
char *__wrap_strdup( const char *s ) { char *p = __real_strdup( s ); rv_res_add( p, strlen( s ) + 1, 'm' ); return p; }
}
static int rv_res_dir( const char *n ) { int k = 0; if( DIR *d = opendir( n ) ) { while( readdir( d ) ) k++; closedir( d ); } return k; }
// One line per step: step blocks bytes files descriptors threads made
static FILE *rv_res_log; static char rv_res_base[600];
static void rv_res_step( const char *base, long step ) {
  if( !rv_res_log ) { snprintf( rv_res_base, sizeof rv_res_base, "%s", base ); char b[700]; snprintf( b, sizeof b, "%s.res", base ); rv_res_log = __real_fopen( b, "w" ); if( !rv_res_log ) return; }
  rv_res_now = step;
  fprintf( rv_res_log, "S %ld %ld %ld %ld %d %d %ld\n", step, rv_res_live[0], rv_res_bytes, rv_res_live[1], rv_res_dir( "/proc/self/fd" ), rv_res_dir( "/proc/self/task" ), rv_res_made );
}
// What is left: L kind bytes step site frames
static void rv_res_left( const char *mark ) {
  if( !rv_res_log ) return;
  fprintf( rv_res_log, "%s %ld %ld %ld %ld\n", mark, rv_res_live[0], rv_res_bytes, rv_res_live[1], rv_res_made );
  for( long i = 0; i < rv_res_cap; i++ ) if( rv_res_tab[i].p ) {
    rv_res_t &e = rv_res_tab[i];
    fprintf( rv_res_log, "L %s %c %zu %ld %llx", mark, e.kind, e.n, e.when, (unsigned long long)e.site );
    char **s = backtrace_symbols( e.bt, e.nbt );
    for( int k = 0; s && k < e.nbt; k++ ) { char *a = strchr( s[k], '(' ), *b = a ? strpbrk( a, "+)" ) : NULL; if( b ) *b = 0; fprintf( rv_res_log, " %s", a && a[1] ? a + 1 : "?" ); }
    if( s ) __real_free( s );
    fprintf( rv_res_log, "\n" );
  }
  fflush( rv_res_log );
}
// Between the cases of a harness nothing may stay behind (new blocks of C++
// are the harness's own). Returns a description of what did, or NULL.
static const char *rv_res_case( long k ) {
  static char msg[1500]; static long base = -1, base_f = 0; const char *out = NULL;
  long n = 0; for( long i = 0; i < rv_res_cap; i++ ) if( rv_res_tab && rv_res_tab[i].p && rv_res_tab[i].kind == 'm' ) n++;
  if( base < 0 && k >= 3 ) base = n, base_f = rv_res_live[1];
  else if( base >= 0 && ( n > base + 6 || rv_res_live[1] > base_f + 1 ) ) {
    int l = snprintf( msg, sizeof msg, "%ld blocks and %ld files are held after case %ld, %ld and %ld after the third; the last of them:", n, rv_res_live[1], k, base, base_f );
    for( long i = 0, q = 0; i < rv_res_cap && q < 3; i++ ) if( rv_res_tab[i].p && rv_res_tab[i].kind != 'n' && rv_res_tab[i].when >= k - 1 && l < 1200 ) {
      rv_res_t &e = rv_res_tab[i]; q++;
      char **s = backtrace_symbols( e.bt, e.nbt );
      l += snprintf( msg + l, sizeof msg - l, " [%zu bytes", e.n );
      for( int j = 0; s && j < e.nbt && j < 5 && l < 1300; j++ ) { char *a = strchr( s[j], '(' ), *b = a ? strpbrk( a, "+)" ) : NULL; if( b ) *b = 0; l += snprintf( msg + l, sizeof msg - l, " %.60s", a && a[1] ? a + 1 : "?" ); }
      l += snprintf( msg + l, sizeof msg - l, "]" );
      if( s ) __real_free( s );
    }
    base = n, base_f = rv_res_live[1]; out = msg;
  }
  rv_res_now = k + 1;
  return out;
}
struct rv_res_end_t { ~rv_res_end_t() { rv_res_left( "E" ); } };
static rv_res_end_t rv_res_end;
#endif
