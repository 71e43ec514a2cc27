// The pipeline dispatchers under random work, counts and delays.
#include "rv.h"
#include "delay.h"
#define HAS_V4_PIPELINE
#define HAS_V8_PIPELINE
#define HAS_V16_PIPELINE
#include "src/util/pipelines/pipelines_exec.h"
#include <sched.h>
using namespace rv;

static const int MAXP = MAX_PIPELINE + 1;
static int n_shares[MAXP];           // executions of each share
static int done_shares[MAXP];
static int order_at, order[MAXP];    // completion order
static int wrong_n, wrong_arg;
static long hits_total;
static uint64_t op_seed;
static int delay_mode;

typedef struct { int tag, n, block; int *hit; double *out; int *who; } work_t;

static void pause_some( Rng &r ) {
  if( delay_mode == 0 ) return;
  int k = r.i( 0, 19 );
  if( delay_mode == 2 && k < 6 ) usleep( r.i( 0, 150 ) );
  else if( k < 9 ) { for( volatile int i = 0; i < r.i( 0, 4000 ); i++ ) {} }
  else if( k == 10 ) sched_yield();
}

static int str_used;
static void share( work_t *w, int rank, int n, int host_rank ) {
  Rng r( mix( op_seed, rank ) );
  pause_some( r );
  if( n != N_PIPELINE ) __atomic_fetch_add( &wrong_n, 1, __ATOMIC_RELAXED );
  if( rank < 0 || rank > n ) { __atomic_fetch_add( &wrong_n, 1, __ATOMIC_RELAXED ); return; }
  if( w->tag != ( str_used ? rank : 0 ) ) __atomic_fetch_add( &wrong_arg, 1, __ATOMIC_RELAXED );
  __atomic_fetch_add( &n_shares[rank], 1, __ATOMIC_RELAXED );
  int i, m;
  DISTRIBUTE( w->n, w->block, rank, n, i, m );
  if( rank < n && m % w->block ) __atomic_fetch_add( &wrong_arg, 1, __ATOMIC_RELAXED );
  for( ; m > 0; m--, i++ ) {
    if( i < 0 || i >= w->n ) { __atomic_fetch_add( &wrong_arg, 1, __ATOMIC_RELAXED ); break; }
    __atomic_fetch_add( &w->hit[i], 1, __ATOMIC_RELAXED );
    w->out[i] = i * 3.0 + w->block; // plain store: must be visible to the host afterwards
    w->who[i] = rank;
  }
  pause_some( r );
  order[ __atomic_fetch_add( &order_at, 1, __ATOMIC_RELAXED ) % MAXP ] = rank;
  __atomic_fetch_add( &done_shares[rank], 1, __ATOMIC_RELAXED );
  (void)host_rank;
}
static void probe_pipeline_scalar( work_t *w, int r, int n ) { share( w, r, n, 0 ); }
static void probe_pipeline_v4( work_t *w, int r, int n ) { share( w, r, n, 0 ); }
static void probe_pipeline_v8( work_t *w, int r, int n ) { share( w, r, n, 0 ); }
static void probe_pipeline_v16( work_t *w, int r, int n ) { share( w, r, n, 0 ); }

static void one_case() {
  Rng r( mix( opt_seed, cur_case ) );
  op_seed = r.next();
  delay_mode = r.i( 0, 2 );
  const int P = N_PIPELINE;
  work_t w[ MAXP ];
  int how = r.i( 0, 9 ), n = how < 3 ? r.i( 0, 3 * P ) : how < 6 ? r.i( 0, 300 ) : r.i( 0, 4000 );
  static const int blocks[] = { 1, 2, 4, 8, 16, 3 };
  int block = blocks[ r.i( 0, 5 ) ];
  std::vector<int> hit( n, 0 ), who( n, -1 ); std::vector<double> out( n, -1 );
  int str = r.i( 0, 1 );
  for( int k = 0; k <= P; k++ ) { w[k].tag = str ? k : 0; w[k].n = n; w[k].block = block; w[k].hit = hit.data(); w[k].out = out.data(); w[k].who = who.data(); }
  memset( n_shares, 0, sizeof n_shares ); memset( done_shares, 0, sizeof done_shares ); order_at = 0; wrong_n = wrong_arg = 0; str_used = str;
  int kind = r.i( 0, 9 ); bool host_share = true; int base_n = P;
#if defined(VPIC_USE_PTHREADS)
  if( kind == 9 ) { // the serial dispatcher, host share left out
    host_share = false; base_n = serial.n_pipeline;
    // the shares are asked to check N_PIPELINE, which is the thread dispatcher's
    if( base_n == P ) { serial.dispatch( (pipeline_func_t)probe_pipeline_scalar, w, sizeof *w, str ); serial.wait(); count( "serial_dispatches" ); }
    else { EXEC_PIPELINES( probe, w, str ); WAIT_PIPELINES(); host_share = true; base_n = P; }
  } else if( kind == 8 ) { // without a function nothing happens
    thread.dispatch( NULL, NULL, 0, 0 ); thread.wait(); count( "null_dispatches" );
    host_share = false; base_n = 0;
  } else if( kind == 7 ) { // dispatch without a share of the host
    thread.dispatch( (pipeline_func_t)probe_pipeline_scalar, w, sizeof *w, str ); thread.wait(); host_share = false;
  } else
#endif
  { EXEC_PIPELINES( probe, w, str ); WAIT_PIPELINES(); }
  // everything must be finished and visible now
  int total = 0;
  for( int k = 0; k <= P; k++ ) {
    int want = ( k < base_n || ( k == P && host_share ) ) ? 1 : 0;
    if( n_shares[k] != want ) viol( "share-count", fmt( "share %d of %d ran %d times (pipelines=%d kind=%d items=%d)", k, P, n_shares[k], P, kind, n ) );
    else if( __atomic_load_n( &done_shares[k], __ATOMIC_RELAXED ) != want ) viol( "share-unfinished", fmt( "share %d of %d was still running after the wait", k, P ) );
    total += n_shares[k];
  }
  if( wrong_n ) viol( "share-arguments", fmt( "%d shares were told a wrong rank or number of pipelines (%d)", wrong_n, P ) );
  if( wrong_arg ) viol( "share-arguments", fmt( "%d shares got the arguments of another share or an impossible range (stride %d, items %d, block %d, pipelines %d)", wrong_arg, str, n, block, P ) );
  if( base_n ) {
    int items = host_share ? n : n - n % block, bad = -1;
    int last = -1; bool ordered = true;
    for( int k = 0; k < n; k++ ) {
      int want = k < items ? 1 : 0;
      if( hit[k] != want ) { bad = k; break; }
      if( want && out[k] != k * 3.0 + block ) { bad = k; break; }
      if( want ) { if( who[k] < last ) ordered = false; last = who[k]; }
    }
    if( bad >= 0 ) viol( "item-count", fmt( "item %d of %d (block %d, %d pipelines) was processed %d times or its result is not visible", bad, n, block, P, hit[bad] ) );
    else if( !ordered ) viol( "item-order", fmt( "items of %d (block %d, %d pipelines) are not assigned in increasing order", n, block, P ) );
    count( "items", items );
  }
  count( "shares", total );
  std::string sig = fmt( "%d:", P ); for( int k = 0; k < order_at && k < 24; k++ ) sig += fmt( "%d,", order[k] );
  eval( sig ); // distinct completion orders
}

int main( int argc, char **argv ) {
  parse( argc, argv );
  boot_services( &argc, &argv );
  for( int k = opt_first; k < opt_first + opt_cases; k++ ) { cur_case = k; one_case(); }
  sample( fmt( "%d pipelines: %d dispatches, %d distinct completion orders", N_PIPELINE, opt_cases, (int)sigs.size() ) );
#ifndef RV_SANITIZED
  count( "injected_delays", rv_delays );
#endif
  done();
  halt_services();
  return 0;
}
