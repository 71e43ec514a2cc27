// Complete simulations, one after the other, watched step by step from the
// hooks of the input deck and from the field advance they were given.
#include "rv.h"
#define IN_emitter
#define IN_collision
#include "src/emitter/emitter_private.h"
#include "src/collision/collision_private.h"
#include "deck/wrapper.h"
using namespace rv;

static Rng rr, lr;
static std::string ctx;
static int GP[3], ME[3], LN[3], GN[3];
static double T0; static int64_t ST0;

// ---- configuration, as asked
static int c_num, c_div_e, r_div_e, c_div_b, r_div_b, c_sync, c_stat, c_comm;
static bool special; // hooks that compute what should come next
static int *p_num, *p_ci, *p_hi, *p_fi, *p_pi; static double *p_quota;

// ---- one step as it went
enum { INIT = 'I', COLL = 'c', PART = 'p', CURR = 'j', FLD = 'f', DIAG = 'd', COP = 'C', EMIT = 'E' };
static std::string trace;                 // hooks, and the advances of the fields between them
static std::map<std::string,int> calls;   // of the field advance
static double fb, fe;                     // how far the fields went
static field_advance_kernels_t K;         // the real field advance
static bool quiet;                        // calls are the monitor's own
static std::string stale;                 // a divergence clean that used old data
static vpic_simulation *the_sim;
static int n_init, n_diag, steps_seen;
static int64_t now; static bool cleaning;

struct State { uint64_t fld, ord, set, pos; int nm; };
static State last, atc, atp, atj, atf;
static std::vector<field_t> pred_e, pred_b; static int at_v; static float dj;
static std::vector<std::vector<particle_t> > loaded;

static uint64_t hash( const void *p, size_t n, uint64_t h = 1469598103934665603ull ) { const unsigned char *b = (const unsigned char *)p; for( size_t k = 0; k < n; k++ ) h = ( h ^ b[k] ) * 1099511628211ull; return h; }

static State snap( field_array_t *fa, species_t *sl ) {
  State s = { 5, 7, 0, 0, 0 };
  for( int v = 0; v < fa->g->nv; v++ ) { const field_t &f = fa->f[v]; const float q[6] = { f.ex, f.ey, f.ez, f.cbx, f.cby, f.cbz }; s.fld = hash( q, sizeof q, s.fld ); }
  species_t *sp; LIST_FOR_EACH( sp, sl ) {
    s.nm += sp->nm;
    for( int i = 0; i < sp->np; i++ ) { s.ord = hash( &sp->p[i], sizeof( particle_t ), s.ord ); s.set += hash( &sp->p[i], sizeof( particle_t ), 77 + sp->id ); s.pos += hash( &sp->p[i], 16, 99 + sp->id ); }
  }
  return s;
}

static float f_b( field_array_t *fa, float frac ) { if( !quiet ) { trace += "b"; fb += frac; } K.advance_b( fa, frac ); return 0; }
static void w_b( field_array_t *fa, float frac ) { f_b( fa, frac ); }
static void w_e( field_array_t *fa, float frac ) { if( !quiet ) { trace += "e"; fe += frac; } K.advance_e( fa, frac ); }
static void w_jf( field_array_t *fa ) { if( !quiet ) calls["clear_jf"]++; K.clear_jf( fa ); }
static void w_sjf( field_array_t *fa ) { if( !quiet ) calls["synchronize_jf"]++; K.synchronize_jf( fa ); }
static double w_sync( field_array_t *fa ) { if( !quiet ) calls["synchronize_tang_e_norm_b"]++; return K.synchronize_tang_e_norm_b( fa ); }
static species_t **p_sl;
static void fresh( field_array_t *fa, bool e ) {
  // would computing the error now give what the clean is about to use?
  std::vector<field_t> keep( fa->f, fa->f + fa->g->nv ); double d = 0, sc = 0; const grid_t *g = fa->g;
  if( e ) {
    K.clear_rhof( fa ); species_t *sp; LIST_FOR_EACH( sp, *p_sl ) accumulate_rho_p( fa, sp );
    K.synchronize_rho( fa ); K.compute_div_e_err( fa );
  } else K.compute_div_b_err( fa );
  for( int k = 1; k <= g->nz; k++ ) for( int j = 1; j <= g->ny; j++ ) for( int i = 1; i <= g->nx; i++ ) {
    int v = i + g->sy * j + g->sz * k; double a = e ? keep[v].div_e_err : keep[v].div_b_err, b = e ? fa->f[v].div_e_err : fa->f[v].div_b_err;
    const field_t &f = keep[v]; double m = e ? fabs( f.ex ) + fabs( f.ey ) + fabs( f.ez ) : fabs( f.cbx ) + fabs( f.cby ) + fabs( f.cbz );
    sc = std::max( sc, m * ( g->rdx + g->rdy + g->rdz ) * ( e ? g->eps0 : 1 ) ); if( e ) sc = std::max( sc, fabs( (double)f.rhof ) + fabs( (double)f.rhob ) ); sc = std::max( sc, fabs( a ) );
    d = std::max( d, fabs( a - b ) );
  }
  if( !( d <= 1e-4 * sc + 1e-20 ) ) stale += fmt( " %s(%.3g of %.3g)", e ? "div_e" : "div_b", d, sc );
  memcpy( (void*)fa->f, &keep[0], keep.size() * sizeof( field_t ) ); count( "cleans_watched" );
}
static void w_ce( field_array_t *fa ) { if( !quiet ) { calls["clean_div_e"]++; trace += "X"; fresh( fa, true ); } K.clean_div_e( fa ); }
static void w_cb( field_array_t *fa ) { if( !quiet ) { calls["clean_div_b"]++; trace += "Y"; fresh( fa, false ); } K.clean_div_b( fa ); }

static void op_coll( void *c ) { trace += (char)COP; calls["collision"]++; State s = snap( *(field_array_t **)c, *p_sl ); if( s.set != last.set || s.fld != last.fld ) viol( "order", ctx + fmt( " step %lld: particles or fields moved before the collisions", (long long)now ) ); }
static void del_coll( collision_op_t *c ) { count( "operators_released" ); delete_collision_op_internal( c ); }
static void op_emit( void *c, const int32_t *, int ) { trace += (char)EMIT; calls["emitter"]++; State s = snap( *(field_array_t **)c, *p_sl ); if( s.fld != last.fld ) viol( "order", ctx + fmt( " step %lld: the fields moved before the emission", (long long)now ) ); }
static void del_emit( emitter_t *e ) { count( "operators_released" ); delete_emitter_internal( e ); }
static field_array_t *the_fa;

static int hit( int interval, int64_t s ) { return interval > 0 && s % interval == 0; }

begin_globals { int64_t steps; };

static void check_time( const char *where, double t, int64_t s, double dt ) {
  if( s != now ) viol( "steps", ctx + fmt( ": %s ran at step %lld, expected %lld", where, (long long)s, (long long)now ) );
  if( t != T0 + dt * (double)s ) viol( "time", ctx + fmt( ": %s at step %lld has time %.17g, expected %.17g", where, (long long)s, t, T0 + dt * (double)s ) );
}

begin_initialization {
  (void)num_cmdline_arguments; (void)cmdline_argument;
  n_init++; the_sim = this;
  if( num_step || num_comm_round != 3 || num_div_e_round != 2 || num_div_b_round != 2 || status_interval || clean_div_e_interval || clean_div_b_interval || sync_shared_interval || quota || checkpt_interval || verbose != 1 )
    viol( "defaults", ctx + ": a new simulation does not start from its documented defaults" );
  int left = nproc(); for( int a = 0; a < 3; a++ ) GP[a] = 1;
  for( int f = 2; left > 1; ) { if( left % f ) { f++; continue; } GP[ rr.i( 0, 2 ) ] *= f; left /= f; }
  { int r = rank(); for( int a = 0; a < 3; a++ ) { ME[a] = r % GP[a]; r /= GP[a]; } }
  double D[3], X[3], L[3];
  for( int a = 0; a < 3; a++ ) { LN[a] = rr.chance( 0.15 ) && GP[a] == 1 ? 1 : rr.i( 2, 5 ); GN[a] = LN[a] * GP[a]; D[a] = rr.u( 0.5, 1.5 ); X[a] = rr.u( -3, 3 ); L[a] = D[a] * GN[a]; }
  if( GN[0] * GN[1] * GN[2] == 1 ) { LN[0] = GN[0] = 4; L[0] = 4 * D[0]; }
  double cv = rr.u( 0.5, 2 ), ep = rr.u( 0.5, 2 );
  define_units( cv, ep );
  static const int64_t st[] = { 0, 0, 0, 0, 1, 7, 12, 1000, 2147480000ll };
  ST0 = st[ rr.i( 0, 8 ) ]; T0 = rr.chance( 0.5 ) ? 0 : rr.u( -5, 5 );
  define_timestep( rr.u( 0.4, 0.9 ) * courant_length( L[0], L[1], L[2], GN[0], GN[1], GN[2] ) / cv, T0, ST0 );
  int kind = rr.i( 0, 2 );
  if( kind == 0 ) define_periodic_grid( X[0], X[1], X[2], X[0] + L[0], X[1] + L[1], X[2] + L[2], GN[0], GN[1], GN[2], GP[0], GP[1], GP[2] );
  if( kind == 1 ) define_absorbing_grid( X[0], X[1], X[2], X[0] + L[0], X[1] + L[1], X[2] + L[2], GN[0], GN[1], GN[2], GP[0], GP[1], GP[2], rr.chance( 0.5 ) ? (int)reflect_particles : (int)absorb_particles );
  if( kind == 2 ) define_reflecting_grid( X[0], X[1], X[2], X[0] + L[0], X[1] + L[1], X[2] + L[2], GN[0], GN[1], GN[2], GP[0], GP[1], GP[2] );
  static const int iv[] = { -1, 0, 0, 1, 1, 2, 3, 4, 5, 7 };
  num_step = c_num = rr.chance( 0.1 ) ? (int)( ST0 ? ST0 - rr.i( 0, 1 ) : 0 ) : (int)ST0 + rr.i( 1, 12 );
  clean_div_e_interval = c_div_e = iv[ rr.i( 0, 9 ) ]; clean_div_b_interval = c_div_b = iv[ rr.i( 0, 9 ) ]; sync_shared_interval = c_sync = iv[ rr.i( 0, 9 ) ];
  num_div_e_round = r_div_e = rr.i( 1, 4 ); num_div_b_round = r_div_b = rr.i( 1, 4 ); num_comm_round = c_comm = rr.i( 3, 6 );
  status_interval = c_stat = iv[ rr.i( 0, 9 ) ];
  verbose = rr.i( 0, 1 );
  quota = 11; checkpt_interval = 5; hydro_interval = 6; field_interval = 7; particle_interval = 8;
  p_num = &num_step; p_ci = &checkpt_interval; p_hi = &hydro_interval; p_fi = &field_interval; p_pi = &particle_interval; p_quota = &quota; p_sl = &species_list;
  define_material( "vacuum", 1 ); if( rr.chance( 0.5 ) ) define_material( "glass", 2.5, 1.5, rr.chance( 0.5 ) ? 0 : 0.1 );
  define_field_array( NULL, rr.chance( 0.3 ) ? 0.02 : 0 );
  ctx += fmt( " kind=%d n=%d,%d,%d topo=%d,%d,%d steps=%lld..%d div_e=%dx%d div_b=%dx%d sync=%d", kind, GN[0], GN[1], GN[2], GP[0], GP[1], GP[2], (long long)ST0, c_num, c_div_e, r_div_e, c_div_b, r_div_b, c_sync );
  K = *field_array->kernel; the_fa = field_array;
  field_array->kernel->advance_b = w_b; field_array->kernel->advance_e = w_e; field_array->kernel->clear_jf = w_jf; field_array->kernel->synchronize_jf = w_sjf;
  field_array->kernel->synchronize_tang_e_norm_b = w_sync; field_array->kernel->clean_div_e = w_ce; field_array->kernel->clean_div_b = w_cb;
  int ns = rr.chance( 0.15 ) ? 0 : rr.i( 1, 3 ); static const char *nm[] = { "a", "b", "c" };
  double amp = rr.chance( 0.2 ) ? 0 : 0.1;
  for( int s = 0; s < ns; s++ ) {
    int np = rr.i( 0, 4 ) ? rr.i( 1, 300 ) : 0;
    species_t *sp = define_species( nm[s], rr.chance( 0.2 ) ? 0 : rr.u( -1, 1 ), 1, 4000, 4000, iv[ rr.i( 0, 9 ) ], rr.i( 0, 1 ) );
    for( int n = 0; n < np; n++ ) inject_particle( sp, grid->x0 + ( grid->x1 - grid->x0 ) * lr.u( 1e-6, 1 - 1e-6 ), grid->y0 + ( grid->y1 - grid->y0 ) * lr.u( 1e-6, 1 - 1e-6 ), grid->z0 + ( grid->z1 - grid->z0 ) * lr.u( 1e-6, 1 - 1e-6 ), 0.3 * lr.n(), 0.3 * lr.n(), 0.3 * lr.n(), 0.01 * lr.u( 0.5, 1 ), 0, 0 );
  }
  loaded.clear(); { species_t *sp; LIST_FOR_EACH( sp, species_list ) loaded.push_back( std::vector<particle_t>( sp->p, sp->p + sp->np ) ); }
  if( rr.chance( 0.5 ) ) define_collision_op( new_collision_op_internal( &the_fa, op_coll, del_coll, NULL, NULL, NULL ) );
  if( rr.chance( 0.5 ) ) define_emitter( new_emitter_internal( &the_fa, op_emit, del_emit, NULL, NULL, NULL ) );
  special = rr.chance( 0.5 );
  { // smooth fields every rank agrees on
    double kx = 2 * M_PI / L[0], ky = 2 * M_PI / L[1], kz = 2 * M_PI / L[2], p = rr.u( 0, 6 );
    if( kind == 0 ) { set_region_field( everywhere, amp * sin( ky * y + p ), amp * sin( kz * z + p ), amp * sin( kx * x + p ), 0.4 + amp * sin( ky * y + p ), 0.3 + amp * sin( kz * z + 1 ), 0.2 + amp * sin( kx * x + p ) ); }
    else { set_region_field( everywhere, 0, 0, 0, amp * sin( ky * y + p ), 0, amp * sin( kx * x + p ) ); }
  }
  global->steps = 0; now = ST0; trace = "I"; stale = ""; calls.clear();
}

begin_particle_collisions {
  trace += (char)COLL; now = step(); check_time( "user_particle_collisions", time(), step(), grid->dt );
  atc = snap( field_array, species_list );
  if( atc.fld != last.fld ) viol( "order", ctx + fmt( " step %lld: the fields moved before user_particle_collisions", (long long)now ) );
  if( atc.set != last.set ) viol( "order", ctx + fmt( " step %lld: the particles moved before user_particle_collisions", (long long)now ) );
  if( atc.nm ) viol( "order", ctx + fmt( " step %lld: movers are left when the step starts", (long long)now ) );
  // sorted exactly when asked
  species_t *sp; int any = 0; LIST_FOR_EACH( sp, species_list ) {
    bool want = hit( sp->sort_interval, now ); any += want;
    if( want ) {
      for( int i = 1; i < sp->np; i++ ) if( sp->p[i].i < sp->p[i - 1].i ) { viol( "sort", ctx + fmt( " step %lld: species %s with sort interval %d is not sorted", (long long)now, sp->name, sp->sort_interval ) ); break; }
      count( "sorts_seen" );
    } else count( "steps_without_sort" );
  }
  if( !any && atc.ord != last.ord ) viol( "sort", ctx + fmt( " step %lld: particles were reordered although no sort was asked for", (long long)now ) );
}

begin_particle_injection {
  trace += (char)PART; check_time( "user_particle_injection", time(), step(), grid->dt );
  atp = snap( field_array, species_list ); int np = 0; species_t *sp; LIST_FOR_EACH( sp, species_list ) np += sp->np;
  if( atp.fld != last.fld ) viol( "order", ctx + fmt( " step %lld: the fields moved before user_particle_injection", (long long)now ) );
  if( np && atp.pos == atc.pos ) viol( "order", ctx + fmt( " step %lld: the particles had not moved at user_particle_injection", (long long)now ) );
}

begin_current_injection {
  trace += (char)CURR; check_time( "user_current_injection", time(), step(), grid->dt );
  atj = snap( field_array, species_list );
  if( atj.fld != last.fld ) viol( "order", ctx + fmt( " step %lld: the fields moved before user_current_injection", (long long)now ) );
  if( atj.nm ) viol( "order", ctx + fmt( " step %lld: movers are left at user_current_injection", (long long)now ) );
  if( !special ) return;
  // what the rest of the step should make of the fields, with and without more current
  const int nv = grid->nv; std::vector<field_t> keep( field_array->f, field_array->f + nv );
  dj = (float)lr.u( 0.5, 1.5 ); at_v = voxel( 1, LN[1] > 1 ? 2 : 1, LN[2] > 1 ? 2 : 1 );
  quiet = true;
  field( at_v ).jfx += dj;
  K.advance_b( field_array, 0.5 ); K.advance_e( field_array, 1 );
  quiet = false;
  pred_e.assign( field_array->f, field_array->f + nv ); memcpy( (void*)field_array->f, &keep[0], nv * sizeof( field_t ) );
  field( at_v ).jfx += dj;
}

static double fdiff( const std::vector<field_t> &a, const field_t *b, const grid_t *g ) {
  double d = 0, sc = 1e-30;
  for( int k = 1; k <= g->nz; k++ ) for( int j = 1; j <= g->ny; j++ ) for( int i = 1; i <= g->nx; i++ ) {
    int v = i + g->sy * j + g->sz * k; const float x[6] = { a[v].ex, a[v].ey, a[v].ez, a[v].cbx, a[v].cby, a[v].cbz }, y[6] = { b[v].ex, b[v].ey, b[v].ez, b[v].cbx, b[v].cby, b[v].cbz };
    for( int c = 0; c < 6; c++ ) { d = std::max( d, (double)fabs( x[c] - y[c] ) ); sc = std::max( sc, (double)fabs( x[c] ) ); if( std::isnan( x[c] ) != std::isnan( y[c] ) ) d = 1e30; }
  }
  return d / sc;
}

begin_field_injection {
  trace += (char)FLD; check_time( "user_field_injection", time(), step(), grid->dt );
  if( !special ) return;
  double d = fdiff( pred_e, field_array->f, grid );
  if( !( d < 2e-5 ) ) viol( "order", ctx + fmt( " step %lld: at user_field_injection the fields differ by %g from E at the new time and B half way, with the injected current", (long long)now, d ) );
  field( at_v ).ex += 0.01f * dj;
  const int nv = grid->nv; std::vector<field_t> keep( field_array->f, field_array->f + nv );
  quiet = true; K.advance_b( field_array, 0.5 ); quiet = false;
  pred_b.assign( field_array->f, field_array->f + nv ); memcpy( (void*)field_array->f, &keep[0], nv * sizeof( field_t ) );
  count( "fields_predicted" );
}

begin_diagnostics {
  trace += (char)DIAG; n_diag++;
  State s = snap( field_array, species_list );
  if( trace[0] == (char)INIT ) { // after the initialization
    check_time( "the first user_diagnostics", time(), step(), grid->dt );
    if( trace.find_first_of( "cpjfbeCE" ) != std::string::npos ) viol( "order", ctx + ": the initialization advanced something (" + trace + ")" );
    // the particles must have been uncentered exactly once
    quiet = true; int k = 0; species_t *sp; LIST_FOR_EACH( sp, species_list ) {
      std::vector<particle_t> keep( sp->p, sp->p + sp->np ); center_p( sp, interpolator_array );
      if( sp->np != (int)loaded[k].size() ) viol( "initialization", ctx + fmt( ": species %s has %d particles after the initialization, %d were loaded", sp->name, sp->np, (int)loaded[k].size() ) );
      else for( int i = 0; i < sp->np; i++ ) {
        const particle_t &a = sp->p[i], &b = loaded[k][i];
        if( a.i != b.i || a.dx != b.dx || a.w != b.w || !( fabs( a.ux - b.ux ) + fabs( a.uy - b.uy ) + fabs( a.uz - b.uz ) < 1e-4 * ( 1 + fabs( b.ux ) + fabs( b.uy ) + fabs( b.uz ) ) ) ) { viol( "initialization", ctx + fmt( ": a particle of %s is not half a step behind where it was loaded (u off by %g,%g,%g)", sp->name, a.ux - b.ux, a.uy - b.uy, a.uz - b.uz ) ); break; }
      }
      memcpy( (void*)sp->p, keep.empty() ? NULL : &keep[0], keep.size() * sizeof( particle_t ) ); k++;
    }
    quiet = false;
    if( n_init != 1 ) viol( "order", ctx + fmt( ": user_initialization ran %d times", n_init ) );
  } else {
    now++; check_time( "user_diagnostics", time(), step(), grid->dt ); const int64_t st = now - 1; steps_seen++; global->steps++;
    std::string order, adv; for( size_t k = 0; k < trace.size(); k++ ) { if( strchr( "cpjfd", trace[k] ) ) order += trace[k]; if( strchr( "bejfdXY", trace[k] ) ) adv += trace[k]; }
    if( order != "cpjfd" ) viol( "order", ctx + fmt( " step %lld: the hooks ran as \"%s\", expected once each as \"cpjfd\"", (long long)st, order.c_str() ) );
    size_t be = adv.find( 'j' ); std::string mid; for( size_t k = be == std::string::npos ? 0 : be; k < adv.size(); k++ ) if( adv[k] != 'X' && adv[k] != 'Y' ) mid += adv[k];
    if( mid.find_first_of( "be" ) == std::string::npos || adv.find_first_of( "be" ) < be || fabs( fe - 1 ) > 1e-6 || fabs( fb - 1 ) > 1e-6 ) viol( "order", ctx + fmt( " step %lld: fields advanced as \"%s\" by %g and %g steps", (long long)st, adv.c_str(), fe, fb ) );
    size_t cl = adv.find_first_of( "XY" ); if( cl != std::string::npos && cl < adv.find( 'f' ) ) viol( "order", ctx + fmt( " step %lld: divergence cleaned in the middle of the step (%s)", (long long)st, adv.c_str() ) );
    struct { const char *n; int want; } W[] = { { "clean_div_e", hit( c_div_e, st ) * r_div_e }, { "clean_div_b", hit( c_div_b, st ) * r_div_b }, { "synchronize_tang_e_norm_b", hit( c_sync, st ) }, { "collision", collision_op_list ? 1 : 0 }, { "emitter", emitter_list ? 1 : 0 } };
    for( int k = 0; k < 5; k++ ) if( calls[W[k].n] != W[k].want ) viol( "intervals", ctx + fmt( " step %lld: %s ran %d times, expected %d", (long long)st, W[k].n, calls[W[k].n], W[k].want ) ); else if( W[k].want ) count( "interval_hits" );
    if( trace.find( 'C' ) != std::string::npos && trace.find( 'C' ) > trace.find( 'p' ) ) viol( "order", ctx + fmt( " step %lld: collisions after the particles were injected", (long long)st ) );
    if( trace.find( 'E' ) != std::string::npos && ( trace.find( 'E' ) < trace.find( 'c' ) || trace.find( 'E' ) > trace.find( 'j' ) ) ) viol( "order", ctx + fmt( " step %lld: emission out of order (%s)", (long long)st, trace.c_str() ) );
    if( !stale.empty() ) viol( "stale", ctx + fmt( " step %lld: divergence cleaned with an error that is not the present one:%s", (long long)st, stale.c_str() ) );
    if( s.set != atj.set || s.ord != atj.ord ) viol( "order", ctx + fmt( " step %lld: particles changed after the currents were final", (long long)st ) );
    if( special && !hit( c_div_e, st ) && !hit( c_div_b, st ) && !hit( c_sync, st ) ) { double d = fdiff( pred_b, field_array->f, grid ); if( !( d < 2e-5 ) ) viol( "order", ctx + fmt( " step %lld: the fields at the end of the step differ by %g from what user_field_injection left and half a step of B", (long long)st, d ) ); }
    eval( order + adv + fmt( "%d%d%d%d", W[0].want, W[1].want, W[2].want, special ) ); count( "steps" );
  }
  if( species_list ) { // the particles of the next step see these fields
    interpolator_array_t *ia = new_interpolator_array( grid ); load_interpolator_array( ia, field_array );
    for( int k = 1; k <= LN[2]; k++ ) for( int j = 1; j <= LN[1]; j++ ) for( int i = 1; i <= LN[0]; i++ ) { int v = voxel( i, j, k ); if( memcmp( &ia->i[v], &interpolator_array->i[v], 18 * sizeof( float ) ) ) { viol( "interpolators", ctx + fmt( " step %lld: the interpolators are not those of the fields", (long long)now ) ); i = j = k = 1000; } }
    delete_interpolator_array( ia );
  }
  last = s; trace = ""; calls.clear(); fb = fe = 0; stale = "";
}

void checkpt( const char *, int ) {}

static std::string tmpfile_() { return opt_dir + fmt( "/mod.%d", world_rank ); }

// a file of changes, and what it should change
static void run_modify( vpic_simulation *sim ) {
  double q = *p_quota; int v[5] = { *p_num, *p_ci, *p_hi, *p_fi, *p_pi }; static const char *nm[] = { "num_step", "checkpt_interval", "hydro_interval", "field_interval", "particle_interval" };
  std::string body; int lines = rr.i( 0, 6 );
  for( int l = 0; l < lines; l++ ) {
    int k = rr.i( 0, 8 ); const char *sep = rr.chance( 0.5 ) ? " " : rr.chance( 0.5 ) ? "\t" : "   ", *end = l == lines - 1 && rr.chance( 0.5 ) ? "" : rr.chance( 0.3 ) ? "   \n" : "\n";
    if( k == 0 ) { double d = rr.chance( 0.5 ) ? rr.i( 0, 100 ) : rr.u( 0, 50 ); std::string t = fmt( rr.chance( 0.5 ) ? "%.17g" : "%.17e", d ); q = atof( t.c_str() ); body += std::string( "quota" ) + sep + t + end; }
    else if( k < 6 ) {
      int n = k == 1 ? (int)ST0 + rr.i( 1, 10 ) : rr.chance( 0.2 ) ? -rr.i( 1, 5 ) : rr.i( 0, 1000 ); v[k - 1] = k == 1 ? n : std::max( n, 0 ); body += std::string( nm[k - 1] ) + sep + fmt( "%d", n ) + end;
    } else if( k == 6 ) body += std::string( "unknown_thing 12" ) + end;
    else if( k == 7 ) body += std::string( "# a remark" ) + end;
    else body += std::string( rr.chance( 0.5 ) ? "xnum_step 3" : "my_quota 4" ) + end;
  }
  std::string fn = tmpfile_(); FILE *f = fopen( fn.c_str(), "w" ); if( !f ) { fprintf( stderr, "no scratch\n" ); exit( 9 ); } fputs( body.c_str(), f ); fclose( f );
  sim->modify( fn.c_str() ); unlink( fn.c_str() );
  int g[5] = { *p_num, *p_ci, *p_hi, *p_fi, *p_pi };
  if( *p_quota != q ) viol( "modify", ctx + fmt( ": quota is %.17g, expected %.17g after\n%s", *p_quota, q, body.c_str() ) );
  for( int k = 0; k < 5; k++ ) if( g[k] != v[k] ) viol( "modify", ctx + fmt( ": %s is %d, expected %d after\n%s", nm[k], g[k], v[k], body.c_str() ) );
  c_num = v[0]; eval( body ); count( "modify_files" );
}

static void run_loop( int cs, int argc, char **argv ) {
  (void)cs; n_init = n_diag = steps_seen = 0;
  vpic_simulation *sim = new vpic_simulation(); sim->initialize( argc, argv );
  if( n_diag != 1 ) viol( "order", ctx + fmt( ": user_diagnostics ran %d times in the initialization", n_diag ) );
  if( rr.chance( 0.4 ) ) run_modify( sim );
  // zero or less: without end
  int want = c_num > 0 ? std::max( 0, (int)( c_num - ST0 ) ) : 6, ret, n = 0;
  while( n < want + 2 ) { int d0 = n_diag; ret = sim->advance(); if( !ret ) { if( n_diag != d0 || !trace.empty() ) viol( "steps", ctx + ": an advance that ended the run did something" ); break; } n++; if( n_diag != d0 + 1 ) viol( "order", ctx + ": user_diagnostics did not run once in a step" ); }
  if( c_num > 0 && n != want ) viol( "steps", ctx + fmt( ": %d steps were made, expected %d", n, want ) );
  if( c_num <= 0 && n != want + 2 ) viol( "steps", ctx + fmt( ": a run without end stopped after %d steps", n ) );
  if( c_num > 0 ) for( int k = 0; k < 2; k++ ) { int d0 = n_diag; if( sim->advance() || n_diag != d0 ) viol( "steps", ctx + ": the run went on after its end" ); }
  int d1 = n_diag; sim->finalize(); if( n_diag != d1 || !trace.empty() ) viol( "order", ctx + ": finalize ran a hook" );
  sample( ctx + fmt( " made %d steps", n ), 2 );
  delete sim; count( "runs_ended" );
}

// command lines
static void run_cmd( int ) {
  static const char *words[] = { "--tpp", "--restore", "7", "-3", "2.5", "file.3", "--x", "--modify", "a b", "", "--tp", "-1e3", "--tppx" };
  std::vector<std::string> w; int n = rr.i( 1, 9 ); for( int k = 0; k < n; k++ ) w.push_back( words[ rr.i( 0, 12 ) ] );
  std::vector<char*> a; for( int k = 0; k < n; k++ ) a.push_back( (char*)w[k].c_str() ); a.push_back( NULL );
  int argc = n; char **argv = &a[0]; std::string key = words[ rr.i( 0, 1 ) ? 0 : 7 ]; int mode = rr.i( 0, 3 );
  std::vector<std::string> rest; std::string val; bool has = false; int cnt = 0;
  for( int k = 0; k < n; k++ ) if( w[k] != key ) rest.push_back( w[k] ); else { cnt++; if( mode != 3 ) { if( ++k < n ) { val = w[k]; has = true; } } }
  std::string c = ctx + " words"; for( int k = 0; k < n; k++ ) c += " '" + w[k] + "'"; c += " key " + key + fmt( " kind %d", mode );
  bool ok = true;
  if( mode == 0 ) ok = strip_cmdline_int( &argc, &argv, key.c_str(), 42 ) == ( has ? atoi( val.c_str() ) : 42 );
  if( mode == 1 ) ok = strip_cmdline_double( &argc, &argv, key.c_str(), 1.5 ) == ( has ? atof( val.c_str() ) : 1.5 );
  if( mode == 2 ) { const char *r = strip_cmdline_string( &argc, &argv, key.c_str(), "none" ); ok = r && std::string( r ) == ( has ? val : "none" ); }
  if( mode == 3 ) ok = strip_cmdline( &argc, &argv, key.c_str() ) == cnt;
  if( !ok ) viol( "command-line", c + ": another value" );
  bool same = argc == (int)rest.size() && argv[argc] == NULL; for( int k = 0; same && k < argc; k++ ) same = rest[k] == argv[k];
  if( !same ) viol( "command-line", c + ": another remainder" );
  eval( c.substr( ctx.size() ) ); count( "command_lines" );
}

int main( int argc, char **argv ) {
  parse( argc, argv );
  boot_services( &argc, &argv );
  for( cur_case = opt_first; cur_case < opt_first + opt_cases; cur_case++ ) {
    each_case( cur_case - opt_first );
    rr = Rng( mix( mix( opt_seed, 951 ), cur_case ) ); lr = Rng( mix( mix( opt_seed, 953 + world_rank ), cur_case ) );
    ctx = fmt( "case %d seed %lld", cur_case, (long long)opt_seed );
    run_loop( cur_case, argc, argv );
    for( int k = 0; k < 20; k++ ) run_cmd( k );
  }
  done( true );
  halt_services();
  return 0;
}
