// Collision operators, watched from outside: what they touch, what they
// conserve, how often they act and how they scatter.
#include "rv_part.h"
#include <pthread.h>
using namespace rv;

struct Hist {
  std::vector<int64_t> n; int64_t tot; const char *what;
  Hist( const char *w, int k = 16 ) : n( k, 0 ), tot( 0 ), what( w ) {}
  void add( int k ) { if( k < 0 ) k = 0; if( k >= (int)n.size() ) k = (int)n.size() - 1; n[k]++; tot++; }
  void addu( double u ) { if( u != u ) { viol( "nan", what ); return; } add( (int)floor( u * n.size() ) ); }
  void test() {
    if( tot < 20 * (int64_t)n.size() ) return;
    double c = 0, e = (double)tot / n.size(); for( size_t k = 0; k < n.size(); k++ ) c += ( n[k] - e ) * ( n[k] - e ) / e;
    double dof = n.size() - 1., lim = dof + 7 * sqrt( 2 * dof ) + 25;
    count( "distribution_tests" );
    if( c > lim ) { std::string s; for( size_t k = 0; k < n.size(); k++ ) s += fmt( " %lld", (long long)n[k] ); viol( "distribution", fmt( "%s: chi-square %.1f for %g degrees of freedom over %lld draws:%s", what, c, dof, (long long)tot, s.c_str() ) ); }
  }
};
static double Phi( double x ) { return 0.5 * erfc( -x / sqrt( 2. ) ); }
static Hist h_first( "which particle of a cell is picked first" ), h_second( "which particle of a cell is picked second" ), h_both( "which pair of a cell is picked", 64 ),
  h_hs( "hard sphere impact parameter squared" ), h_hsphi( "hard sphere azimuth" ), h_co( "coulomb impact parameter squared" ), h_cophi( "coulomb azimuth" ),
  h_ta( "takizuka-abe scattering angle" ), h_taphi( "takizuka-abe azimuth" ), h_la( "langevin kick" ), h_la2( "langevin kicks of two components", 16 ),
  h_lap( "langevin kicks of neighbours", 16 ), h_tapair( "partner of a particle" ), h_taself( "partner of a particle in its own species" );

// ------------------------------------------------------------ a world
struct World {
  grid_t *g; species_t *sl; std::vector<species_t*> sp; rng_pool_t *rp; int n[3]; std::string ctx; double dV;
  std::vector< std::vector<particle_t> > was; std::vector<int> tot;
  void make( Rng &r, int maxc, int nsp, bool unit_c = false ) {
    for( int a = 0; a < 3; a++ ) n[a] = r.i( 1, maxc );
    double d[3]; for( int a = 0; a < 3; a++ ) d[a] = r.u( 0.3, 2 );
    g = new_grid(); g->cvac = unit_c || r.chance( 0.4 ) ? 1 : r.u( 0.5, 3 ); g->eps0 = r.chance( 0.4 ) ? 1 : r.u( 0.3, 4 );
    g->dt = r.u( 0.05, 0.4 );
    partition_periodic_box( g, 0, 0, 0, n[0] * d[0], n[1] * d[1], n[2] * d[2], n[0], n[1], n[2], 1, 1, 1 );
    dV = (double)g->dx * g->dy * g->dz;
    sl = NULL; sp.clear();
    for( int s = 0; s < nsp; s++ ) {
      static const float qs[] = { -1, 1, 0.5f, -2, 3 };
      sp.push_back( append_species( species( fmt( "s%d", s ).c_str(), qs[ r.i( 0, 4 ) ], r.chance( 0.3 ) ? 1 : (float)r.u( 0.2, 20 ), 4, 4, 0, r.i( 0, 1 ), g ), &sl ) );
    }
    rp = new_rng_pool( N_PIPELINE + r.i( 0, 3 ), r.i( 0, 1 << 30 ), 0 );
    was.assign( nsp, std::vector<particle_t>() ); tot.assign( nsp, 0 );
    ctx = fmt( "case %d seed %lld cells=%dx%dx%d pipelines=%d c=%g", cur_case, (long long)opt_seed, n[0], n[1], n[2], N_PIPELINE, g->cvac );
  }
  void destroy() { delete_rng_pool( rp ); delete_species_list( sl ); delete_grid( g ); }
  int cells() const { return n[0] * n[1] * n[2]; }
  int vox( int c ) const { return VOXEL( 1 + c % n[0], 1 + c / n[0] % n[1], 1 + c / ( n[0] * n[1] ), n[0], n[1], n[2] ); }
  // how[c] particles in cell c of species s, in random order
  void fill( Rng &r, int s, const std::vector<int> &how, double T, const double dr[3], double wlo, double whi ) {
    std::vector<particle_t> P; int N = 0; for( size_t c = 0; c < how.size(); c++ ) N += how[c];
    tot[s] = N;
    for( size_t c = 0; c < how.size(); c++ ) for( int k = 0; k < how[c]; k++ ) {
      particle_t p; memset( &p, 0, sizeof p );
      p.dy = (float)r.u( -1, 1 ); p.dz = (float)r.u( -1, 1 ); p.i = vox( (int)c ); p.w = (float)( wlo == whi ? wlo : r.u( wlo, whi ) );
      p.ux = (float)( dr[0] + T * r.n() ); p.uy = (float)( dr[1] + T * r.n() ); p.uz = (float)( dr[2] + T * r.n() );
      P.push_back( p );
    }
    for( int k = N - 1; k > 0; k-- ) std::swap( P[k], P[ r.i( 0, k ) ] );
    for( int k = 0; k < N; k++ ) P[k].dx = name( k, N );
    species_t *q = sp[s]; FREE_ALIGNED( q->p ); q->max_np = N + r.i( 1, 5 ); MALLOC_ALIGNED( q->p, q->max_np, 128 );
    for( int k = 0; k < N; k++ ) q->p[k] = P[k];
    q->np = N; q->last_sorted = INT64_MIN;
    was[s] = P;
  }
  static float name( int k, int N ) { return (float)( ( k + 0.5 ) / N * 2 - 1 ); }
  // the particles of species s by name; everything but their momentum is as it was
  bool now( int s, std::vector<particle_t> &q, const char *what ) {
    int N = tot[s]; q.assign( N, particle_t() ); std::vector<char> seen( N, 0 ); bool ok = true;
    if( sp[s]->np != N ) { viol( "number", fmt( "%s left %d of %d particles of species %d %s", what, sp[s]->np, N, s, ctx.c_str() ) ); return false; }
    for( int k = 0; k < N; k++ ) {
      const particle_t &p = sp[s]->p[k]; int id = (int)floor( ( p.dx + 1.0 ) / 2 * N );
      if( id < 0 || id >= N || seen[id] || p.dx != was[s][id].dx || p.dy != was[s][id].dy || p.dz != was[s][id].dz || p.i != was[s][id].i || p.w != was[s][id].w ) {
        viol( "touched", fmt( "%s changed more than the momentum of a particle of species %d (%g,%g,%g cell %d weight %g) %s", what, s, p.dx, p.dy, p.dz, p.i, p.w, ctx.c_str() ) ); ok = false; break;
      }
      seen[id] = 1; q[id] = p;
    }
    return ok;
  }
  void unchanged( int s, const char *what ) {
    std::vector<particle_t> q; if( !now( s, q, what ) ) return;
    for( int k = 0; k < tot[s]; k++ ) if( memcmp( &q[k].ux, &was[s][k].ux, 12 ) ) { viol( "acted", fmt( "%s changed a momentum of species %d (%g,%g,%g)->(%g,%g,%g) %s", what, s, was[s][k].ux, was[s][k].uy, was[s][k].uz, q[k].ux, q[k].uy, q[k].uz, ctx.c_str() ) ); return; }
    count( "checked_unchanged", tot[s] );
  }
  void again( int s ) { for( int k = 0; k < tot[s]; k++ ) sp[s]->p[k] = was[s][k]; sp[s]->last_sorted = INT64_MIN; }
  void keep( int s ) { std::vector<particle_t> q; if( now( s, q, "a model" ) ) was[s] = q; }
};
static std::vector<int> crowd( Rng &r, int cells, int most ) {
  std::vector<int> h( cells ); int kind = r.i( 0, 3 );
  for( int c = 0; c < cells; c++ ) h[c] = kind == 0 ? r.i( 0, most ) : kind == 1 ? ( r.chance( 0.3 ) ? r.i( 0, most ) : 0 ) : kind == 2 ? r.i( 0, 3 ) : most;
  return h;
}

// ------------------------------------------------------------ recording callbacks
struct Rec { const particle_t *a, *b; int type; float K; };
static struct Log {
  pthread_mutex_t m; std::vector<Rec> rate, hit; void *params; const species_t *si, *sj; int kind; float K0; int64_t wrong; std::string why;
} L = { PTHREAD_MUTEX_INITIALIZER };
static float krate( const particle_t *a, const particle_t *b ) {
  if( L.kind == 0 ) return L.K0;
  if( L.kind == 1 ) return 0;
  double x = ( a->dy + ( b ? b->dy : 0 ) ); return L.K0 * (float)( 1 + 0.5 * x ); // differs from pair to pair
}
static float rec_rate2( void *pr, const species_t *si, const species_t *sj, const particle_t *a, const particle_t *b ) {
  pthread_mutex_lock( &L.m );
  Rec x = { a, b, 0, krate( a, b ) }; L.rate.push_back( x );
  if( pr != L.params || si != L.si || sj != L.sj ) { L.wrong++; L.why = "arguments"; }
  pthread_mutex_unlock( &L.m ); return x.K;
}
static void rec_hit2( void *pr, const species_t *si, const species_t *sj, particle_t *a, particle_t *b, rng_t *rng, int type ) {
  pthread_mutex_lock( &L.m );
  Rec x = { a, b, type, 0 }; L.hit.push_back( x );
  if( pr != L.params || si != L.si || sj != L.sj || !rng ) { L.wrong++; L.why = "arguments"; }
  pthread_mutex_unlock( &L.m );
}
static float rec_rate1( void *pr, const species_t *s, const particle_t *a ) {
  pthread_mutex_lock( &L.m );
  Rec x = { a, NULL, 0, krate( a, NULL ) }; L.rate.push_back( x );
  if( pr != L.params || s != L.si ) { L.wrong++; L.why = "arguments"; }
  pthread_mutex_unlock( &L.m ); return x.K;
}
static void rec_hit1( void *pr, const species_t *s, particle_t *a, rng_t *rng ) {
  pthread_mutex_lock( &L.m );
  Rec x = { a, NULL, 0, 0 }; L.hit.push_back( x );
  if( pr != L.params || s != L.si || !rng ) { L.wrong++; L.why = "arguments"; }
  pthread_mutex_unlock( &L.m );
}
static bool in( const species_t *s, const particle_t *p ) { return p >= s->p && p < s->p + s->np; }
// z scores of sums over a run
struct Z { double d, v; int64_t n; Z() : d( 0 ), v( 0 ), n( 0 ) {} void add( double x, double var ) { d += x; v += var; n++; }
  void test( const char *w ) { if( n < 1 || v <= 0 ) return; count( "rate_tests" ); if( fabs( d ) > 7 * sqrt( v ) + 1e-9 ) viol( "rate", fmt( "%s: %.1f standard deviations from what it should be over %lld trials (off by %g)", w, d / sqrt( v ), (long long)n, d ) ); } };
static Z z_heavy, z_unary, z_heavy_ta, z_hs, z_co, z_hsf, z_cof;

static void pairs( Rng &r, bool big ) {
  World w; int nsp = r.i( 1, 3 ); w.make( r, big ? 2 : 5, nsp );
  int si = r.i( 0, nsp - 1 ), sj = r.chance( 0.4 ) ? si : r.i( 0, nsp - 1 );
  bool unary = !big && r.chance( 0.25 ), eqw = r.chance( 0.4 ); if( unary ) sj = si;
  const double d0[3] = { 0, 0, 0 };
  for( int s = 0; s < nsp; s++ ) {
    std::vector<int> how = crowd( r, w.cells(), big ? 5 : r.chance( 0.2 ) ? 60 : 12 );
    if( big ) how[ r.i( 0, 0 ) ] = s == si || s == sj ? r.i( 40000, 200000 ) : 3; // sums and products of such numbers leave 32 bits
    w.fill( r, s, how, 0.3, d0, eqw ? 1 : 0.2, eqw ? 1 : 2 );
  }
  static const double smp[] = { 1, 1, 0.3, 2, 3.7, 0.02 };
  double sample = big ? 2 : smp[ r.i( 0, 5 ) ]; static const int iv[] = { 1, 1, 2, 3, 7, 0, -1 };
  int interval = big ? 1 : iv[ r.i( 0, 6 ) ];
  L.kind = r.chance( 0.15 ) && !big ? 1 : r.chance( 0.5 ) ? 0 : 2; L.params = r.chance( 0.5 ) ? (void*)w.g : NULL; L.si = w.sp[si]; L.sj = w.sp[sj];
  double nmean = 1; { double q = 0, c = 0; for( int k = 0; k < w.tot[si]; k++ ) q++; c = w.cells(); nmean = std::max( 1., big ? 60000. : q / c ); }
  // a probability of a few tenths for the common pair, or certainty
  bool sure = !big && r.chance( 0.1 ); if( sure && L.kind == 2 ) L.kind = 0; int ivp = std::max( 1, interval );
  if( unary ) L.K0 = (float)( ( sure ? 5 : 0.3 ) / ( w.g->dt * ivp ) );
  else L.K0 = (float)( ( sure ? 1e5 : 0.1 ) * w.dV * std::min( 1., sample ) / ( w.g->dt * ivp * nmean * 2 ) );
  collision_op_t *list = NULL;
  append_collision_op( unary ? unary_collision_model( "u", rec_rate1, rec_hit1, L.params, w.sp[si], w.rp, interval )
                             : binary_collision_model( "b", rec_rate2, rec_hit2, L.params, w.sp[si], w.sp[sj], w.rp, sample, interval ), &list );
  if( num_collision_op( list ) != 1 ) viol( "list", fmt( "a list of one has %d %s", num_collision_op( list ), w.ctx.c_str() ) );
  w.ctx += fmt( " %s species %d,%d sample=%g interval=%d rate=%d/%g%s", unary ? "unary" : "binary", si, sj, sample, interval, L.kind, L.K0, sure ? " certain" : "" );
  int steps = big ? 1 : r.i( 1, 4 ); int64_t first = r.chance( 0.5 ) ? 0 : r.i( 1, 1000000 );
  for( int st = 0; st < steps; st++ ) {
    w.g->step = first + st; L.rate.clear(); L.hit.clear(); L.wrong = 0;
    apply_collision_op_list( list );
    bool due = interval >= 1 && w.g->step % interval == 0;
    for( int s = 0; s < nsp; s++ ) w.unchanged( s, "a model whose collisions do nothing" );
    if( L.wrong ) viol( "arguments", fmt( "%lld callbacks were given the wrong %s %s", (long long)L.wrong, L.why.c_str(), w.ctx.c_str() ) );
    if( !due ) { if( L.rate.size() || L.hit.size() ) viol( "interval", fmt( "collisions were tried on step %lld %s", (long long)w.g->step, w.ctx.c_str() ) ); count( "steps_not_due" ); continue; }
    count( "steps_due" ); count( "candidates", L.rate.size() ); count( "collisions", L.hit.size() );
    if( unary ) {
      std::vector<int> seen( w.tot[si], 0 ); bool bad = false;
      for( size_t k = 0; k < L.rate.size(); k++ ) { if( !in( w.sp[si], L.rate[k].a ) ) { bad = true; continue; } seen[ L.rate[k].a - w.sp[si]->p ]++; }
      for( int k = 0; k < w.tot[si]; k++ ) if( seen[k] != 1 ) bad = true;
      if( bad ) viol( "unary-coverage", fmt( "not every particle of the species was tried exactly once: %d tries of %d particles %s", (int)L.rate.size(), w.tot[si], w.ctx.c_str() ) );
      double e = 0, v = 0; for( size_t k = 0; k < L.rate.size(); k++ ) { double p = std::min( 1., (double)L.rate[k].K * w.g->dt * interval ); e += p; v += p * ( 1 - p ); }
      std::set<const particle_t*> tried, hit; for( size_t k = 0; k < L.hit.size(); k++ ) { if( !in( w.sp[si], L.hit[k].a ) || !hit.insert( L.hit[k].a ).second ) viol( "unary-coverage", "a particle collided twice in one application " + w.ctx ); }
      z_unary.add( L.hit.size() - e, v );
      if( fabs( L.hit.size() - e ) > 8 * sqrt( v ) + 1e-6 ) viol( "rate", fmt( "%d collisions where %g are due (deviation %g) %s", (int)L.hit.size(), e, sqrt( v ), w.ctx.c_str() ) );
      continue;
    }
    // where everybody is
    std::vector<int> ni( w.g->nv, 0 ), nj( w.g->nv, 0 ), ki( w.g->nv, -1 ), kj( w.g->nv, -1 ), tried( w.g->nv, 0 );
    const species_t *a = w.sp[si], *b = w.sp[sj];
    for( int k = a->np - 1; k >= 0; k-- ) { ni[ a->p[k].i ]++; ki[ a->p[k].i ] = k; }
    for( int k = b->np - 1; k >= 0; k-- ) { nj[ b->p[k].i ]++; kj[ b->p[k].i ] = k; }
    bool bad = false;
    for( size_t k = 0; k < L.rate.size(); k++ ) {
      const Rec &x = L.rate[k];
      if( !in( a, x.a ) || !in( b, x.b ) ) { viol( "pair-outside", fmt( "a candidate lies outside its species: %lld of %d, %lld of %d %s", (long long)( x.a - a->p ), a->np, (long long)( x.b - b->p ), b->np, w.ctx.c_str() ) ); bad = true; break; }
      if( x.a->i != x.b->i ) { viol( "pair-cells", fmt( "particles of different cells %d and %d were paired %s", x.a->i, x.b->i, w.ctx.c_str() ) ); bad = true; break; }
      int v = x.a->i; tried[v]++;
      int p = (int)( x.a - a->p ) - ki[v], q = (int)( x.b - b->p ) - kj[v];
      if( ni[v] >= 64 ) { h_first.addu( ( p + 0.5 ) / ni[v] ); if( nj[v] >= 64 ) { h_second.addu( ( q + 0.5 ) / nj[v] ); } }
      if( ni[v] % 8 == 0 && nj[v] % 8 == 0 ) h_both.add( p * 8 / ni[v] * 8 + q * 8 / nj[v] );
    }
    if( bad ) break;
    // candidates per cell: every particle is tested "sample" times on average, or more
    for( int v = 0; v < w.g->nv; v++ ) {
      double want = !ni[v] || !nj[v] ? 0 : si == sj ? 0.5 * sample * ni[v] : sample * std::max( ni[v], nj[v] );
      if( want == 0 ? tried[v] > 0 : tried[v] < want - 0.51 ) { viol( "sampling", fmt( "%d candidate pairs in a cell of %d and %d particles %s", tried[v], ni[v], nj[v], w.ctx.c_str() ) ); bad = true; break; }
    }
    // the rate of physical collisions
    double got = 0, lo = 0, hi = 0, var = 0, gmax = 0; bool capped = false;
    for( size_t k = 0; k < L.hit.size(); k++ ) {
      const Rec &x = L.hit[k]; if( !in( a, x.a ) || !in( b, x.b ) || x.a->i != x.b->i ) { viol( "pair-outside", "a collision of particles that were no candidates " + w.ctx ); bad = true; break; }
      double wa = x.a->w, wb = x.b->w, mn = std::min( wa, wb ), mx = std::max( wa, wb ); got += mn; gmax = std::max( gmax, mn );
      int need = ( wa <= mn ? 1 : 0 ) | ( wb <= mn ? 2 : 0 );
      if( ( x.type & need ) != need || ( x.type & ~3 ) ) { viol( "type", fmt( "a collision of weights %g and %g updates %d %s", wa, wb, x.type, w.ctx.c_str() ) ); bad = true; break; }
      if( wa != wb ) z_heavy.add( ( x.type == 3 ) - mn / mx, mn / mx * ( 1 - mn / mx ) );
    }
    if( bad ) break;
    if( L.kind == 1 && L.hit.size() ) viol( "zero-rate", fmt( "%d collisions at a rate of zero %s", (int)L.hit.size(), w.ctx.c_str() ) );
    if( sure && ( L.hit.size() != L.rate.size() ) && L.kind != 1 ) viol( "certain", fmt( "%d of %d certain collisions happened %s", (int)L.hit.size(), (int)L.rate.size(), w.ctx.c_str() ) );
    if( sure || L.kind == 1 ) { eval( w.ctx ); continue; }
    double nrm = w.g->dt * interval / w.dV;
    for( int v = 0; v < w.g->nv; v++ ) {
      if( !tried[v] ) { if( ni[v] && nj[v] && !( sample * ni[v] < 5 ) ) capped = true; continue; }
      double s = 0, vv = 0, self = 0, pmax = 0; double nc = tried[v]; int64_t np = 0;
      if( ni[v] * (int64_t)nj[v] < 40000 ) {
        for( int p = 0; p < ni[v]; p++ ) for( int q = si == sj ? p : 0; q < nj[v]; q++ ) {
          const particle_t *x = a->p + ki[v] + p, *y = b->p + kj[v] + q; double t = (double)x->w * y->w * krate( x, y ) * nrm; np++;
          double mn = std::min( x->w, y->w ); vv += t * mn; if( si == sj && p == q ) self += t; else s += t;
          pmax = std::max( pmax, (double)std::max( x->w, y->w ) * krate( x, y ) * nrm );
        }
      } else { // a constant stands for the sum: mean of independent terms
        double sx = 0, sy = 0, kx = 0, ky = 0, m2 = 0;
        for( int p = 0; p < ni[v]; p++ ) { const particle_t *x = a->p + ki[v] + p; sx += x->w; kx += (double)x->w * x->dy; m2 = std::max( m2, (double)x->w ); }
        for( int p = 0; p < nj[v]; p++ ) { const particle_t *x = b->p + kj[v] + p; sy += x->w; ky += (double)x->w * x->dy; m2 = std::max( m2, (double)x->w ); }
        s = sx * sy; if( L.kind == 2 ) s += 0.5 * ( kx * sy + sx * ky );
        s *= L.K0 * nrm; if( si == sj ) s /= 2;
        vv = s * m2; pmax = m2 * L.K0 * 2 * nrm; np = (int64_t)ni[v] * nj[v];
      }
      double f = si == sj ? ( ni[v] + 1. ) / ni[v] : 1;
      // a pair met with certainty hides some of its rate
      double npairs = si == sj ? ni[v] * ( ni[v] + 1. ) / 2 : (double)ni[v] * nj[v];
      if( pmax * npairs / nc > 1 ) capped = true;
      lo += s; hi += ( s + 2 * self ) * f; var += vv * f * 2;
      if( si == sj && ni[v] == 1 ) hi += 2 * self;
    }
    // cells too thin to have been tried at all are left out of both sides
    if( !capped ) {
      count( "rates_checked" );
      double sd = 7 * sqrt( var ) + 2 * gmax + 1e-3 * hi;
      if( got < lo - sd || got > hi + sd ) viol( "rate", fmt( "collisions of total weight %g where %g to %g is due (deviation %g) over %d candidates %s", got, lo, hi, sqrt( var ), (int)L.rate.size(), w.ctx.c_str() ) );
    }
    eval( w.ctx ); rv::sample( w.ctx + fmt( ": %d candidates, %d collisions", (int)L.rate.size(), (int)L.hit.size() ) );
  }
  if( unary ) eval( w.ctx );
  count( big ? "crowded_cells" : "recorded_models" );
  delete_collision_op_list( list ); w.destroy();
}

// ------------------------------------------------------------ the laws of the built in models
// relative momentum before and after, cosine and azimuth of the turn
static void turn( const double a[3], const double b[3], double &cosx, double &phi, double &ra, double &rb ) {
  ra = sqrt( a[0]*a[0] + a[1]*a[1] + a[2]*a[2] ); rb = sqrt( b[0]*b[0] + b[1]*b[1] + b[2]*b[2] );
  double e[3] = { 0, 0, 0 }; int m = 0; for( int k = 1; k < 3; k++ ) if( fabs( a[k] ) < fabs( a[m] ) ) m = k; e[m] = 1;
  double t[3] = { a[1]*e[2] - a[2]*e[1], a[2]*e[0] - a[0]*e[2], a[0]*e[1] - a[1]*e[0] }, tn = sqrt( t[0]*t[0] + t[1]*t[1] + t[2]*t[2] );
  double s[3] = { a[1]*t[2] - a[2]*t[1], a[2]*t[0] - a[0]*t[2], a[0]*t[1] - a[1]*t[0] };
  cosx = ( a[0]*b[0] + a[1]*b[1] + a[2]*b[2] ) / ( ra * rb );
  double x = 0, y = 0; for( int k = 0; k < 3; k++ ) { x += b[k] * t[k] / tn; y += b[k] * s[k] / ( tn * ra ); }
  phi = atan2( y, x ) / ( 2 * M_PI ) + 0.5;
}
enum { HS, CO, TA };
static const char *mname[] = { "hard_sphere", "large_angle_coulomb", "takizuka_abe" };

// one of each in every cell: single collisions seen one by one
static void couples( Rng &r ) {
  World w; w.make( r, 9, 3 ); int model = r.i( 0, 2 ); bool eqw = r.chance( 0.5 ), self = model == TA && r.chance( 0.3 ); const char *nm = mname[model];
  const double d0[3] = { 0, 0, 0 }, dj[3] = { r.u( -0.1, 0.1 ), r.u( -0.1, 0.1 ), 0 }; double T = r.u( 0.02, 0.2 );
  std::vector<int> one( w.cells(), self ? 2 : 1 );
  w.fill( r, 0, one, T, d0, eqw ? 1 : 0.3, eqw ? 1 : 2 ); w.fill( r, 1, one, T, dj, eqw ? 1 : 0.3, eqw ? 1 : 2 ); w.fill( r, 2, one, T, d0, 1, 1 );
  int sj = self ? 0 : 1; species_t *a = w.sp[0], *b = w.sp[sj]; int interval = r.i( 1, 3 ); w.g->step = interval * r.i( 0, 1000 );
  double mi = a->m, mj = b->m, mu = mi * mj / ( mi + mj ), c = w.g->cvac, dt = w.g->dt;
  double R = 0, cvar0 = 0; collision_op_t *op;
  double typ = 0.5 * w.dV / ( dt * interval * c * T * 2 ); // K that makes half of them collide
  if( model == HS ) { R = sqrt( typ / M_PI ); double ri = R * r.u( 0, 1 ); op = hard_sphere( "m", a, (float)ri, b, (float)( R - ri ), w.rp, 1, interval ); }
  else if( model == CO ) { R = sqrt( typ / M_PI ); // a charge that makes B of order one
    double k = 4 * M_PI * w.g->eps0 * mu * c * c * R * T * T * r.u( 0.3, 3 ); float q = (float)sqrt( k ); a->q = r.chance( 0.5 ) ? q : -q; b->q = r.chance( 0.5 ) ? q : -q;
    op = large_angle_coulomb( "m", a, b, (float)R, w.rp, 1, interval ); }
  else { cvar0 = r.u( 0.001, 0.5 ) * T * T * T * mu * mu / ( (double)a->q * a->q * b->q * b->q ) * w.dV / ( dt * interval ); if( r.chance( 0.05 ) ) cvar0 = 0; op = takizuka_abe( "m", a, b, w.rp, cvar0, interval ); }
  w.ctx += fmt( " %s masses %g,%g charges %g,%g interval=%d %s%s", nm, mi, mj, a->q, b->q, interval, eqw ? "equal weights" : "weights differ", self ? " self" : "" );
  collision_op_t *list = NULL; append_collision_op( op, &list ); apply_collision_op_list( list );
  std::vector<particle_t> p, q; w.unchanged( 2, nm ); if( self ) w.unchanged( 1, nm );
  if( !w.now( 0, p, nm ) || !w.now( sj, q, nm ) ) { delete_collision_op_list( list ); w.destroy(); return; }
  std::map<int,int> ci, cj; for( int k = 0; k < (int)p.size(); k++ ) { if( self ) { if( ci.count( p[k].i ) ) cj[ p[k].i ] = k; else ci[ p[k].i ] = k; } else ci[ p[k].i ] = k; }
  if( !self ) for( int k = 0; k < (int)q.size(); k++ ) cj[ q[k].i ] = k;
  double cc = model == CO ? 4 * M_PI * w.g->eps0 * mu * c * c * R / ( (double)a->q * b->q ) : 0;
  for( std::map<int,int>::iterator it = ci.begin(); it != ci.end(); ++it ) {
    const particle_t &i0 = w.was[0][it->second], &i1 = p[it->second], &j0 = w.was[sj][cj[it->first]], &j1 = self ? p[cj[it->first]] : q[cj[it->first]];
    double u0[3], u1[3], di[3], dj1[3]; bool mi_moved = false, mj_moved = false; double ur2 = 0;
    for( int k = 0; k < 3; k++ ) {
      di[k] = (double)( &i1.ux )[k] - ( &i0.ux )[k]; dj1[k] = (double)( &j1.ux )[k] - ( &j0.ux )[k]; if( di[k] != 0 ) mi_moved = true; if( dj1[k] != 0 ) mj_moved = true;
      if( di[k] != di[k] || dj1[k] != dj1[k] ) { viol( "nan", fmt( "%s made a momentum that is no number %s", nm, w.ctx.c_str() ) ); mi_moved = mj_moved = true; }
      u0[k] = (double)( &i0.ux )[k] - ( &j0.ux )[k]; ur2 += u0[k] * u0[k];
    }
    double ur = sqrt( ur2 ), wi = i0.w, wj = j0.w, mx = std::max( wi, wj ), mn = std::min( wi, wj ), um = 0;
    for( int k = 0; k < 3; k++ ) um += fabs( ( &i0.ux )[k] ) + fabs( ( &j0.ux )[k] );
    double pr = model == TA ? 1 : mx * dt * interval / w.dV * M_PI * R * R * c * ur; if( pr > 1 ) pr = 1;
    bool any = mi_moved || mj_moved;
    if( model == HS ) z_hs.add( any - pr, pr * ( 1 - pr ) + 1e-12 ); if( model == CO ) z_co.add( any - pr, pr * ( 1 - pr ) + 1e-12 );
    count( "couples" );
    if( model == TA && cvar0 == 0 ) { if( any ) viol( "zero-rate", "collisions at a rate of zero " + w.ctx ); continue; }
    if( !any ) { if( model == TA && wi == wj && !( ur < 1e-3 ) ) count( "ta_still" ); continue; }
    count( "collided" );
    bool li = wi <= mn, lj = wj <= mn;
    double eps = 4e-6 * ( um + 1e-3 ), fi = mj / ( mi + mj ), fj = mi / ( mi + mj );
    // the full turn of the relative momentum, from whoever was updated
    double x[3]; for( int k = 0; k < 3; k++ ) x[k] = mi_moved && ( li || !mj_moved ) ? di[k] / fi : -dj1[k] / fj;
    double amp = 1 / std::min( fi, fj ); bool usei = mi_moved && ( li || !mj_moved ); amp = usei ? 1 / fi : 1 / fj;
    for( int k = 0; k < 3; k++ ) u1[k] = u0[k] + x[k];
    if( ( li && !mi_moved ) || ( lj && !mj_moved ) ) { // a turn too small to be seen in one of them
      double big = 0; for( int k = 0; k < 3; k++ ) big = std::max( big, fabs( x[k] ) );
      if( big * std::min( fi, fj ) > 8 * eps ) viol( "lighter-kept", fmt( "%s updated the heavier of weights %g,%g only, by %g %s", nm, wi, wj, big, w.ctx.c_str() ) );
      continue;
    }
    if( wi != wj && ur > 1e-3 ) { bool h = li ? mj_moved : mi_moved; Z &z = model == TA ? z_heavy_ta : z_heavy; z.add( h - mn / mx, mn / mx * ( 1 - mn / mx ) ); }
    if( mi_moved && mj_moved ) for( int k = 0; k < 3; k++ ) if( fabs( mi * di[k] + mj * dj1[k] ) > eps * ( mi + mj ) * 2 ) { viol( "momentum", fmt( "%s: a pair of masses %g,%g gained momentum %g (%g and %g) %s", nm, mi, mj, mi * di[k] + mj * dj1[k], mi * di[k], mj * dj1[k], w.ctx.c_str() ) ); break; }
    double cosx, phi, ra, rb; turn( u0, u1, cosx, phi, ra, rb );
    if( fabs( ra - rb ) > eps * ( 2 + amp ) ) { viol( "energy", fmt( "%s: the relative momentum of a pair of masses %g,%g went from %.9g to %.9g %s", nm, mi, mj, ra, rb, w.ctx.c_str() ) ); continue; }
    if( ur < 0.05 * T || amp > 15 ) continue; // too slow, or too heavy, to measure an angle
    double noise = 4 * eps * ( 1 + amp ) / ur;
    if( model == HS ) { h_hs.addu( ( 1 + cosx ) / 2 ); if( 1 - fabs( cosx ) > 50 * noise ) h_hsphi.addu( phi ); }
    else if( model == CO ) {
      double B = fabs( cc ) * ur2, cot2 = ( 1 + cosx ) / ( 1 - cosx ); if( pr < 1 && 1 - cosx > 50 * noise * noise ) h_co.addu( cot2 / ( B * B ) > 1 && cot2 / ( B * B ) < 1 + 40 * noise / sqrt( 1 - cosx ) + 1e-2 ? 0.999 : cot2 / ( B * B ) ); if( 1 - fabs( cosx ) > 50 * noise ) h_cophi.addu( phi );
      if( 1 - cosx > 1e-3 && cot2 > B * B * ( 1 + 1e-2 + 200 * noise ) ) viol( "cutoff", fmt( "%s: a turn of cosine %g is beyond the impact parameter cutoff (%g>%g) %s", nm, cosx, cot2, B * B, w.ctx.c_str() ) );
    } else {
      double cvar = cvar0 * a->q * a->q * b->q * b->q / ( mu * mu ), den = self ? wi + wj : mn;
      double sd = std::min( 1., sqrt( cvar * den * dt * interval / w.dV / ( ur2 * ur ) ) ), tn = sqrt( std::max( 0., ( 1 - cosx ) / ( 1 + cosx ) ) );
      // the angle as the change itself shows it: 2 sin(theta/2) = |change|/|relative|
      double dx = sqrt( x[0]*x[0] + x[1]*x[1] + x[2]*x[2] ) / ( 2 * ur ); if( dx < 1 ) tn = dx / sqrt( 1 - dx * dx );
      if( sd > 20 * noise ) { h_ta.addu( 2 * Phi( tn / sd ) - 1 ); if( tn > 50 * noise ) h_taphi.addu( phi ); }
    }
  }
  eval( w.ctx ); sample( w.ctx );
  delete_collision_op_list( list ); w.destroy();
}

// crowds of equal weight: totals of every cell
static void crowds( Rng &r ) {
  World w; w.make( r, 4, 3 ); int model = r.i( 0, 2 ); const char *nm = mname[model]; int si = r.i( 0, 1 ), sj = r.chance( 0.5 ) ? si : 1 - si; double W = r.u( 0.5, 2 );
  double T = r.chance( 0.1 ) ? 0 : r.u( 0.02, 0.3 ); const double d0[3] = { r.u( -0.1, 0.1 ), 0, 0.1 };
  bool same = model == TA && r.chance( 0.5 ); // everybody alike, but for the names
  std::vector<int> hi = crowd( r, w.cells(), 12 ), hj = crowd( r, w.cells(), 12 );
  for( int s = 0; s < 3; s++ ) w.fill( r, s, s == si ? hi : hj, T, d0, W, W );
  if( sj == si ) hj = hi;
  species_t *a = w.sp[si], *b = w.sp[sj]; int interval = r.chance( 0.1 ) ? 0 : r.i( 1, 3 ); double mi = a->m, mj = b->m, mu = mi * mj / ( mi + mj ), c = w.g->cvac, dt = w.g->dt;
  double v = std::max( T, 0.01 ), typ = w.dV / ( dt * std::max( 1, interval ) * c * v * 10 ), R = sqrt( typ / M_PI ) * ( r.chance( 0.1 ) ? 0 : 1 ), cvar0 = r.chance( 0.15 ) ? 0 : r.u( 0.01, 1 ) * v * v * v * mu * mu / ( (double)a->q * a->q * b->q * b->q ) * w.dV / dt;
  collision_op_t *list = NULL; double sample0 = r.u( 0.5, 3 ); static const float B[] = { 0, 1 };
  for( int k = r.i( 1, 2 ); k; k-- ) // one or two alike
    append_collision_op( model == HS ? hard_sphere( "m", a, (float)( R * B[k & 1] ), b, (float)( R * B[~k & 1] ), w.rp, sample0, interval ) : model == CO ? large_angle_coulomb( "m", a, b, (float)R, w.rp, sample0, interval ) : takizuka_abe( "m", a, b, w.rp, cvar0, interval ), &list );
  w.ctx += fmt( " crowds %s species %d,%d masses %g,%g interval=%d size=%g T=%g", nm, si, sj, mi, mj, interval, model == TA ? cvar0 : R, T ); (void)same;
  int steps = r.i( 1, 3 ); int64_t first = r.i( 0, 1000 );
  for( int st = 0; st < steps; st++ ) {
    w.g->step = first + st; bool due = interval > 0 && w.g->step % interval == 0; apply_collision_op_list( list );
    for( int s = 0; s < 3; s++ ) if( ( s != si && s != sj ) || !due || ( model == TA ? cvar0 == 0 : R == 0 ) || T == 0 ) w.unchanged( s, fmt( "%s%s", nm, !due ? " on a step it is not due" : s != si && s != sj ? " of other species" : T == 0 ? " between comoving particles" : " at zero rate" ).c_str() );
    std::vector<particle_t> p, q; if( !w.now( si, p, nm ) || !w.now( sj, q, nm ) ) break;
    std::vector<double> S( w.g->nv * 10, 0. ); int moved = 0; std::vector<int> mv( w.g->nv, 0 );
    for( int pass = 0; pass < ( si == sj ? 1 : 2 ); pass++ ) {
      const std::vector<particle_t> &x = pass ? q : p, &y = w.was[ pass ? sj : si ]; double m = pass ? mj : mi;
      for( size_t k = 0; k < x.size(); k++ ) { double *z = &S[ 10 * x[k].i ];
        for( int d = 0; d < 3; d++ ) { double u = ( &x[k].ux )[d], u0 = ( &y[k].ux )[d]; z[d] += m * u; z[3+d] += m * u0; z[6] += m * u * u; z[7] += m * u0 * u0; z[8] += m * ( fabs( u ) + fabs( u0 ) ) + m * 1e-3; z[9] += m * ( u * u + u0 * u0 ) + m * 1e-5; }
        if( memcmp( &x[k].ux, &y[k].ux, 12 ) ) { moved++; mv[ x[k].i ]++; } }
    }
    for( int k = 0; k < w.g->nv; k++ ) { const double *z = &S[10*k]; bool bad = false;
      for( int d = 0; d < 3; d++ ) if( !( fabs( z[d] - z[3+d] ) <= 3e-6 * z[8] ) ) bad = true;
      if( bad ) { viol( "momentum", fmt( "%s changed the momentum of cell %d from (%g,%g,%g) by (%.3g,%.3g,%.3g) %s", nm, k, z[3], z[4], z[5], z[0]-z[3], z[1]-z[4], z[2]-z[5], w.ctx.c_str() ) ); break; }
      if( !( fabs( z[6] - z[7] ) <= 1e-5 * z[9] ) ) { viol( "energy", fmt( "%s changed the kinetic energy of cell %d from %.9g to %.9g %s", nm, k, z[7] / 2, z[6] / 2, w.ctx.c_str() ) ); break; } }
    // takizuka-abe scatters everybody who has company
    if( model == TA && due && cvar0 > 0 && T > 0 ) for( int ce = 0; ce < w.cells(); ce++ ) { int k = w.vox( ce ), n = si == sj ? ( hi[ce] > 1 ? hi[ce] : 0 ) : hi[ce] && hj[ce] ? hi[ce] + hj[ce] : 0;
      count( "ta_company", n ); if( mv[k] < n ) count( "ta_missed", n - mv[k] );
      if( n == 0 && mv[k] ) viol( "acted", fmt( "%s scattered %d particles of a cell without partners %s", nm, mv[k], w.ctx.c_str() ) ); }
    count( "moved", moved ); count( "cells_balanced", w.cells() );
    w.keep( si ); if( sj != si ) w.keep( sj );
  }
  eval( w.ctx ); sample( w.ctx );
  delete_collision_op_list( list ); w.destroy();
}

// two samples of one law
static void twosample( const char *what, std::vector<double> a, std::vector<double> b, const std::string &ctx ) {
  std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() ); size_t i = 0, j = 0; double D = 0;
  while( i < a.size() && j < b.size() ) { double x = std::min( a[i], b[j] ); while( i < a.size() && a[i] <= x ) i++; while( j < b.size() && b[j] <= x ) j++; D = std::max( D, fabs( (double)i / a.size() - (double)j / b.size() ) ); }
  double n = sqrt( (double)a.size() * b.size() / ( a.size() + b.size() ) ); count( "distribution_tests" );
  if( D * n > 3.6 ) viol( "distribution", fmt( "%s: distance %.4f between %d seen and %d expected %s", what, D, (int)a.size(), (int)b.size(), ctx.c_str() ) );
}
static void scatter( Rng &r, int model, double cc, const double u[3], double v[3] ) { // turn of u
  double b1, b2, s; do { b1 = r.u( -1, 1 ); b2 = r.u( -1, 1 ); s = b1 * b1 + b2 * b2; } while( s >= 1 );
  double ur = sqrt( u[0]*u[0] + u[1]*u[1] + u[2]*u[2] ), cx = model == HS ? 2 * s - 1 : 0; if( model == CO ) { double B2 = cc * ur * ur * cc * ur * ur * s; cx = ( B2 - 1 ) / ( B2 + 1 ); }
  double sx = sqrt( std::max( 0., 1 - cx * cx ) ), ph = r.u( 0, 2 * M_PI ), e[3] = { 0, 0, 0 }; int m = 0; for( int k = 1; k < 3; k++ ) if( fabs( u[k] ) < fabs( u[m] ) ) m = k; e[m] = 1;
  double t[3] = { u[1]*e[2] - u[2]*e[1], u[2]*e[0] - u[0]*e[2], u[0]*e[1] - u[1]*e[0] }, tn = sqrt( t[0]*t[0] + t[1]*t[1] + t[2]*t[2] );
  if( ur <= 0 || tn <= 0 ) { for( int k = 0; k < 3; k++ ) v[k] = u[k]; return; }
  double q[3] = { u[1]*t[2] - u[2]*t[1], u[2]*t[0] - u[0]*t[2], u[0]*t[1] - u[1]*t[0] };
  for( int k = 0; k < 3; k++ ) v[k] = u[k] * cx + ur * sx * ( cos( ph ) * t[k] / tn + sin( ph ) * q[k] / ( tn * ur ) );
}

// a background
static void fluids( Rng &r ) {
  World w; w.make( r, 4, 2 ); int model = r.i( 0, 1 ); const char *nm = model == HS ? "hard_sphere_fluid" : "large_angle_coulomb_fluid"; species_t *a = w.sp[0]; double c = w.g->cvac, dt = w.g->dt, m = a->m;
  bool cold = r.chance( 0.4 ), still = r.chance( 0.15 ); double ut = cold ? 0 : r.u( 0.02, 0.1 ), ud[3], u0[3], m0 = r.chance( 0.4 ) ? m : m * r.u( 0.2, 5 ); int interval = r.i( 1, 3 );
  for( int k = 0; k < 3; k++ ) { ud[k] = r.chance( 0.3 ) ? 0 : r.u( -0.2, 0.2 ); u0[k] = still ? ud[k] : ud[k] + r.u( -0.3, 0.3 ); }
  std::vector<int> how( w.cells(), 4000 / w.cells() ); w.fill( r, 0, how, 0, u0, 1, 1 ); w.fill( r, 1, how, 0.1, u0, 1, 1 );
  for( int k = 0; k < 3; k++ ) u0[k] = w.was[0][0].ux * ( k == 0 ) + w.was[0][0].uy * ( k == 1 ) + w.was[0][0].uz * ( k == 2 );
  double x2 = 0; for( int k = 0; k < 3; k++ ) x2 += ( u0[k] - ud[k] ) * ( u0[k] - ud[k] ); double x = sqrt( x2 );
  double f = ut > 0 ? ( x > 1e-4 * ut ? ( x + ut * ut / x ) * erf( x / ( sqrt( 2. ) * ut ) ) + ut * sqrt( 2 / M_PI ) * exp( -x2 / ( 2 * ut * ut ) ) : ut * sqrt( 8 / M_PI ) ) : x;
  double want = r.chance( 0.1 ) ? 4 : r.chance( 0.1 ) ? 0 : r.u( 0.1, 0.9 ), n0 = r.u( 0.5, 5 ), R = f > 0 ? sqrt( want / ( dt * interval * M_PI * c * f * n0 ) ) : 1; if( want == 0 && r.chance( 0.5 ) ) { n0 = 0; R = 1; }
  double q0 = 1, cc = 0; if( model == CO ) { q0 = 4 * M_PI * w.g->eps0 * m * m0 / ( m + m0 ) * c * c * R * std::max( 1e-3, f * f ) * r.u( 0.3, 3 ) / a->q; if( q0 == 0 ) q0 = 1; if( r.chance( 0.5 ) ) q0 = -q0; }
  double kT = ut * ut * m0 * c * c;
  collision_op_t *list = NULL; double rs = R * r.u( 0, 1 );
  append_collision_op( model == HS ? hard_sphere_fluid( "f", (float)n0, (float)( ud[0] * c ), (float)( ud[1] * c ), (float)( ud[2] * c ), (float)kT, (float)m0, (float)( R - rs ), a, (float)rs, w.rp, interval )
                                   : large_angle_coulomb_fluid( "f", (float)n0, (float)( ud[0] * c ), (float)( ud[1] * c ), (float)( ud[2] * c ), (float)kT, (float)q0, (float)m0, a, (float)R, w.rp, interval ), &list );
  if( model == CO ) cc = 4 * M_PI * w.g->eps0 * m * m0 / ( m + m0 ) * c * c * R / ( (double)a->q * q0 );
  w.ctx += fmt( " %s masses %g,%g thermal %g relative %g probability %g interval=%d", nm, m, m0, ut, x, want, interval );
  w.g->step = interval * r.i( 0, 100 ); apply_collision_op_list( list );
  w.unchanged( 1, nm ); std::vector<particle_t> p;
  if( w.now( 0, p, nm ) ) {
    std::vector<double> s[5], e[5]; int hit = 0; double pr = std::min( 1., want ), lo = std::min( 1., want * 0.9995 ), hi = std::min( 1., want * 1.0045 ); double fi = m0 / ( m + m0 ), n = p.size();
    for( size_t k = 0; k < p.size(); k++ ) {
      double v[3] = { p[k].ux, p[k].uy, p[k].uz }; if( !memcmp( &p[k].ux, &w.was[0][k].ux, 12 ) ) continue; hit++;
      double g[4] = { 0, 0, 0, 0 }; for( int d = 0; d < 3; d++ ) { g[d] = v[d] - ud[d]; g[3] += g[d] * g[d]; } for( int d = 0; d < 4; d++ ) s[d].push_back( g[d] );
      if( cold && x > 0.05 ) { double a0[3], a1[3], cosx, phi, ra, rb; for( int d = 0; d < 3; d++ ) { a0[d] = u0[d] - ud[d]; a1[d] = a0[d] + ( v[d] - u0[d] ) / fi; } turn( a0, a1, cosx, phi, ra, rb );
        if( fabs( ra - rb ) > 2e-5 * ( 1 + 1 / fi ) ) { viol( "energy", fmt( "%s: the relative momentum to a cold fluid went from %.9g to %.9g %s", nm, ra, rb, w.ctx.c_str() ) ); break; }
        if( model == HS ) { h_hs.addu( ( 1 + cosx ) / 2 ); h_hsphi.addu( phi ); } else { double B = cc * x2; h_co.addu( std::min( 0.9999, ( 1 + cosx ) / ( 1 - cosx ) / ( B * B ) ) ); h_cophi.addu( phi ); } }
    }
    if( still && cold ) { if( hit && x == 0 ) viol( "acted", fmt( "%s moved %d particles at rest in a cold fluid %s", nm, hit, w.ctx.c_str() ) ); }
    else {
      double sd = 7 * sqrt( n * pr * ( 1 - pr ) + 1 ); if( want == 0 ) { if( hit ) viol( "zero-rate", "collisions at a rate of zero " + w.ctx ); }
      else if( hit < n * lo - sd || hit > n * hi + sd ) viol( "rate", fmt( "%s: %d of %d particles collided where %g are due %s", nm, hit, (int)n, n * pr, w.ctx.c_str() ) );
      ( model == HS ? z_hsf : z_cof ).add( hit - n * std::min( std::max( hit / n, lo ), hi ), n * pr * ( 1 - pr ) + 1e-9 ); count( "fluid_collisions", hit );
      if( hit > 300 && !cold && !( still && model == CO && x == 0 ) ) {
        for( int k = 0; k < 4000; k++ ) { double a0[3], v[3], g[4] = { 0, 0, 0, 0 }, b0[3]; for( int d = 0; d < 3; d++ ) { b0[d] = ut * r.n(); a0[d] = u0[d] - ud[d] - b0[d]; } scatter( r, model, cc, a0, v ); for( int d = 0; d < 3; d++ ) { g[d] = u0[d] - ud[d] + fi * ( v[d] - a0[d] ); g[3] += g[d] * g[d]; } for( int d = 0; d < 4; d++ ) e[d].push_back( g[d] ); }
        static const char *nn[] = { "x momentum", "y momentum", "z momentum", "energy" }; for( int d = 0; d < 4; d++ ) twosample( fmt( "%s after a collision, %s", nm, nn[d] ).c_str(), s[d], e[d], w.ctx );
      }
    }
  }
  eval( w.ctx ); sample( w.ctx ); delete_collision_op_list( list ); w.destroy();
}

static void thermostat( Rng &r ) {
  World w; w.make( r, 3, 2, true ); species_t *a = w.sp[0]; double kT = r.chance( 0.15 ) ? 0 : r.u( 0.001, 0.05 ), nu = r.chance( 0.1 ) ? 0 : r.chance( 0.1 ) ? 1e4 : r.u( 0.01, 3 ); static const int iv[] = { 1, 1, 2, 3, 5, 0, -2 }; int interval = iv[ r.i( 0, 6 ) ];
  std::vector<int> how( w.cells(), r.chance( 0.2 ) ? r.i( 0, 3 ) : 3000 / w.cells() ); const double d0[3] = { 0.1, -0.2, 0.05 }; w.fill( r, 0, how, 0.1, d0, 0.5, 2 ); w.fill( r, 1, how, 0.1, d0, 1, 1 );
  w.ctx += fmt( " langevin kT=%g nu=%g interval=%d mass=%g dt=%g np=%d", kT, nu, interval, a->m, w.g->dt, w.tot[0] );
  collision_op_t *list = NULL; append_collision_op( langevin( (float)kT, (float)nu, a, w.rp, interval ), &list ); int steps = r.i( 1, 4 ), first = r.i( 0, 50 );
  for( int st = 0; st < steps; st++ ) {
    w.g->step = first + st; apply_collision_op_list( list ); bool due = interval > 0 && w.g->step % interval == 0; w.unchanged( 1, "langevin of another species" );
    if( !due || nu == 0 ) { w.unchanged( 0, due ? "langevin at zero rate" : "langevin on a step it is not due" ); count( "steps_not_due" ); continue; } count( "steps_due" );
    std::vector<particle_t> p; if( !w.now( 0, p, "langevin" ) ) break; double h = nu * interval * w.g->dt, dec = exp( -h ), drv = sqrt( -expm1( -2 * h ) * kT / ( a->m * w.g->cvac ) );
    double last = 0.5; bool bad = false;
    for( size_t k = 0; k < p.size() && !bad; k++ ) { double u[3];
      for( int d = 0; d < 3; d++ ) { double dv = ( &p[k].ux )[d] - dec * ( &w.was[0][k].ux )[d]; if( kT == 0 ) { if( fabs( dv ) > 1e-6 ) { viol( "decay", fmt( "langevin without heat took %g to %g, not %g %s", ( &w.was[0][k].ux )[d], ( &p[k].ux )[d], dec * ( &w.was[0][k].ux )[d], w.ctx.c_str() ) ); bad = true; break; } u[d] = 0.5; } else { u[d] = Phi( dv / drv ); h_la.addu( u[d] ); } }
      if( kT > 0 && !bad ) { h_la2.add( std::min( 3, (int)( u[0] * 4 ) ) * 4 + std::min( 3, (int)( u[1] * 4 ) ) ); h_la2.add( std::min( 3, (int)( u[1] * 4 ) ) * 4 + std::min( 3, (int)( u[2] * 4 ) ) ); }
      (void)last; }
    if( kT > 0 ) for( size_t k = 0; k + 1 < (size_t)a->np; k++ ) { // neighbours in memory, also across the pipelines
      int i = (int)floor( ( a->p[k].dx + 1.0 ) / 2 * w.tot[0] ), j = (int)floor( ( a->p[k+1].dx + 1.0 ) / 2 * w.tot[0] ); double x = Phi( ( a->p[k].ux - dec * w.was[0][i].ux ) / drv ), y = Phi( ( a->p[k+1].ux - dec * w.was[0][j].ux ) / drv ); h_lap.add( std::min( 3, (int)( x * 4 ) ) * 4 + std::min( 3, (int)( y * 4 ) ) ); }
    std::set<std::vector<float> > seen; int dup = 0; if( kT > 0 && drv > 1e-2 ) for( size_t k = 0; k < p.size(); k++ ) { std::vector<float> v( 3 ); for( int d = 0; d < 3; d++ ) v[d] = (float)(int)( ( ( &p[k].ux )[d] - dec * ( &w.was[0][k].ux )[d] ) / drv * 1e4 ); if( !seen.insert( v ).second ) dup++; }
    if( dup > 3 ) viol( "shared-stream", fmt( "langevin kicked %d of %d particles exactly as it kicked another %s", dup, (int)p.size(), w.ctx.c_str() ) );
    w.keep( 0 );
  }
  eval( w.ctx ); sample( w.ctx ); delete_collision_op_list( list ); w.destroy();
}

// who meets whom under takizuka-abe: unit kicks told apart by who moved along
static void partners( Rng &r ) {
  World w; w.make( r, 8, 2 ); bool self = r.chance( 0.5 ); int n = self ? 2 * r.i( 2, 4 ) : r.i( 2, 6 ); const double d0[3] = { 0, 0, 0 };
  std::vector<int> how( w.cells(), n ); w.fill( r, 0, how, 0, d0, 1, 1 ); w.fill( r, 1, how, 0, d0, 1, 1 );
  // only one particle of a cell differs: whoever moves with it is its partner
  std::map<int,int> odd; for( int k = 0; k < w.tot[0]; k++ ) if( !odd.count( w.was[0][k].i ) ) { odd[ w.was[0][k].i ] = k; w.was[0][k].ux = 0.3f; w.was[0][k].uy = 0.1f; w.sp[0]->p[k] = w.was[0][k]; }
  double mu = (double)w.sp[0]->m * w.sp[ self ? 0 : 1 ]->m / ( w.sp[0]->m + w.sp[ self ? 0 : 1 ]->m );
  species_t *a = w.sp[0], *b = w.sp[ self ? 0 : 1 ]; double cv = 0.01 * mu * mu / ( (double)a->q * a->q * b->q * b->q ) * w.dV / w.g->dt;
  collision_op_t *list = NULL; append_collision_op( takizuka_abe( "m", a, b, w.rp, cv, 1 ), &list ); apply_collision_op_list( list ); w.ctx += fmt( " partners %d %s", n, self ? "self" : "" );
  std::vector<particle_t> p; int t = self ? 0 : 1;
  if( w.now( t, p, "takizuka_abe" ) ) {
    std::map<int,int> seen, cnt; // rank within the cell, in order of name
    for( int k = 0; k < (int)p.size(); k++ ) { int c = p[k].i; if( self && odd[c] == k ) continue; int rk = cnt[c]++; if( memcmp( &p[k].ux, &w.was[t][k].ux, 12 ) ) { seen[c]++; int m = self ? n - 1 : n; ( self ? h_taself : h_tapair ).addu( ( rk + r.u() ) / m ); } }
    for( std::map<int,int>::iterator it = odd.begin(); it != odd.end(); ++it ) if( seen[it->first] != 1 ) { viol( "partner", fmt( "a particle met %d partners where one is due %s", seen[it->first], w.ctx.c_str() ) ); break; }
    if( self == false ) { std::vector<particle_t> q; w.now( 0, q, "takizuka_abe" ); }
    count( "partners", odd.size() );
  }
  eval( w.ctx ); delete_collision_op_list( list ); w.destroy();
}

// how much a crowd is stirred: many cells alike, small kicks
static void stir( Rng &r ) {
  World w; w.make( r, 12, 2 ); bool self = r.chance( 0.5 ); int ni = r.i( self ? 2 : 1, 7 ), nj = self ? ni : r.i( 1, 7 ); double T = r.u( 0.02, 0.2 ), W = r.u( 0.5, 2 ); const double d0[3] = { 0, 0, 0 }; int interval = r.i( 1, 3 );
  std::vector<int> hi( w.cells(), ni ), hj( w.cells(), nj ); w.fill( r, 0, hi, T, d0, W, W ); w.fill( r, 1, hj, T, d0, W, W );
  species_t *a = w.sp[0], *b = w.sp[ self ? 0 : 1 ]; double mi = a->m, mj = b->m, mu = mi * mj / ( mi + mj ), fi = mj / ( mi + mj ), fj = mi / ( mi + mj ), S = 3e-4 * T * T * T, den = W * ( self ? ni : std::min( ni, nj ) );
  double cv = S / ( den * w.g->dt * interval / w.dV ) * mu * mu / ( (double)a->q * a->q * b->q * b->q );
  collision_op_t *list = NULL; append_collision_op( takizuka_abe( "m", a, b, w.rp, cv, interval ), &list ); w.g->step = interval * r.i( 0, 9 ); apply_collision_op_list( list );
  w.ctx += fmt( " stirring %d and %d%s masses %g,%g", ni, nj, self ? " self" : "", mi, mj );
  std::vector<particle_t> p, q; if( !w.now( 0, p, "takizuka_abe" ) || !w.now( self ? 0 : 1, q, "takizuka_abe" ) ) return;
  std::map<int,std::vector<int> > ci, cj; for( size_t k = 0; k < p.size(); k++ ) ci[ p[k].i ].push_back( (int)k ); for( size_t k = 0; k < q.size(); k++ ) cj[ q[k].i ].push_back( (int)k );
  double D = 0, V = 0, E = 0; const std::vector<particle_t> &wi = w.was[0], &wj = w.was[ self ? 0 : 1 ];
  for( std::map<int,std::vector<int> >::iterator it = ci.begin(); it != ci.end(); ++it ) {
    const std::vector<int> &x = it->second, &y = cj[it->first]; double got = 0, m = 0; int np = 0;
    for( size_t k = 0; k < x.size(); k++ ) for( int d = 0; d < 3; d++ ) { double t = (double)( &p[x[k]].ux )[d] - ( &wi[x[k]].ux )[d]; got += t * t; }
    if( !self ) for( size_t k = 0; k < y.size(); k++ ) for( int d = 0; d < 3; d++ ) { double t = (double)( &q[y[k]].ux )[d] - ( &wj[y[k]].ux )[d]; got += t * t; }
    for( size_t k = 0; k < x.size(); k++ ) for( size_t l = self ? k + 1 : 0; l < y.size(); l++ ) { double u2 = 0; for( int d = 0; d < 3; d++ ) { double t = (double)( &wi[x[k]].ux )[d] - ( &wj[y[l]].ux )[d]; u2 += t * t; } double v = std::min( S / ( u2 * sqrt( u2 ) ), 1. ); m += 4 * v / ( 1 + 2.5 * v ) * u2; np++; }
    double e = m / np * ( self ? ni / 2. : std::max( ni, nj ) ) * ( fi * fi + fj * fj ); D += got - e; E += e; V += ( got - e ) * ( got - e );
  }
  count( "cells_stirred", ci.size() );
  // by kind of crowd, over the whole run
  static std::map<std::string,Z> *z = new std::map<std::string,Z>; std::string key = fmt( "%s of %s", self ? "its own species" : "two species", self ? ( ni == 3 ? "three" : ni % 2 ? "an odd number" : "an even number" ) : ni == nj ? "equal numbers" : ni > nj ? "more of the first" : "more of the second" );
  Z &zz = (*z)[key]; zz.add( D / E, V / ( E * E ) ); if( zz.n > 10 && fabs( zz.d ) > 7 * sqrt( zz.v ) + 0.01 * zz.n ) { viol( "stirring", fmt( "takizuka-abe among %s stirs by %.3f of what is due (deviation %.3f) over %d worlds %s", key.c_str(), 1 + zz.d / zz.n, sqrt( zz.v ) / zz.n, (int)zz.n, w.ctx.c_str() ) ); zz.n = -1000000; }
  eval( w.ctx ); delete_collision_op_list( list ); w.destroy();
}

int main( int argc, char **argv ) {
  parse( argc, argv ); boot_services( &argc, &argv );
  for( cur_case = opt_first; cur_case < opt_first + opt_cases; cur_case++ ) {
    each_case( cur_case - opt_first );
    Rng r( mix( mix( opt_seed, 41 ), cur_case ) );
    if( opt_mode == "big" ) { pairs( r, true ); continue; }
    int k = cur_case % 11;
    if( k == 10 ) { stir( r ); continue; }
    if( k < 2 ) pairs( r, false ); else if( k < 4 ) couples( r ); else if( k < 7 ) crowds( r ); else if( k == 7 ) fluids( r ); else if( k == 8 ) thermostat( r ); else partners( r );
  }
  Hist *hs[] = { &h_first, &h_second, &h_both, &h_hs, &h_hsphi, &h_co, &h_cophi, &h_ta, &h_taphi, &h_la, &h_la2, &h_lap, &h_tapair, &h_taself };
  for( size_t k = 0; k < sizeof hs / sizeof *hs; k++ ) hs[k]->test();
  z_heavy.test( "the heavier particle of a pair is updated" ); z_heavy_ta.test( "the heavier particle of a takizuka-abe pair is updated" ); z_unary.test( "unary collisions" );
  z_hs.test( "hard sphere collisions" ); z_co.test( "large angle coulomb collisions" ); z_hsf.test( "hard sphere fluid collisions" ); z_cof.test( "large angle coulomb fluid collisions" );
  if( counters["ta_missed"] * 1000 > counters["ta_company"] ) viol( "ta-coverage", fmt( "takizuka-abe left %lld of %lld particles with partners unscattered", (long long)counters["ta_missed"], (long long)counters["ta_company"] ) );
  done(); halt_services(); return 0;
}
