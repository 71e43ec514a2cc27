// Monitored particle kernels: one full step (push, boundary exchange, current
// unloading and synchronisation), moments, centering and sorting, each against
// a double-precision reference on the global mesh.
#include "rv_cont.h"
using namespace rv;

static const int MAXALT = 6;
struct Expect { double id; int nalt, strong; Outcome alt[MAXALT]; double tu, tx; };

static bool same_class( const Outcome &x, const Outcome &y, double tu ) {
  if( x.status != y.status ) return false;
  for( int a = 0; a < 3; a++ ) if( ( x.u[a] < 0 ) != ( y.u[a] < 0 ) && fabs( x.u[a] - y.u[a] ) > 0.5 * tu ) return false;
  return true;
}

static void run_step( int cs ) {
  Rng rr( mix( mix( opt_seed, 101 ), cs ) );
  static const int fb[] = { PEC, SYM, PMC, ABS };
  Box b = draw_box( rr, std::vector<int>( fb, fb + 4 ), rr.chance( 0.2 ) ? 3000 : 700, 0.45, true, 1 );
  PWorld w;
  std::vector<int> acts; acts.push_back( reflect_particles ); acts.push_back( absorb_particles );
  int nsp = rr.i( 1, 3 );
  w.build( rr, b, nsp, acts, rr.chance( 0.3 ) ? rr.u( 0.01, 0.15 ) : 0 );
  w.apply_pbc();
  Rng lr( mix( mix( opt_seed, 777 + cs ), world_rank ) ); // local draws
  double qmax = 0, kmax = 0;
  static const int counts[] = { 0, 1, 2, 5, 15, 16, 17, 33, 100, 300, 700, 1500, 2500 };
  bool tight = rr.chance( 0.5 );
  int total = 0;
  for( int s = 0; s < nsp; s++ ) {
    double dr[3]; for( int a = 0; a < 3; a++ ) dr[a] = rr.chance( 0.3 ) ? rr.u( -4, 4 ) : 0;
    static const double Ts[] = { 0, 1e-3, 0.1, 0.5, 2 };
    int n = counts[ rr.i( 0, 12 ) ]; if( s == 0 && n == 0 ) n = 200;
    w.load( rr, w.sp[s], n, Ts[ rr.i( 0, 4 ) ], dr, rr.chance( 0.3 ), tight );
    total += n;
    qmax = std::max( qmax, fabs( (double)w.sp[s]->q ) ); kmax = std::max( kmax, fabs( w.qdt2mc( w.sp[s] ) ) );
  }
  if( kmax == 0 ) kmax = 1;
  int steps = rr.i( 1, 4 );
  bool lin = rr.chance( 0.7 ); int ftype = rr.i( 0, 4 );
  std::string ctx0 = fmt( "case %d seed %lld %s pbc=%d,%d,%d,%d,%d,%d walls=%.2g nsp=%d np=%d tpp=%d", cs, (long long)opt_seed, b.str().c_str(),
                          w.pbc[0], w.pbc[1], w.pbc[2], w.pbc[3], w.pbc[4], w.pbc[5], w.wallp, nsp, total, N_PIPELINE );
  std::set<double> dead;
  GlobalNodes gn( w );
  int64_t ncross = 0, nwrap = 0, nrefl = 0, nabs = 0, nmig = 0;
  std::vector<double> rb0, rb1, Q0, Q1;
  w.fa->kernel->synchronize_rho( w.fa );
  assemble( w, gn, 3, rb0 ); node_charge( w, gn, Q0 );
  std::vector<GPart> pre, post;
  w.collect( pre, ctx0 );
  for( int st = 0; st < steps; st++ ) {
    std::string ctx = ctx0 + fmt( " step %d", st );
    double fE = ftype == 0 ? 0 : rr.u( 0, 0.6 ) / kmax, fB = ftype == 1 ? 0 : rr.u( 0, 1.5 ) / kmax;
    w.random_interp( lr, fE, fB, lin );
    if( rr.chance( 0.3 ) ) for( int s = 0; s < nsp; s++ ) { sort_p( w.sp[s] ); }
    // expectations
    std::vector<double> J( 14 * w.gcells(), 0. ), JG( 14 * w.gcells(), 0. );
    double *cnt = &J[ 12 * w.gcells() ], *taint = &J[ 13 * w.gcells() ];
    std::vector<Expect> mine, ex; std::vector<int> seen;
    for( int s = 0; s < nsp; s++ ) for( int n = 0; n < w.sp[s]->np; n++ ) {
      particle_t &p = w.sp[s]->p[n];
      Expect e; memset( &e, 0, sizeof e );
      double u[3], dsp[3], sc; w.push( w.sp[s], p, u, dsp, sc );
      int c[3]; w.gcell( p.i, c );
      double d[3] = { p.dx, p.dy, p.dz };
      e.id = s * 1e6 + w2id( p.w );
      double cd = (double)w.g->cvac * w.g->dt * std::max( w.g->rdx, std::max( w.g->rdy, w.g->rdz ) );
      e.tu = 6e-6 * sc + 1e-7; e.tx = 3e-6 * ( 1 + fabs( dsp[0] ) + fabs( dsp[1] ) + fabs( dsp[2] ) ) + 2 * cd * 6e-6 * std::min( 1., sc );
      e.alt[0] = w.walk( c, d, u, dsp, w.sp[s]->q * (double)p.w, &J[0] ); e.nalt = 1;
      ncross += e.alt[0].ncross; nwrap += e.alt[0].nwrap; nrefl += e.alt[0].nrefl;
      cnt[ w.cellid( c ) ] += 1; cnt[ w.cellid( e.alt[0].c ) ] += 1;
      seen.clear();
      for( int t = 0; t < 16; t++ ) {
        double pd[3], ps[3]; double del = t & 8 ? 2 * e.tx : 0.3 * e.tx;
        for( int a = 0; a < 3; a++ ) {
          double sg = t >> a & 1 ? 1 : -1;
          pd[a] = std::max( -1., std::min( 1., d[a] + sg * del ) ); ps[a] = dsp[a] + sg * del;
        }
        Outcome o = w.walk( c, pd, u, ps, 0, NULL, &seen );
        // a flight along the plane between two cells belongs to either
        if( o.c[0] != e.alt[0].c[0] || o.c[1] != e.alt[0].c[1] || o.c[2] != e.alt[0].c[2] ) e.strong = 1;
        bool known = false;
        for( int k = 0; k < e.nalt; k++ ) if( same_class( e.alt[k], o, e.tu ) && w.sepw( e.alt[k], o.c, o.d ) < 40 * e.tx ) known = true;
        if( !known ) {
          if( e.nalt < MAXALT ) e.alt[ e.nalt++ ] = o;
          if( w.sepw( e.alt[0], o.c, o.d ) > 40 * e.tx ) e.strong = 1;
        }
      }
      // where rounding may decide between distinct histories, the cells they touch are not compared
      if( e.strong ) { w.walk( c, d, u, dsp, 0, NULL, &seen ); for( size_t k = 0; k < seen.size(); k++ ) taint[ seen[k] ] = 1; }
      mine.push_back( e );
    }
    MPI_Allreduce( &J[0], &JG[0], (int)J.size(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD );
    gather( mine, ex );
    // the code under test
    std::vector<interpolator_t> ikeep( w.ia->i, w.ia->i + w.g->nv );
    clear_accumulator_array( w.aa );
    w.fa->kernel->clear_jf( w.fa );
    for( int s = 0; s < nsp; s++ ) { w.movers( w.sp[s], w.sp[s]->np ); }
    species_t *q; LIST_FOR_EACH( q, w.sl ) advance_p( q, w.aa, w.ia );
    reduce_accumulator_array( w.aa );
    for( int k = 0; k < 3; k++ ) boundary_p( w.pbl, w.sl, w.fa, w.aa );
    LIST_FOR_EACH( q, w.sl ) if( q->nm ) viol( "unfinished-move", fmt( "%d moves unfinished after three exchange rounds %s", q->nm, ctx.c_str() ) );
    if( memcmp( &ikeep[0], w.ia->i, sizeof( interpolator_t ) * w.g->nv ) ) viol( "interpolator-written", "the step changed interpolation data " + ctx );
    // particles
    w.collect( post, ctx );
    if( world_rank == 0 ) {
      std::map<double,GPart> at;
      for( size_t k = 0; k < post.size(); k++ ) {
        if( at.count( post[k].id ) ) viol( "duplicated", fmt( "particle %g is present more than once (ranks %g and %g) %s", post[k].id, at[post[k].id].rank, post[k].rank, ctx.c_str() ) );
        at[ post[k].id ] = post[k];
      }
      for( size_t k = 0; k < ex.size(); k++ ) {
        Expect &e = ex[k];
        bool here = at.count( e.id ) > 0, ok = false; double bu = 1e30, bx = 1e30;
        for( int t = 0; t < e.nalt && !ok; t++ ) {
          Outcome &o = e.alt[t];
          if( o.status == 1 ) { if( !here ) ok = true; continue; }
          if( !here ) continue;
          GPart &p = at[ e.id ]; int c[3] = { (int)p.c[0], (int)p.c[1], (int)p.c[2] };
          double du = 0, sx = w.sepw( o, c, p.d );
          for( int a = 0; a < 3; a++ ) du = std::max( du, std::isfinite( p.u[a] ) ? fabs( p.u[a] - o.u[a] ) : 1e30 );
          bu = std::min( bu, du ); bx = std::min( bx, sx );
          if( du <= e.tu && sx <= ( t ? 10 : 1 ) * e.tx ) ok = true;
        }
        if( !ok ) {
          if( !here ) viol( "lost", fmt( "particle %g should be in cell (%d,%d,%d) and is nowhere %s", e.id, e.alt[0].c[0], e.alt[0].c[1], e.alt[0].c[2], ctx.c_str() ) );
          else if( e.alt[0].status == 1 && e.nalt == 1 ) viol( "not-absorbed", fmt( "particle %g met an absorbing boundary and is still there %s", e.id, ctx.c_str() ) );
          else {
            GPart &p = at[ e.id ];
            viol( bu > e.tu ? "momentum" : "position", fmt( "particle %g: got cell (%g,%g,%g) offset (%.8g,%.8g,%.8g) u (%.8g,%.8g,%.8g), reference cell (%d,%d,%d) offset (%.8g,%.8g,%.8g) u (%.8g,%.8g,%.8g), tolerances u %.2g x %.2g, crossings %d reflections %d %s",
              e.id, p.c[0], p.c[1], p.c[2], p.d[0], p.d[1], p.d[2], p.u[0], p.u[1], p.u[2], e.alt[0].c[0], e.alt[0].c[1], e.alt[0].c[2], e.alt[0].d[0], e.alt[0].d[1], e.alt[0].d[2], e.alt[0].u[0], e.alt[0].u[1], e.alt[0].u[2], e.tu, e.tx, e.alt[0].ncross, e.alt[0].nrefl, ctx.c_str() ) );
          }
        }
        if( here ) at.erase( e.id ); else { dead.insert( e.id ); nabs++; }
      }
      for( std::map<double,GPart>::iterator i = at.begin(); i != at.end(); ++i )
        viol( "appeared", fmt( "particle %g appeared from nowhere%s %s", i->first, dead.count( i->first ) ? " (it had been absorbed)" : "", ctx.c_str() ) );
      std::map<double,double> rk; for( size_t k = 0; k < pre.size(); k++ ) rk[pre[k].id] = pre[k].rank;
      for( size_t k = 0; k < post.size(); k++ ) if( rk.count( post[k].id ) && rk[post[k].id] != post[k].rank ) nmig++;
    }
    pre = post;
    // currents
    {
      int bad = 0; int64_t cmp = 0, skipped = 0;
      for( int z = 0; z <= w.g->nz + 1; z++ ) for( int y = 0; y <= w.g->ny + 1; y++ ) for( int x = 0; x <= w.g->nx + 1; x++ ) {
        int v = VOXEL( x, y, z, w.g->nx, w.g->ny, w.g->nz ), c[3];
        const accumulator_t &a = w.aa->a[v];
        const float *f[3] = { a.jx, a.jy, a.jz };
        bool in = w.interior( v ); w.gcell( v, c );
        if( in && JG[ 13 * w.gcells() + w.cellid( c ) ] ) { skipped++; continue; }
        cmp++;
        for( int k = 0; k < 12 && bad < 3; k++ ) {
          double want = in ? JG[ 12 * (int64_t)w.cellid( c ) + k ] : 0, got = f[k/4][k%4];
          double tol = in ? qmax * ( 2e-5 * JG[ 12 * w.gcells() + w.cellid( c ) ] + 6e-5 * std::min( 50, total ) ) : 0;
          if( !close( got, want, tol ) ) {
            bad++;
            viol( "current", fmt( "%s cell (%d,%d,%d): accumulated j%c[%d] is %.8g, the particles' streaks give %.8g (tolerance %.2g) %s", in ? "interior" : "ghost", x, y, z, "xyz"[k/4], k%4, got, want, tol, ctx.c_str() ) );
          }
        }
      }
      count( "currents_compared", 12 * cmp ); count( "cells_ambiguous", skipped );
    }
    // continuity
    unload_accumulator_array( w.fa, w.aa );
    w.fa->kernel->synchronize_jf( w.fa );
    for( int v = 0; v < w.g->nv; v++ ) w.fa->f[v].rhof = 0;
    w.fa->kernel->synchronize_rho( w.fa );
    assemble( w, gn, 3, rb1 ); node_charge( w, gn, Q1 );
    std::vector<double> near( JG.begin() + 12 * w.gcells(), JG.begin() + 13 * w.gcells() );
    continuity( w, gn, Q0, rb0, Q1, rb1, near, qmax, ctx );
    count( "nodes_checked", gn.n );
    Q0 = Q1; rb0 = rb1;
    count( "steps" );
  }
  int64_t tot[3] = { ncross, nwrap, nrefl }, gt[3];
  MPI_Allreduce( tot, gt, 3, MPI_INT64_T, MPI_SUM, MPI_COMM_WORLD );
  count( "cell_crossings", gt[0] ); count( "periodic_wraps", gt[1] ); count( "reflections", gt[2] ); count( "absorbed", nabs ); count( "rank_migrations", nmig );
  eval( ctx0 ); sample( fmt( "%s: crossings %lld wraps %lld reflections %lld absorbed %lld migrations %lld", ctx0.c_str(), (long long)gt[0], (long long)gt[1], (long long)gt[2], (long long)nabs, (long long)nmig ), 2 );
  w.destroy();
}

// ---------------------------------------------------------------------------

static void run_sort( int cs ) {
  Rng rr( mix( mix( opt_seed, 201 ), cs ) );
  Box b = draw_box( rr, std::vector<int>(), rr.chance( 0.2 ) ? 20000 : 600, 1 );
  PWorld w; std::vector<int> acts( 1, (int)reflect_particles );
  w.build( rr, b, 1, acts, 0 );
  species_t *s = w.sp[0];
  static const int counts[] = { 0, 0, 1, 2, 3, 7, 15, 16, 31, 64, 100, 255, 256, 257, 1000, 3000, 7000, 20000 };
  Rng lr( mix( mix( opt_seed, 300 + cs ), world_rank ) );
  int rep = rr.i( 1, 3 );
  s->sort_out_of_place = rr.chance( 0.5 );
  for( int t = 0; t < rep; t++ ) {
    int n = counts[ lr.i( 0, 17 ) ], dist = lr.i( 0, 5 );
    s->np = 0; w.reserve( s, n + lr.i( 0, 20 ), true );
    grid_t *g = w.g;
    int lo = VOXEL( 1, 1, 1, g->nx, g->ny, g->nz ), one = 0; (void)lo;
    for( int k = 0; k < n; k++ ) {
      particle_t &p = s->p[k];
      int x = lr.i( 1, g->nx ), y = lr.i( 1, g->ny ), z = lr.i( 1, g->nz );
      if( dist == 1 ) { if( !k ) one = VOXEL( x, y, z, g->nx, g->ny, g->nz ); }
      if( dist == 2 ) { if( lr.chance( 0.5 ) ) x = y = z = 1; else x = g->nx, y = g->ny, z = g->nz; }
      p.i = dist == 1 ? one : VOXEL( x, y, z, g->nx, g->ny, g->nz );
      p.dx = w.doff( lr ); p.dy = w.doff( lr ); p.dz = w.doff( lr );
      p.ux = (float)lr.n(); p.uy = (float)lr.n(); p.uz = (float)lr.n(); p.w = lr.chance( 0.3 ) ? 1 : (float)lr.u( 0, 4 );
    }
    s->np = n;
    if( dist == 3 ) { std::sort( s->p, s->p + n, []( const particle_t &a, const particle_t &c ) { return a.i < c.i; } ); }
    if( dist == 4 ) { std::sort( s->p, s->p + n, []( const particle_t &a, const particle_t &c ) { return a.i > c.i; } ); }
    std::vector<std::string> before, after;
    for( int k = 0; k < n; k++ ) before.push_back( std::string( (char*)&s->p[k], sizeof( particle_t ) ) );
    std::string ctx = fmt( "case %d.%d seed %lld %s np=%d dist=%d out_of_place=%d tpp=%d", cs, t, (long long)opt_seed, b.str().c_str(), n, dist, s->sort_out_of_place, N_PIPELINE );
    // a partition left over from before must not survive
    for( int v = 0; v < g->nv; v++ ) s->partition[v] = -12345;
    int64_t step = lr.i( 0, 100000 ); g->step = step; s->last_sorted = INT64_MIN;
    int mx = s->max_np;
    sort_p( s );
    if( s->np != n || s->max_np < n ) viol( "count", fmt( "np %d -> %d (max_np %d -> %d) %s", n, s->np, mx, s->max_np, ctx.c_str() ) );
    if( s->last_sorted != step ) viol( "last-sorted", fmt( "last_sorted is %lld at step %lld %s", (long long)s->last_sorted, (long long)step, ctx.c_str() ) );
    bool ord = true; std::vector<int> nin( g->nv, 0 );
    for( int k = 0; k < s->np; k++ ) {
      after.push_back( std::string( (char*)&s->p[k], sizeof( particle_t ) ) );
      if( k && s->p[k].i < s->p[k-1].i ) ord = false;
      if( s->p[k].i >= 0 && s->p[k].i < g->nv ) nin[ s->p[k].i ]++;
    }
    if( !ord ) viol( "order", "particles are not grouped by ascending cell " + ctx );
    std::sort( before.begin(), before.end() ); std::sort( after.begin(), after.end() );
    if( before != after ) viol( "permutation", "sorting changed the set of particle records " + ctx );
    int bad = 0, pos = 0;
    for( int v = 0; v < g->nv && bad < 2; v++ ) {
      int first = pos, last = pos + nin[v]; pos = last;
      if( !w.interior( v ) ) continue;
      if( s->partition[v] != first || s->partition[v+1] != last ) {
        bad++; viol( "partition", fmt( "cell %d holds particles [%d,%d), the partition says [%d,%d) %s", v, first, last, s->partition[v], s->partition[v+1], ctx.c_str() ) );
      }
    }
    count( "particles_sorted", n ); count( "cells_checked", g->nv );
    eval( ctx ); sample( ctx, 2 );
  }
  w.destroy();
}

// ---------------------------------------------------------------------------

static void run_center( int cs ) {
  Rng rr( mix( mix( opt_seed, 301 ), cs ) );
  Box b = draw_box( rr, std::vector<int>(), 600, 1 );
  PWorld w; std::vector<int> acts( 1, (int)reflect_particles );
  w.build( rr, b, 1, acts, 0 );
  species_t *s = w.sp[0];
  Rng lr( mix( mix( opt_seed, 900 + cs ), world_rank ) );
  static const int counts[] = { 0, 1, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 333, 1000, 4001 };
  static const double Ts[] = { 0, 1e-4, 0.05, 1, 10 };
  int n = counts[ rr.i( 0, 16 ) ]; double zero[3] = { rr.chance( 0.3 ) ? rr.u( -5, 5 ) : 0, 0, 0 };
  w.load( rr, s, n, Ts[ rr.i( 0, 4 ) ], zero, false, true );
  double k = w.qdt2mc( s ), ka = fabs( k ) > 0 ? fabs( k ) : 1;
  w.random_interp( lr, rr.chance( 0.2 ) ? 0 : rr.u( 0, 1 ) / ka, rr.chance( 0.2 ) ? 0 : rr.u( 0, 1.5 ) / ka, rr.chance( 0.7 ) );
  std::string ctx = fmt( "case %d seed %lld %s np=%d q=%g m=%g tpp=%d", cs, (long long)opt_seed, b.str().c_str(), n, s->q, s->m, N_PIPELINE );
  std::vector<particle_t> p0( s->p, s->p + s->np );
  for( int dir = 0; dir < 3; dir++ ) { // 0: center, 1: uncenter back, 2: uncenter fresh
    if( dir == 2 ) for( int t = 0; t < s->np; t++ ) s->p[t] = p0[t];
    std::vector<particle_t> in( s->p, s->p + s->np );
    if( dir == 0 ) center_p( s, w.ia ); else uncenter_p( s, w.ia );
    int bad = 0;
    for( int t = 0; t < s->np && bad < 3; t++ ) {
      particle_t &p = s->p[t], &q = in[t];
      if( memcmp( &p.dx, &q.dx, 16 ) || memcmp( &p.w, &q.w, 4 ) ) { bad++; viol( "touched", fmt( "%s changed position, cell or weight of particle %d %s", dir ? "uncenter_p" : "center_p", t, ctx.c_str() ) ); }
      double d[3] = { q.dx, q.dy, q.dz }, e[3], bb[3], u[3] = { q.ux, q.uy, q.uz }, sc = 0;
      w.interp( w.ia->i[q.i], d, e, bb );
      for( int a = 0; a < 3; a++ ) sc += fabs( u[a] ) + 2 * fabs( k * e[a] );
      if( dir == 0 ) for( int a = 0; a < 3; a++ ) u[a] += k * e[a];
      double th = fabs( k ) / 2 * sqrt( bb[0]*bb[0] + bb[1]*bb[1] + bb[2]*bb[2] );
      w.rotate( u, bb, dir == 0 ? k / 2 : -k / 2 );
      if( dir ) for( int a = 0; a < 3; a++ ) u[a] -= k * e[a];
      double tol = 5e-6 * sc * ( 1 + th ) + 1e-7;
      for( int a = 0; a < 3 && bad < 3; a++ ) {
        if( !close( ( &p.ux )[a], u[a], tol ) ) { bad++; viol( dir ? "uncenter-value" : "center-value", fmt( "%s particle %d: u%c is %.8g, reference %.8g (tolerance %.2g) %s", dir ? "uncenter_p" : "center_p", t, "xyz"[a], ( &p.ux )[a], u[a], tol, ctx.c_str() ) ); }
        if( dir == 1 && !close( ( &p.ux )[a], ( &p0[t].ux )[a], 3 * tol ) ) { bad++; viol( "not-inverse", fmt( "center then uncenter: particle %d u%c %.8g -> %.8g (tolerance %.2g) %s", t, "xyz"[a], ( &p0[t].ux )[a], ( &p.ux )[a], 3 * tol, ctx.c_str() ) ); }
      }
    }
    count( "momenta_compared", 3 * s->np );
  }
  eval( ctx ); sample( ctx, 2 );
  w.destroy();
}

// ---------------------------------------------------------------------------

#ifndef RV_NO_MOMENTS
static void run_moments( int cs ) {
  Rng rr( mix( mix( opt_seed, 401 ), cs ) );
  static const int fb[] = { PEC, SYM, PMC, ABS };
  Box b = draw_box( rr, std::vector<int>( fb, fb + 4 ), 900, 0.45 );
  PWorld w; std::vector<int> acts( 1, (int)reflect_particles );
  int nsp = rr.i( 1, 3 );
  w.build( rr, b, nsp, acts, 0 ); w.apply_pbc();
  Rng lr( mix( mix( opt_seed, 1300 + cs ), world_rank ) );
  grid_t *g = w.g;
  std::string ctx = fmt( "case %d seed %lld %s nsp=%d tpp=%d", cs, (long long)opt_seed, b.str().c_str(), nsp, N_PIPELINE );
  int nx = g->nx, ny = g->ny, nz = g->nz;
  // --- interpolator coefficients
  for( int v = 0; v < g->nv; v++ ) { float *f = &w.fa->f[v].ex; for( int k = 0; k < 16; k++ ) f[k] = (float)lr.u( -1, 1 ); }
  std::vector<field_t> fk( w.fa->f, w.fa->f + g->nv );
  for( int v = 0; v < g->nv; v++ ) for( int k = 0; k < 18; k++ ) ( (float*)&w.ia->i[v] )[k] = 7;
  load_interpolator_array( w.ia, w.fa );
  if( memcmp( &fk[0], w.fa->f, sizeof( field_t ) * g->nv ) ) viol( "fields-written", "loading interpolators changed the fields " + ctx );
  int bad = 0;
  for( int z = 1; z <= nz; z++ ) for( int y = 1; y <= ny; y++ ) for( int x = 1; x <= nx; x++ ) {
    const interpolator_t &f = w.ia->i[ VOXEL( x, y, z, nx, ny, nz ) ];
    // evaluate at the corners of the cell: must give the mesh values
    for( int t = 0; t < 4 && bad < 3; t++ ) for( int a = 0; a < 3; a++ ) {
      int s1 = t & 1, s2 = t >> 1, o1 = ( a + 1 ) % 3, o2 = ( a + 2 ) % 3, q[3] = { x, y, z };
      q[o1] += s1; q[o2] += s2;
      double d[3] = { 0.3, -0.2, 0.7 }, e[3], bb[3]; d[o1] = s1 ? 1 : -1; d[o2] = s2 ? 1 : -1;
      PWorld::interp( f, d, e, bb );
      double want = ( &w.fa->f[ VOXEL( q[0], q[1], q[2], nx, ny, nz ) ].ex )[a];
      if( !close( e[a], want, 2e-6 ) ) { bad++; viol( "interp-e", fmt( "cell (%d,%d,%d): interpolated e%c at edge %d is %.8g, mesh value %.8g %s", x, y, z, "xyz"[a], t, e[a], want, ctx.c_str() ) ); }
      if( t < 2 ) {
        int r[3] = { x, y, z }; r[a] += t; d[a] = t ? 1 : -1;
        PWorld::interp( f, d, e, bb );
        double wb = ( &w.fa->f[ VOXEL( r[0], r[1], r[2], nx, ny, nz ) ].cbx )[a];
        if( !close( bb[a], wb, 2e-6 ) ) { bad++; viol( "interp-b", fmt( "cell (%d,%d,%d): interpolated cb%c at face %d is %.8g, mesh value %.8g %s", x, y, z, "xyz"[a], t, bb[a], wb, ctx.c_str() ) ); }
      }
    }
  }
  count( "interpolators_checked", (int64_t)nx * ny * nz );
  // --- accumulators: clear, reduce, unload
  clear_accumulator_array( w.aa );
  for( int64_t v = 0; v < (int64_t)w.aa->stride * ( w.aa->n_pipeline + 1 ); v++ ) {
    if( v % w.aa->stride >= g->nv ) continue;
    const accumulator_t &a = w.aa->a[v];
    for( int k = 0; k < 4; k++ ) if( a.jx[k] != 0 || a.jy[k] != 0 || a.jz[k] != 0 ) { viol( "accumulator-clear", "clearing left values behind " + ctx ); v = 1ll << 60; break; }
    if( v >= 1ll << 60 ) break;
  }
  std::vector<double> acc( (size_t)g->nv * 12, 0. );
  for( int p = 0; p <= w.aa->n_pipeline; p++ ) for( int z = 1; z <= nz; z++ ) for( int y = 1; y <= ny; y++ ) for( int x = 1; x <= nx; x++ ) {
    int v = VOXEL( x, y, z, nx, ny, nz ); accumulator_t &a = w.aa->a[ (int64_t)w.aa->stride * p + v ];
    for( int k = 0; k < 4; k++ ) {
      a.jx[k] = (float)lr.u( -1, 1 ); a.jy[k] = (float)lr.u( -1, 1 ); a.jz[k] = (float)lr.u( -1, 1 );
      acc[12*v+k] += a.jx[k]; acc[12*v+4+k] += a.jy[k]; acc[12*v+8+k] += a.jz[k];
    }
  }
  reduce_accumulator_array( w.aa );
  bad = 0;
  for( int v = 0; v < g->nv && bad < 3; v++ ) for( int k = 0; k < 12; k++ ) {
    float got = k < 4 ? w.aa->a[v].jx[k] : k < 8 ? w.aa->a[v].jy[k-4] : w.aa->a[v].jz[k-8];
    if( !close( got, acc[12*v+k], 4e-7 * ( 1 + w.aa->n_pipeline ) * ( 1 + w.aa->n_pipeline ) ) ) { bad++; viol( "accumulator-reduce", fmt( "voxel %d component %d: reduced value %.8g, sum over pipelines %.8g %s", v, k, got, acc[12*v+k], ctx.c_str() ) ); break; }
  }
  std::vector<field_t> f0( w.fa->f, w.fa->f + g->nv );
  unload_accumulator_array( w.fa, w.aa );
  bad = 0;
  const double rd[3] = { g->rdx, g->rdy, g->rdz };
  for( int z = 1; z <= nz + 1; z++ ) for( int y = 1; y <= ny + 1; y++ ) for( int x = 1; x <= nx + 1; x++ ) for( int a = 0; a < 3 && bad < 3; a++ ) {
    int o1 = ( a + 1 ) % 3, o2 = ( a + 2 ) % 3, c[3] = { x, y, z }; double sum = 0, mag = 0;
    for( int t = 0; t < 4; t++ ) { // quarter faces of the four cells around the edge
      int q[3] = { x, y, z }; if( t & 1 ) q[o1]--; if( t & 2 ) q[o2]--;
      double t_ = acc[ 12 * (int64_t)VOXEL( q[0], q[1], q[2], nx, ny, nz ) + 4 * a + t ]; sum += t_; mag += fabs( t_ );
    }
    double cf = 0.25 * rd[o1] * rd[o2] / g->dt;
    int v = VOXEL( x, y, z, nx, ny, nz ); double was = ( &f0[v].jfx )[a], got = ( &w.fa->f[v].jfx )[a], want = was + cf * sum;
    if( c[a] <= ( a == 0 ? nx : a == 1 ? ny : nz ) && !close( got, want, 4e-6 * ( fabs( was ) + cf * ( mag + 1 ) * ( 1 + w.aa->n_pipeline ) ) ) ) { bad++; viol( "unload", fmt( "jf%c at (%d,%d,%d) is %.8g, the average of the quarter-face currents gives %.8g %s", "xyz"[a], x, y, z, got, want, ctx.c_str() ) ); }
  }
  for( int v = 0; v < g->nv; v++ ) { // nothing else may change
    field_t s = w.fa->f[v]; s.jfx = f0[v].jfx; s.jfy = f0[v].jfy; s.jfz = f0[v].jfz;
    if( memcmp( &s, &f0[v], sizeof s ) ) { viol( "unload-touched", "unloading changed something other than jf " + ctx ); break; }
  }
  count( "accumulators_checked", 12ll * g->nv );
  // --- moments
  double qmax = 0, tot = 0; int np = 0;
  for( int s = 0; s < nsp; s++ ) {
    static const int counts[] = { 0, 1, 7, 16, 17, 63, 200, 800, 2000 };
    double dr[3] = { 0, rr.chance( 0.3 ) ? rr.u( -3, 3 ) : 0, 0 };
    int n = counts[ rr.i( 0, 8 ) ]; np += n;
    w.load( rr, w.sp[s], n, rr.chance( 0.2 ) ? 0 : rr.u( 0, 1.5 ), dr, rr.chance( 0.3 ), true );
    qmax = std::max( qmax, fabs( (double)w.sp[s]->q ) );
  }
  double ks = 0; for( int s = 0; s < nsp; s++ ) ks = std::max( ks, fabs( w.qdt2mc( w.sp[s] ) ) );
  if( ks == 0 ) ks = 1;
  for( int v = 0; v < g->nv; v++ ) for( int k = 0; k < 18; k++ ) ( (float*)&w.ia->i[v] )[k] *= (float)( 0.4 / ks );
  std::vector<std::vector<particle_t> > keep( nsp );
  for( int s = 0; s < nsp; s++ ) keep[s].assign( w.sp[s]->p, w.sp[s]->p + w.sp[s]->np );
  std::vector<interpolator_t> ik( w.ia->i, w.ia->i + g->nv );
  GlobalNodes gn( w );
  const double V = (double)g->dx * g->dy * g->dz;
  std::vector<double> Q, QA; node_charge( w, gn, Q ); node_charge( w, gn, QA, true );
  w.fa->kernel->clear_rhof( w.fa );
  for( int v = 0; v < g->nv; v++ ) w.fa->f[v].rhob = 0;
  for( int s = 0; s < nsp; s++ ) accumulate_rho_p( w.fa, w.sp[s] );
  w.fa->kernel->synchronize_rho( w.fa );
  std::vector<double> rf; assemble( w, gn, 4, rf );
  bad = 0; double sumQ = 0; bool pec = false;
  for( int z = 0; z < gn.M[2]; z++ ) for( int y = 0; y < gn.M[1]; y++ ) for( int x = 0; x < gn.M[0]; x++ ) {
    int q[3] = { x, y, z }; int64_t k = gn.at( q ); double want = Q[k], h = 1;
    for( int a = 0; a < 3; a++ ) if( !b.per( a ) ) {
      if( q[a] == 0 ) { if( b.fbc[a] == PEC ) want = 0, pec = true; h /= 2; }
      if( q[a] == b.N[a] ) { if( b.fbc[a+3] == PEC ) want = 0, pec = true; h /= 2; }
    }
    sumQ += rf[k] * V * h;
    double tol = 3e-6 * ( qmax + QA[k] ) + 6e-8 * QA[k] * std::min( (double)np, 4 * QA[k] / ( qmax + 1e-30 ) );
    if( world_rank == 0 && bad < 3 && !close( rf[k] * V, want, tol ) ) { bad++; viol( "rho", fmt( "charge at node (%d,%d,%d) is %.8g, the particles give %.8g (tolerance %.2g) %s", x, y, z, rf[k] * V, want, tol, ctx.c_str() ) ); }
  }
  double lq = 0; for( int s = 0; s < nsp; s++ ) for( int k = 0; k < w.sp[s]->np; k++ ) lq += (double)w.sp[s]->q * w.sp[s]->p[k].w;
  MPI_Allreduce( &lq, &tot, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD );
  if( !pec && world_rank == 0 && !close( sumQ, tot, 2e-5 * qmax * ( 1 + np ) ) ) viol( "rho-total", fmt( "node charges sum to %.8g, particles carry %.8g %s", sumQ, tot, ctx.c_str() ) );
  // bound charge of single particles
  for( int v = 0; v < g->nv; v++ ) w.fa->f[v].rhob = 0;
  for( int s = 0; s < nsp; s++ ) for( int k = 0; k < w.sp[s]->np; k++ ) accumulate_rhob( w.fa->f, w.sp[s]->p + k, g, w.sp[s]->q );
  w.fa->kernel->synchronize_rho( w.fa );
  std::vector<double> rb; assemble( w, gn, 3, rb );
  bad = 0;
  for( int z = 0; z < gn.M[2]; z++ ) for( int y = 0; y < gn.M[1]; y++ ) for( int x = 0; x < gn.M[0]; x++ ) {
    int q[3] = { x, y, z }; int64_t k = gn.at( q ); double want = Q[k];
    for( int a = 0; a < 3; a++ ) if( !b.per( a ) && ( ( q[a] == 0 && b.fbc[a] == PEC ) || ( q[a] == b.N[a] && b.fbc[a+3] == PEC ) ) ) want = 0;
    double tol = 3e-6 * ( qmax + QA[k] ) + 6e-8 * QA[k] * std::min( (double)np, 4 * QA[k] / ( qmax + 1e-30 ) );
    if( world_rank == 0 && bad < 3 && !close( rb[k] * V, want, tol ) ) { bad++; viol( "rhob", fmt( "bound charge at node (%d,%d,%d) is %.8g, the particles give %.8g (tolerance %.2g) %s", x, y, z, rb[k] * V, want, tol, ctx.c_str() ) ); }
  }
  count( "nodes_checked", 2 * gn.n );
  // --- hydro and energy, per species
  for( int s = 0; s < nsp; s++ ) {
    species_t *sp = w.sp[s]; double k = w.qdt2mc( sp ), c = g->cvac;
    std::vector<double> H( 14 * gn.n, 0. ), HG( 14 * gn.n, 0. ), A( gn.n, 0. ), AG( gn.n, 0. ); double en = 0, eng = 0, um = 1;
    for( int n = 0; n < sp->np; n++ ) {
      const particle_t &p = sp->p[n]; double d[3] = { p.dx, p.dy, p.dz }, e[3], bb[3], u[3];
      PWorld::interp( w.ia->i[p.i], d, e, bb );
      for( int a = 0; a < 3; a++ ) u[a] = ( &p.ux )[a] + k * e[a];
      double u2 = u[0]*u[0] + u[1]*u[1] + u[2]*u[2], gam = sqrt( 1 + u2 ), ke = u2 / ( gam + 1 );
      en += sp->m * (double)p.w * ke * c * c;
      PWorld::rotate( u, bb, k / 2 );
      double v[3] = { c * u[0] / gam, c * u[1] / gam, c * u[2] / gam }, P[3]; um = std::max( um, sqrt( u2 ) );
      for( int a = 0; a < 3; a++ ) P[a] = sp->m * c * u[a];
      double m[14] = { sp->q * v[0], sp->q * v[1], sp->q * v[2], sp->q, P[0], P[1], P[2], sp->m * c * c * ke, P[0]*v[0], P[1]*v[1], P[2]*v[2], P[1]*v[2], P[2]*v[0], P[0]*v[1] };
      int gc[3]; w.gcell( p.i, gc );
      for( int t = 0; t < 8; t++ ) {
        int q[3]; double wt = (double)p.w / 8;
        for( int a = 0; a < 3; a++ ) { int h = t >> a & 1; q[a] = gc[a] + h; wt *= h ? 1 + d[a] : 1 - d[a]; if( !b.per( a ) && ( q[a] == 0 || q[a] == b.N[a] ) ) wt *= 2; }
        int64_t at = gn.at( q ); for( int j = 0; j < 14; j++ ) H[ 14 * at + j ] += wt * m[j];
        A[at] += wt;
      }
    }
    MPI_Allreduce( &H[0], &HG[0], (int)H.size(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD );
    MPI_Allreduce( &A[0], &AG[0], (int)A.size(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD );
    MPI_Allreduce( &en, &eng, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD );
    MPI_Allreduce( MPI_IN_PLACE, &um, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD );
    double ge = energy_p( sp, w.ia );
    if( !close( ge, eng, 4e-6 * fabs( eng ) + 1e-12 ) ) viol( "energy", fmt( "species energy is %.9g, the particles carry %.9g %s", ge, eng, ctx.c_str() ) );
    for( int64_t v = 0; v < (int64_t)w.ha->stride * ( w.ha->n_pipeline + 1 ); v++ ) { float *h = &w.ha->h[v].jx; for( int j = 0; j < 14; j++ ) h[j] = 99; }
    clear_hydro_array( w.ha );
    accumulate_hydro_p( w.ha, sp, w.ia );
    synchronize_hydro_array( w.ha );
    double sc[14]; for( int j = 0; j < 14; j++ ) sc[j] = j < 3 ? fabs( sp->q ) * c : j == 3 ? fabs( sp->q ) : j < 7 ? sp->m * c * um : sp->m * c * c * um;
    static const char *hn[] = { "jx","jy","jz","rho","px","py","pz","ke","txx","tyy","tzz","tyz","tzx","txy" };
    bad = 0;
    for( int z = 1; z <= nz + 1; z++ ) for( int y = 1; y <= ny + 1; y++ ) for( int x = 1; x <= nx + 1; x++ ) {
      const float *h = &w.ha->h[ VOXEL( x, y, z, nx, ny, nz ) ].jx; int q[3] = { x - 1 + b.o[0], y - 1 + b.o[1], z - 1 + b.o[2] }; int64_t at = gn.at( q );
      for( int j = 0; j < 14 && bad < 3; j++ ) {
        double tol = sc[j] * ( 8e-6 * AG[at] + 1e-6 );
        if( !close( h[j] * V, HG[14*at+j], tol ) ) { bad++; viol( "hydro", fmt( "species %d hydro %s at local node (%d,%d,%d) times the cell volume is %.8g, the particles give %.8g (tolerance %.2g) %s", s, hn[j], x, y, z, h[j] * V, HG[14*at+j], tol, ctx.c_str() ) ); }
      }
    }
    count( "hydro_values_compared", 14 * gn.n );
    if( sp->np != (int)keep[s].size() || ( sp->np && memcmp( sp->p, &keep[s][0], sizeof( particle_t ) * sp->np ) ) ) viol( "moments-wrote-particles", "computing moments changed particles " + ctx );
  }
  if( memcmp( &ik[0], w.ia->i, sizeof( interpolator_t ) * g->nv ) ) viol( "moments-wrote-interpolators", "computing moments changed interpolators " + ctx );
  eval( ctx ); sample( fmt( "%s np=%d", ctx.c_str(), np ), 2 );
  w.destroy();
}

#endif

int main( int argc, char **argv ) {
  boot_services( &argc, &argv );
  parse( argc, argv );
  for( int k = 0; k < opt_cases; k++ ) {
    cur_case = opt_first + k; each_case( k );
    if( opt_mode == "step" ) run_step( cur_case );
    else if( opt_mode == "sort" ) run_sort( cur_case );
    else if( opt_mode == "center" ) run_center( cur_case );
#ifndef RV_NO_MOMENTS
    else if( opt_mode == "moments" ) run_moments( cur_case );
#endif
  }
  mp_barrier();
  if( world_rank == 0 ) done();
  mp_barrier();
  halt_services();
  return 0;
}
