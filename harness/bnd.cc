// Custom particle boundaries and emitters, watched from outside.
#include "rv_cont.h"
using namespace rv;

// ---- distribution of what the models draw, over the whole run
struct Hist {
  std::vector<int64_t> n; int64_t tot;
  Hist( int k = 16 ) : n( k, 0 ), tot( 0 ) {}
  void add( int k ) { if( k < 0 ) k = 0; if( k >= (int)n.size() ) k = (int)n.size() - 1; n[k]++; tot++; }
  void addu( double u ) { add( (int)( u * n.size() ) ); }
  void test( const char *what ) {
    if( tot < 20 * (int64_t)n.size() ) return;
    double c = 0, e = (double)tot / n.size(); for( size_t k = 0; k < n.size(); k++ ) c += ( n[k] - e ) * ( n[k] - e ) / e;
    double dof = n.size() - 1., lim = dof + 7 * sqrt( 2 * dof ) + 25;
    count( "distribution_tests" );
    if( c > lim ) { std::string s; for( size_t k = 0; k < n.size(); k++ ) s += fmt( " %lld", (long long)n[k] ); viol( "distribution", fmt( "%s: chi-square %.1f for %g degrees of freedom over %lld draws:%s", what, c, dof, (long long)tot, s.c_str() ) ); }
  }
};
static double Phi( double x ) { return 0.5 * erfc( -x / sqrt( 2. ) ); }

struct BExp { double id; int s, nalt, amb, chain, stat; Outcome o; double tu, tx, u2, reach; };

static Hist h_para, h_t1, h_t2, h_tt( 16 ), h_pt( 16 ), h_face( 6 );
static std::map<std::vector<float>, int> seen_u;

static void run_pbc( int cs ) {
  Rng rr( mix( mix( opt_seed, 301 ), cs ) );
  static const int fb[] = { SYM, PMC, ABS, ABS, PEC };
  Box b = draw_box( rr, std::vector<int>( fb, fb + 5 ), rr.chance( 0.2 ) ? 2000 : 500, 0.25, true, 1 );
  bool anyopen = false; for( int f = 0; f < 6; f++ ) if( b.fbc[f] ) anyopen = true;
  PWorld w; std::vector<int> acts, kind;
  int nb = rr.chance( 0.05 ) ? 32 : rr.i( 1, 4 ); // objects, in order of id
  bool onlytally = rr.chance( 0.3 ), onlyreflux = !onlytally && rr.chance( 0.4 );
  for( int k = 0; k < nb; k++ ) { kind.push_back( onlytally ? 0 : onlyreflux ? 1 : rr.i( 0, 1 ) ); acts.push_back( -3 - k ); acts.push_back( -3 - k ); }
  bool absorbs = rr.chance( 0.25 ); if( absorbs ) acts.push_back( absorb_particles );
  if( rr.chance( 0.4 ) ) acts.push_back( reflect_particles );
  int nsp = rr.i( 1, 4 ); bool walls = !anyopen || rr.chance( 0.15 );
  if( walls ) w.wallacts = acts;
  w.build( rr, b, nsp, acts, walls ? rr.u( 0.02, 0.2 ) : 0 );
  w.apply_pbc();
  rng_pool_t *rp = new_rng_pool( rr.i( 1, 3 ), rr.i( 0, 100000 ), 0 );
  std::vector<particle_bc_t*> obj; std::vector<std::vector<double> > up( nb, std::vector<double>( nsp ) ), uq = up;
  for( int k = 0; k < nb; k++ ) {
    particle_bc_t *o = append_particle_bc( kind[k] ? maxwellian_reflux( w.sl, rp ) : absorb_tally( w.sl, w.fa ), &w.pbl );
    obj.push_back( o );
    if( get_particle_bc_id( o ) != -3 - k ) viol( "id", fmt( "boundary %d of the list has id %lld", k, (long long)get_particle_bc_id( o ) ) );
    if( kind[k] ) for( int s = 0; s < nsp; s++ ) {
      up[k][s] = (float)( rr.chance( 0.3 ) ? 0.02 : exp( rr.u( -5, 0.7 ) ) ); uq[k][s] = rr.chance( 0.1 ) ? 0 : rr.chance( 0.3 ) ? up[k][s] : (float)exp( rr.u( -5, 0.7 ) );
      set_reflux_temp( o, w.sp[s], (float)up[k][s], (float)uq[k][s] );
    }
  }
  double qmax = 0; int total = 0;
  static const int counts[] = { 0, 1, 3, 17, 100, 400, 1000, 2000 };
  bool tight = rr.chance( 0.5 );
  for( int s = 0; s < nsp; s++ ) {
    double dr[3]; for( int a = 0; a < 3; a++ ) dr[a] = rr.chance( 0.3 ) ? rr.u( -3, 3 ) : 0;
    static const double Ts[] = { 0.1, 0.5, 2, 5 };
    int n = counts[ rr.i( 0, 7 ) ]; if( s == 0 && n < 100 ) n = 500;
    w.load( rr, w.sp[s], n, Ts[ rr.i( 0, 3 ) ], dr, rr.chance( 0.2 ), tight );
    total += n; qmax = std::max( qmax, fabs( (double)w.sp[s]->q ) );
  }
  std::string kd; for( int k = 0; k < nb && k < 8; k++ ) kd += kind[k] ? "R" : "T";
  std::string ctx0 = fmt( "case %d seed %lld %s models=%s pbc=%d,%d,%d,%d,%d,%d walls=%.2g nsp=%d np=%d", cs, (long long)opt_seed, b.str().c_str(), kd.c_str(), w.pbc[0], w.pbc[1], w.pbc[2], w.pbc[3], w.pbc[4], w.pbc[5], w.wallp, nsp, total );
  for( int v = 0; v < w.g->nv; v++ ) memset( &w.ia->i[v], 0, sizeof( interpolator_t ) );
  GlobalNodes gn( w ); std::vector<double> rb0, rb1, Q0, Q1;
  w.fa->kernel->synchronize_rho( w.fa ); assemble( w, gn, 3, rb0 ); node_charge( w, gn, Q0 );
  std::vector<GPart> pre, post; w.collect( pre, ctx0 );
  int steps = rr.i( 1, 5 ); int64_t ntally = 0, nreflux = 0, nchain = 0, namb = 0;
  for( int st = 0; st < steps; st++ ) {
    std::string ctx = ctx0 + fmt( " step %d", st );
    std::vector<double> near( w.gcells(), 0. ), nearG( w.gcells() );
    std::vector<BExp> mine, ex; std::vector<int> seen;
    for( int s = 0; s < nsp; s++ ) for( int n = 0; n < w.sp[s]->np; n++ ) {
      particle_t &p = w.sp[s]->p[n];
      BExp e; memset( &e, 0, sizeof e );
      double u[3], dsp[3], sc; w.push( w.sp[s], p, u, dsp, sc );
      int c[3]; w.gcell( p.i, c ); double d[3] = { p.dx, p.dy, p.dz };
      e.id = s * 1e6 + w2id( p.w ); e.s = s;
      double cd = (double)w.g->cvac * w.g->dt * std::max( w.g->rdx, std::max( w.g->rdy, w.g->rdz ) );
      e.tu = 6e-6 * sc + 1e-7; e.tx = 3e-6 * ( 1 + fabs( dsp[0] ) + fabs( dsp[1] ) + fabs( dsp[2] ) ) + 2 * cd * 6e-6 * std::min( 1., sc );
      e.o = w.walk( c, d, u, dsp, 0, NULL );
      near[ w.cellid( c ) ] += 1; near[ w.cellid( e.o.c ) ] += 1;
      for( int t = 0; t < 16 && !e.amb; t++ ) {
        double pd[3], ps[3], del = t & 8 ? 2 * e.tx : 0.3 * e.tx;
        for( int a = 0; a < 3; a++ ) { double sg = t >> a & 1 ? 1 : -1; pd[a] = std::max( -1., std::min( 1., d[a] + sg * del ) ); ps[a] = dsp[a] + sg * del; }
        Outcome o = w.walk( c, pd, u, ps, 0, NULL );
        if( o.status != e.o.status || o.bc != e.o.bc || ( o.status == 2 && o.face != e.o.face ) || o.nrefl != e.o.nrefl ) e.amb = 1;
      }
      if( e.o.status == 2 && kind[ -e.o.bc - 3 ] ) { // how far it may still go
        double g2 = 1 + u[0]*u[0] + u[1]*u[1] + u[2]*u[2], v = sqrt( ( g2 - 1 ) / g2 ), L = 0;
        const double dd[3] = { w.g->dx, w.g->dy, w.g->dz };
        for( int a = 0; a < 3; a++ ) L += e.o.rem[a] * dd[a] * e.o.rem[a] * dd[a];
        L = sqrt( L );
        double go = v > 1e-6 ? L / v : 1e30; // at the speed of light
        e.u2 = g2 - 1; e.reach = L;
        if( walls ) e.chain = 1;
        for( int f = 0; f < 6; f++ ) if( w.pbc[f] && f != e.o.face ) {
          int a = f % 3; double X = e.o.c[a] + 0.5 * ( 1 + e.o.d[a] ), dist = f < 3 ? X : b.N[a] - X;
          if( dist < go / dd[a] + 1e-3 ) e.chain = 1;
        }
      }
      mine.push_back( e );
    }
    MPI_Allreduce( &near[0], &nearG[0], (int)near.size(), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD );
    gather( mine, ex );
    std::vector<double> t0( nb * nsp, 0. ), t1 = t0, tg( nb * nsp );
    for( int k = 0; k < nb; k++ ) if( !kind[k] ) for( int s = 0; s < nsp; s++ ) t0[k*nsp+s] = get_absorb_tally( obj[k] )[ w.sp[s]->id ];
    clear_accumulator_array( w.aa ); w.fa->kernel->clear_jf( w.fa );
    for( int s = 0; s < nsp; s++ ) w.movers( w.sp[s], w.sp[s]->np );
    species_t *q; LIST_FOR_EACH( q, w.sl ) advance_p( q, w.aa, w.ia );
    reduce_accumulator_array( w.aa );
    int rounds = 0;
    for( int left = 1; left && rounds < 400; rounds++ ) {
      boundary_p( w.pbl, w.sl, w.fa, w.aa );
      int l = 0; LIST_FOR_EACH( q, w.sl ) l += q->nm;
      MPI_Allreduce( &l, &left, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD );
    }
    if( rounds >= 400 ) viol( "unfinished-move", "moves are still unfinished after 400 rounds " + ctx );
    for( int k = 0; k < nb; k++ ) if( !kind[k] ) for( int s = 0; s < nsp; s++ ) t1[k*nsp+s] = get_absorb_tally( obj[k] )[ w.sp[s]->id ] - t0[k*nsp+s];
    MPI_Allreduce( &t1[0], &tg[0], nb * nsp, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD );
    w.collect( post, ctx );
    if( world_rank == 0 ) {
      std::map<double,GPart> at;
      for( size_t k = 0; k < post.size(); k++ ) {
        if( at.count( post[k].id ) ) viol( "duplicated", fmt( "particle %g is present more than once %s", post[k].id, ctx.c_str() ) );
        at[ post[k].id ] = post[k];
      }
      std::vector<double> want( nb * nsp, 0. ), slack( nsp, 0. ), lost( nsp, 0. ), absorbed( nsp, 0. );
      for( size_t k = 0; k < ex.size(); k++ ) {
        BExp &e = ex[k]; bool here = at.count( e.id ) > 0;
        GPart p; if( here ) { p = at[ e.id ]; at.erase( e.id ); } else lost[e.s]++;
        if( e.amb ) { namb++; slack[e.s]++; continue; }
        if( e.o.status == 1 ) { absorbed[e.s]++; if( here ) viol( "not-absorbed", fmt( "particle %g met an absorbing boundary and is still there %s", e.id, ctx.c_str() ) ); continue; }
        if( e.o.status == 0 ) {
          if( !here ) { viol( "lost", fmt( "particle %g met no boundary that takes particles and is nowhere %s", e.id, ctx.c_str() ) ); continue; }
          int c[3] = { (int)p.c[0], (int)p.c[1], (int)p.c[2] }; double du = 0;
          for( int a = 0; a < 3; a++ ) du = std::max( du, std::isfinite( p.u[a] ) ? fabs( p.u[a] - e.o.u[a] ) : 1e30 );
          if( du > e.tu || w.sepw( e.o, c, p.d ) > 10 * e.tx ) viol( "other-particle", fmt( "particle %g that met no model (%d reflections): momentum off by %.3g (tolerance %.2g), position by %.3g (%.2g) %s", e.id, e.o.nrefl, du, e.tu, w.sepw( e.o, c, p.d ), 10 * e.tx, ctx.c_str() ) );
          continue;
        }
        int m = -e.o.bc - 3;
        if( !kind[m] ) { want[ m*nsp+e.s ]++; ntally++; if( here ) viol( "not-removed", fmt( "particle %g met tally %d and is still there %s", e.id, m, ctx.c_str() ) ); continue; }
        nreflux++;
        if( e.chain ) { slack[e.s]++; nchain++; if( here ) { bool same = true; for( int a = 0; a < 3; a++ ) if( fabs( p.u[a] - e.o.u[a] ) > e.tu ) same = false; if( same && e.tu < 1e-3 ) viol( "reflux", fmt( "particle %g met reflux %d with its momentum unchanged %s", e.id, m, ctx.c_str() ) ); } continue; }
        if( !here ) { viol( "lost", fmt( "particle %g met reflux boundary %d and is nowhere %s", e.id, m, ctx.c_str() ) ); continue; }
        int a = e.o.face % 3, in = e.o.face < 3 ? 1 : -1; double n = in * p.u[a], s1 = p.u[ ( a + 1 ) % 3 ], s2 = p.u[ ( a + 2 ) % 3 ];
        if( !( n >= 0 ) ) { viol( "outward", fmt( "particle %g left reflux face %d with momentum (%g,%g,%g), outward %s", e.id, e.o.face, p.u[0], p.u[1], p.u[2], ctx.c_str() ) ); continue; }
        // where its new momentum takes it in what is left of the step
        double g2 = 1 + p.u[0]*p.u[0] + p.u[1]*p.u[1] + p.u[2]*p.u[2], ratio = sqrt( ( 1 + e.u2 ) / ( g2 * e.u2 ) ) * e.reach, dsp[3];
        const double rd[3] = { w.g->rdx, w.g->rdy, w.g->rdz };
        for( int t = 0; t < 3; t++ ) dsp[t] = p.u[t] * ratio * rd[t];
        int c0[3] = { e.o.c[0], e.o.c[1], e.o.c[2] }, c1[3] = { (int)p.c[0], (int)p.c[1], (int)p.c[2] };
        int keep = w.pbc[ e.o.face ]; w.pbc[ e.o.face ] = 0; // the walk starts on that face
        Outcome o = w.walk( c0, e.o.d, p.u, dsp, 0, NULL );
        w.pbc[ e.o.face ] = keep;
        double vn = fabs( e.o.u[a] ) / sqrt( 1 + e.u2 ), v1 = sqrt( ( g2 - 1 ) / g2 ), tol = 10 * e.tx * ( 1 + ( v1 + 0.1 ) / ( vn + 1e-12 ) );
        if( vn > 1e-4 && w.sepw( o, c1, p.d ) > tol ) viol( "reflux-position", fmt( "particle %g met face %d at cell (%d,%d,%d) offset (%.6g,%.6g,%.6g) and left with (%g,%g,%g); it should be in cell (%d,%d,%d) offset (%.6g,%.6g,%.6g), is in (%d,%d,%d) offset (%.6g,%.6g,%.6g), tolerance %.2g %s",
          e.id, e.o.face, c0[0], c0[1], c0[2], e.o.d[0], e.o.d[1], e.o.d[2], p.u[0], p.u[1], p.u[2], o.c[0], o.c[1], o.c[2], o.d[0], o.d[1], o.d[2], c1[0], c1[1], c1[2], p.d[0], p.d[1], p.d[2], tol, ctx.c_str() ) );
        count( "reflux_positions" );
        double U = 1 - exp( -0.5 * n * n / ( up[m][e.s] * up[m][e.s] ) );
        h_para.addu( U ); h_face.add( e.o.face );
        if( uq[m][e.s] > 0 ) {
          double a1 = Phi( s1 / uq[m][e.s] ), a2 = Phi( s2 / uq[m][e.s] );
          h_t1.addu( a1 ); h_t2.addu( a2 ); h_tt.add( std::min( 3, (int)( a1 * 4 ) ) * 4 + std::min( 3, (int)( a2 * 4 ) ) ); h_pt.add( std::min( 3, (int)( U * 4 ) ) * 4 + std::min( 3, (int)( a1 * 4 ) ) );
          std::vector<float> key; for( int t = 0; t < 3; t++ ) key.push_back( (float)( fabs( p.u[t] ) / ( t == a ? up[m][e.s] : uq[m][e.s] ) ) );
          (void)key;
        } else if( s1 != 0 || s2 != 0 ) viol( "distribution", fmt( "tangential momentum %g,%g from a boundary of zero perpendicular temperature %s", s1, s2, ctx.c_str() ) );
      }
      for( std::map<double,GPart>::iterator i = at.begin(); i != at.end(); ++i ) viol( "appeared", fmt( "particle %g appeared from nowhere %s", i->first, ctx.c_str() ) );
      for( int s = 0; s < nsp; s++ ) {
        double got = 0, wt = 0;
        for( int k = 0; k < nb; k++ ) {
          double x = tg[k*nsp+s]; got += x; wt += want[k*nsp+s];
          if( x < want[k*nsp+s] || x > want[k*nsp+s] + slack[s] ) viol( "tally", fmt( "boundary %d (%s) counted %g of species %d, %g to %g arrived %s", k, kind[k] ? "reflux" : "tally", x, s, want[k*nsp+s], want[k*nsp+s] + slack[s], ctx.c_str() ) );
        }
        if( !absorbs && got != lost[s] ) viol( "tally", fmt( "%g particles of species %d are gone and %g were counted %s", lost[s], s, got, ctx.c_str() ) );
        if( absorbs && ( got + absorbed[s] > lost[s] + slack[s] || got > lost[s] ) ) viol( "tally", fmt( "%g particles of species %d are gone, %g were counted and %g absorbed %s", lost[s], s, got, absorbed[s], ctx.c_str() ) );
        count( "tallies_compared", nb );
      }
    }
    pre = post;
    unload_accumulator_array( w.fa, w.aa ); w.fa->kernel->synchronize_jf( w.fa );
    for( int v = 0; v < w.g->nv; v++ ) w.fa->f[v].rhof = 0;
    w.fa->kernel->synchronize_rho( w.fa );
    assemble( w, gn, 3, rb1 ); node_charge( w, gn, Q1 );
    for( size_t k = 0; k < nearG.size(); k++ ) nearG[k] += 0.02 * nreflux; // refluxed streaks end elsewhere
    continuity( w, gn, Q0, rb0, Q1, rb1, nearG, qmax, ctx );
    count( "nodes_checked", gn.n );
    Q0 = Q1; rb0 = rb1; count( "steps" );
  }
  count( "tallied", ntally ); count( "refluxed", nreflux ); count( "possible_chains", nchain ); count( "ambiguous", namb );
  eval( ctx0 ); if( world_rank == 0 ) sample( fmt( "%s: tallied %lld refluxed %lld", ctx0.c_str(), (long long)ntally, (long long)nreflux ), 2 );
  w.destroy(); delete_rng_pool( rp );
}

// ---- emission
static Hist e_para, e_t1, e_t2, e_age, e_s1, e_s2, e_tt( 16 ), e_ss( 16 );

struct Face { int rank, cell[3], face, em; double w, lo, hi; int n; };

static void run_emit( int cs ) {
  Rng rr( mix( mix( opt_seed, 302 ), cs ) );
  static const int fb[] = { SYM, PMC, ABS, PEC };
  Box b = draw_box( rr, std::vector<int>( fb, fb + 4 ), rr.chance( 0.2 ) ? 2000 : 400, 0.45, true, 1 );
  PWorld w; std::vector<int> acts; acts.push_back( reflect_particles ); if( rr.chance( 0.3 ) ) acts.push_back( absorb_particles );
  int nsp = rr.i( 1, 3 );
  w.build( rr, b, nsp, acts, 0 ); w.apply_pbc();
  species_t *sp = w.sp[ rr.i( 0, nsp - 1 ) ];
  if( sp->q == 0 ) sp->q = -1;
  rng_pool_t *rp = new_rng_pool( rr.i( 1, 3 ), rr.i( 0, 100000 ), 0 );
  Rng lr( mix( rr.next(), world_rank ) );
  int ne = rr.i( 1, 2 ); emitter_t *el = NULL; std::vector<Face> mine, all;
  // fields whose sizes tell the faces apart
  for( int v = 0; v < w.g->nv; v++ ) { memset( &w.ia->i[v], 0, sizeof( interpolator_t ) ); float *e[3] = { &w.ia->i[v].ex, &w.ia->i[v].ey, &w.ia->i[v].ez }; for( int a = 0; a < 3; a++ ) *e[a] = (float)( ( lr.chance( 0.5 ) ? 1 : -1 ) * ( lr.chance( 0.05 ) ? 0 : exp( lr.u( -3, 3 ) ) ) ); }
  int storage = 0;
  std::vector<int> npf( ne ); std::vector<double> th( ne ), nrm( ne ), upa( ne ), upe( ne );
  const double dd[3] = { w.g->dx, w.g->dy, w.g->dz };
  std::string ctx0 = fmt( "case %d seed %lld %s pbc=%d,%d,%d,%d,%d,%d", cs, (long long)opt_seed, b.str().c_str(), w.pbc[0], w.pbc[1], w.pbc[2], w.pbc[3], w.pbc[4], w.pbc[5] );
  for( int k = 0; k < ne; k++ ) {
    npf[k] = rr.chance( 0.3 ) ? 1 : rr.i( 1, 12 ); th[k] = rr.chance( 0.3 ) ? 0 : (float)exp( rr.u( -2, 2 ) ); nrm[k] = (float)( rr.chance( 0.5 ) ? CHILD_LANGMUIR : rr.chance( 0.5 ) ? CCUBE : rr.u( 0.1, 4 ) );
    double T = exp( rr.u( -5, 0.3 ) ); upa[k] = upe[k] = (float)T; // the two are alike but for the last case
    if( rr.chance( 0.3 ) ) upe[k] = upa[k] = 0.01f;
    emitter_t *e = append_emitter( child_langmuir( sp, w.ia, w.fa, w.aa, rp, npf[k], (float)upa[k], (float)upe[k], (float)th[k], (float)nrm[k] ), &el );
    // any set of components: faces of chosen cells, and edges, corners and bodies that must stay quiet
    std::vector<int> comp; double dens = rr.chance( 0.3 ) ? 0.02 : rr.u( 0.02, 0.5 );
    for( int z = 1; z <= w.g->nz; z++ ) for( int y = 1; y <= w.g->ny; y++ ) for( int x = 1; x <= w.g->nx; x++ ) for( int c = 0; c < 27; c++ ) if( lr.chance( dens ) ) comp.push_back( COMPONENT_ID( VOXEL( x, y, z, w.g->nx, w.g->ny, w.g->nz ), c ) );
    for( size_t i = comp.size(); i > 1; i-- ) std::swap( comp[i-1], comp[ lr.i( 0, (int)i - 1 ) ] );
    int32_t *cp = size_emitter( e, (int)comp.size() ); for( size_t i = 0; i < comp.size(); i++ ) cp[i] = comp[i];
    for( size_t i = 0; i < comp.size(); i++ ) for( int f = 0; f < 6; f++ ) if( EXTRACT_COMPONENT_TYPE( comp[i] ) == fbound[f] ) {
      Face F; F.rank = world_rank; F.face = f; F.em = k; w.gcell( EXTRACT_LOCAL_CELL( comp[i] ), F.cell );
      const interpolator_t &I = w.ia->i[ EXTRACT_LOCAL_CELL( comp[i] ) ]; double E = f % 3 == 0 ? I.ex : f % 3 == 1 ? I.ey : I.ez, drive = ( f < 3 ? 1 : -1 ) * sp->q * E;
      if( !( drive > fabs( sp->q ) * th[k] ) ) continue;
      int a = f % 3; F.n = npf[k];
      // 4/9 eps0 sqrt(2q/m) V^1.5 / L^2 per area and time in place of norm; as a number of particles of charge q
      F.w = nrm[k] * w.g->eps0 * sqrt( fabs( sp->q ) / sp->m ) * pow( fabs( E ) * dd[a], 1.5 ) / ( dd[a] * dd[a] ) * dd[ ( a + 1 ) % 3 ] * dd[ ( a + 2 ) % 3 ] * w.g->dt / fabs( sp->q ) / npf[k];
      mine.push_back( F ); storage += npf[k];
    }
  }
  int n0 = rr.i( 0, 40 ); double z3[3] = { 0, 0, 0 };
  w.load( rr, sp, n0, 0.3, z3, false, false ); n0 = sp->np;
  std::vector<particle_t> old( sp->p, sp->p + n0 );
  w.reserve( sp, sp->np + storage, false ); w.movers( sp, sp->np + storage );
  GlobalNodes gn( w ); std::vector<double> rb0, rb1, Q0, Q1;
  w.fa->kernel->synchronize_rho( w.fa ); assemble( w, gn, 3, rb0 ); node_charge( w, gn, Q0 );
  clear_accumulator_array( w.aa ); w.fa->kernel->clear_jf( w.fa );
  std::vector<int> npo; for( int s = 0; s < nsp; s++ ) npo.push_back( w.sp[s]->np );
  double cap = storage; (void)cap;
  apply_emitter_list( el );
  for( int s = 0; s < nsp; s++ ) if( w.sp[s] != sp && w.sp[s]->np != npo[s] ) viol( "other-species", "a species that is not emitted changed " + ctx0 );
  if( sp->np - n0 != storage ) viol( "emitted-count", fmt( "rank %d: %d particles were emitted from faces that should emit %d %s", world_rank, sp->np - n0, storage, ctx0.c_str() ) );
  reduce_accumulator_array( w.aa );
  species_t *q;
  for( int left = 1, r = 0; left && r < 50; r++ ) { boundary_p( w.pbl, w.sl, w.fa, w.aa ); int l = 0; LIST_FOR_EACH( q, w.sl ) l += q->nm; MPI_Allreduce( &l, &left, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD ); }
  std::vector<GPart> loc, got; // with the weight
  for( int n = 0; n < sp->np; n++ ) { const particle_t &p = sp->p[n]; GPart P; int c[3]; if( !w.interior( p.i ) ) { viol( "outside-domain", "an emitted particle is outside its rank " + ctx0 ); continue; } w.gcell( p.i, c ); P.w = p.w; P.rank = world_rank; for( int a = 0; a < 3; a++ ) { P.c[a] = c[a]; P.d[a] = ( &p.dx )[a]; P.u[a] = ( &p.ux )[a]; } P.id = 0;
    for( size_t k = 0; k < old.size() && P.id == 0; k++ ) if( old[k].ux == p.ux && old[k].uy == p.uy && old[k].uz == p.uz && old[k].w == p.w ) P.id = 1;
    if( !P.id ) loc.push_back( P ); }
  gather( loc, got ); gather( mine, all );
  double nearest = 0; std::vector<double> near( w.gcells(), 0. );
  double wmax = 0; for( size_t k = 0; k < all.size(); k++ ) wmax = std::max( wmax, all[k].w );
  if( world_rank == 0 ) {
    std::multimap<double,int> by; for( size_t k = 0; k < all.size(); k++ ) by.insert( std::make_pair( all[k].w, (int)k ) );
    std::vector<int> have( all.size(), 0 ); std::map<int,std::vector<int> > cand;
    for( size_t n = 0; n < got.size(); n++ ) {
      GPart &p = got[n]; int hit = -1, many = 0;
      for( std::multimap<double,int>::iterator i = by.lower_bound( p.w * ( 1 - 4e-6 ) ); i != by.end() && i->first <= p.w * ( 1 + 4e-6 ); ++i ) { hit = i->second; many++; }
      if( !many ) { viol( "weight", fmt( "an emitted particle of weight %.9g at cell (%g,%g,%g) has the share of no emitting face %s", p.w, p.c[0], p.c[1], p.c[2], ctx0.c_str() ) ); continue; }
      if( many > 1 ) { count( "ambiguous" ); for( std::multimap<double,int>::iterator i = by.lower_bound( p.w * ( 1 - 4e-6 ) ); i != by.end() && i->first <= p.w * ( 1 + 4e-6 ); ++i ) have[ i->second ] = -1000000; continue; }
      have[hit]++;
      Face &F = all[hit]; int a = F.face % 3, in = F.face < 3 ? 1 : -1;
      // a straight flight from the face, if nothing reflected it
      double g = sqrt( 1 + p.u[0]*p.u[0] + p.u[1]*p.u[1] + p.u[2]*p.u[2] ); bool clear = true; double cdt = (double)w.g->cvac * w.g->dt;
      for( int f = 0; f < 6; f++ ) if( w.pbc[f] && f != F.face ) { int x = f % 3; double dist = f < 3 ? F.cell[x] : b.N[x] - 1 - F.cell[x]; if( x == a ) dist += 1; if( dist < cdt / dd[x] ) clear = false; }
      if( w.pbc[F.face] == 0 || F.cell[a] != ( F.face < 3 ? 0 : b.N[a] - 1 ) ) {} // emitted inside the box: may come back around through a periodic side
      if( !clear ) { count( "near_walls" ); continue; }
      double un = in * p.u[a];
      if( !( un >= 0 ) ) { viol( "outward", fmt( "a particle emitted from face %d of cell (%d,%d,%d) moves outward: (%g,%g,%g) %s", F.face, F.cell[0], F.cell[1], F.cell[2], p.u[0], p.u[1], p.u[2], ctx0.c_str() ) ); continue; }
      e_para.addu( 1 - exp( -0.5 * un * un / ( upa[F.em] * upa[F.em] ) ) );
      double D[3]; for( int x = 0; x < 3; x++ ) { D[x] = p.c[x] + 0.5 * ( 1 + p.d[x] ) - F.cell[x]; if( b.per( x ) ) { double e = x == a ? ( in > 0 ? 0.5 : 0.5 ) : 0.5; D[x] -= b.N[x] * floor( ( D[x] - e ) / b.N[x] + 0.5 ); } }
      if( b.per( a ) && cdt / dd[a] > 0.5 * b.N[a] - 1 ) { count( "wrapped" ); continue; }
      bool far = false; for( int x = 0; x < 3; x++ ) if( b.per( x ) && cdt / dd[x] > 0.5 * b.N[x] - 1 ) far = true;
      double fl = in > 0 ? D[a] : 1 - D[a], vn = un / g * cdt / dd[a], eps = 4e-6 * ( 1 + b.N[a] );
      if( fl < -eps || fl > vn * ( 1 + 1e-5 ) + eps ) { viol( "start", fmt( "a particle emitted from face %d of cell (%d,%d,%d) is %.7g cells from it; with momentum (%g,%g,%g) it can have flown up to %.7g %s", F.face, F.cell[0], F.cell[1], F.cell[2], fl, p.u[0], p.u[1], p.u[2], vn, ctx0.c_str() ) ); continue; }
      if( vn < 3e-4 || far ) continue;
      double age = fl / vn, s[2]; bool okk = true;
      for( int t = 0; t < 2; t++ ) { int x = ( a + 1 + t ) % 3; s[t] = D[x] - p.u[x] / g * cdt / dd[x] * age; double tol = 1e-5 + 1e-5 * fabs( p.u[x] / g * cdt / dd[x] ) / vn; if( s[t] < -tol || s[t] > 1 + tol ) { okk = false; viol( "start", fmt( "a particle emitted from face %d of cell (%d,%d,%d) started %.6g,%.6g along the face, outside it %s", F.face, F.cell[0], F.cell[1], F.cell[2], s[0], s[t], ctx0.c_str() ) ); } }
      count( "flights_traced" );
      if( okk && vn > 3e-3 ) { e_age.addu( age ); e_s1.addu( s[0] ); e_s2.addu( s[1] ); e_ss.add( std::max( 0, std::min( 3, (int)( s[0] * 4 ) ) ) * 4 + std::max( 0, std::min( 3, (int)( s[1] * 4 ) ) ) ); }
      if( far ) continue;
      double a1 = Phi( p.u[ ( a + 1 ) % 3 ] / upe[F.em] ), a2 = Phi( p.u[ ( a + 2 ) % 3 ] / upe[F.em] );
      (void)nearest; e_t1.addu( a1 ); e_t2.addu( a2 ); e_tt.add( std::min( 3, (int)( a1 * 4 ) ) * 4 + std::min( 3, (int)( a2 * 4 ) ) );
    }
    bool absorbing = false; for( int f = 0; f < 6; f++ ) if( w.pbc[f] == absorb_particles ) absorbing = true;
    for( size_t k = 0; k < all.size(); k++ ) {
      if( have[k] >= 0 && ( absorbing ? have[k] > all[k].n : have[k] != all[k].n ) ) viol( "share", fmt( "face %d of cell (%d,%d,%d) should emit %d particles of weight %.9g each; %d carry it %s", all[k].face, all[k].cell[0], all[k].cell[1], all[k].cell[2], all[k].n, all[k].w, have[k], ctx0.c_str() ) );
      count( "faces_emitting" ); count( "emitted", all[k].n );
    }
  }
  // momenta at the face, before any wall could turn them: the normal part over all
  for( size_t n = 0; n < got.size(); n++ ) { int c[3] = { (int)got[n].c[0], (int)got[n].c[1], (int)got[n].c[2] }; near[ w.cellid( c ) ] += 2; }
  for( size_t k = 0; k < all.size(); k++ ) near[ w.cellid( all[k].cell ) ] += 2 * all[k].n;
  for( size_t k = 0; k < near.size(); k++ ) near[k] += 0.3 * got.size();
  unload_accumulator_array( w.fa, w.aa ); w.fa->kernel->synchronize_jf( w.fa );
  for( int v = 0; v < w.g->nv; v++ ) w.fa->f[v].rhof = 0;
  w.fa->kernel->synchronize_rho( w.fa );
  assemble( w, gn, 3, rb1 ); node_charge( w, gn, Q1 );
  continuity( w, gn, Q0, rb0, Q1, rb1, near, fabs( sp->q ) * std::max( wmax, 1. ), ctx0 );
  count( "nodes_checked", gn.n );
  eval( ctx0 + fmt( " %d %d", (int)all.size(), (int)got.size() ) ); if( world_rank == 0 ) sample( fmt( "%s: %d faces emitted %d particles", ctx0.c_str(), (int)all.size(), (int)got.size() ), 2 );
  delete_emitter_list( el ); w.destroy(); delete_rng_pool( rp );
}

int main( int argc, char **argv ) {
  parse( argc, argv );
  boot_services( &argc, &argv );
  for( cur_case = opt_first; cur_case < opt_first + opt_cases; cur_case++ ) {
    each_case( cur_case - opt_first );
    if( opt_mode == "pbc" ) run_pbc( cur_case ); else run_emit( cur_case );
  }
  if( world_rank == 0 ) {
    h_para.test( "normal momentum of refluxed particles" ); h_t1.test( "first tangential momentum of refluxed particles" ); h_t2.test( "second tangential momentum of refluxed particles" ); h_tt.test( "pairs of tangential momenta of refluxed particles" ); h_pt.test( "normal against tangential momentum of refluxed particles" );
    e_para.test( "normal momentum of emitted particles" ); e_t1.test( "first tangential momentum of emitted particles" ); e_t2.test( "second tangential momentum of emitted particles" ); e_tt.test( "pairs of tangential momenta of emitted particles" ); e_age.test( "ages of emitted particles" ); e_s1.test( "first coordinate on the emitting face" ); e_s2.test( "second coordinate on the emitting face" ); e_ss.test( "pairs of coordinates on the emitting face" );
  }
  done( true );
  halt_services();
  return 0;
}
