// Connectivity of decomposed grids against a geometric model.
#include "rv_part.h"
using namespace rv;

struct Rec { int rank, n[3]; float x0[3], x1[3], d[3], rd[3], dV, r8V; int bc[27]; int64_t rl, rh; int nv, s[3]; };
static const int XP[6] = { 0, 1, 2, 0, 1, 2 };

struct Model { // what this rank expects
  std::vector<int64_t> nb; int bc[27];
};

static Rec describe( const grid_t *g ) {
  Rec r; memset( &r, 0, sizeof r );
  r.rank = world_rank; r.n[0] = g->nx; r.n[1] = g->ny; r.n[2] = g->nz;
  const float *a = &g->x0, *b = &g->x1, *c = &g->dx, *e = &g->rdx;
  for( int k = 0; k < 3; k++ ) { r.x0[k] = a[k]; r.x1[k] = b[k]; r.d[k] = c[k]; r.rd[k] = e[k]; }
  r.dV = g->dV; r.r8V = g->r8V; memcpy( r.bc, g->bc, sizeof r.bc );
  r.rl = g->rangel; r.rh = g->rangeh; r.nv = g->nv; r.s[0] = g->sx; r.s[1] = g->sy; r.s[2] = g->sz;
  return r;
}
static void all_recs( const grid_t *g, std::vector<Rec> &R ) { std::vector<Rec> m( 1, describe( g ) ); gather( m, R ); }

// ownership of the global numbers
static void ranges( const grid_t *g, const std::vector<Rec> &R, const std::string &ctx ) {
  int64_t c = 0;
  if( g->range[0] != 0 ) viol( "ownership", fmt( "global numbers start at %lld %s", (long long)g->range[0], ctx.c_str() ) );
  for( int k = 0; k < world_size; k++ ) {
    int64_t nv = (int64_t)( R[k].n[0] + 2 ) * ( R[k].n[1] + 2 ) * ( R[k].n[2] + 2 );
    if( g->range[k] != c || g->range[k+1] != c + nv || R[k].rl != c || R[k].rh != c + nv - 1 || R[k].nv != nv )
      viol( "ownership", fmt( "rank %d should own global cells %lld to %lld; its table says %lld to %lld, mine %lld to %lld, nv=%d %s", k, (long long)c, (long long)( c + nv - 1 ), (long long)R[k].rl, (long long)R[k].rh, (long long)g->range[k], (long long)g->range[k+1] - 1, R[k].nv, ctx.c_str() ) );
    if( R[k].s[0] != 1 || R[k].s[1] != R[k].n[0] + 2 || R[k].s[2] != ( R[k].n[0] + 2 ) * ( R[k].n[1] + 2 ) )
      viol( "strides", fmt( "rank %d has strides %d %d %d %s", k, R[k].s[0], R[k].s[1], R[k].s[2], ctx.c_str() ) );
    c += nv;
  }
  count( "ranks_checked", world_size );
}

static int64_t gid( const grid_t *g, const std::vector<Rec> &R, int rank, int x, int y, int z ) { return g->range[rank] + x + (int64_t)( R[rank].n[0] + 2 ) * ( y + (int64_t)( R[rank].n[1] + 2 ) * z ); }

// what the grid says against the model, for every cell of this rank
static void compare( const grid_t *g, const Model &m, const std::string &ctx ) {
  int bad = 0;
  for( int v = 0; v < g->nv; v++ ) {
    int x = v % ( g->nx + 2 ), y = v / ( g->nx + 2 ) % ( g->ny + 2 ), z = v / ( ( g->nx + 2 ) * ( g->ny + 2 ) );
    bool in = x >= 1 && x <= g->nx && y >= 1 && y <= g->ny && z >= 1 && z <= g->nz;
    for( int f = 0; f < 6; f++ ) {
      int64_t k = g->neighbor[6*v+f], w = m.nb[6*v+f];
      if( in ? k != w : k >= 0 )
        if( bad++ < 3 ) viol( "neighbour", fmt( "cell (%d,%d,%d) of rank %d, face %d: neighbour is %lld, expected %lld %s", x, y, z, world_rank, f, (long long)k, (long long)w, ctx.c_str() ) );
    }
    if( in ) count( "cells" );
  }
  for( int f = 0; f < 6; f++ ) if( g->bc[ fbound[f] ] != m.bc[ fbound[f] ] )
    viol( "field-boundary", fmt( "rank %d face %d has field boundary %d, expected %d %s", world_rank, f, g->bc[ fbound[f] ], m.bc[ fbound[f] ], ctx.c_str() ) );
  if( g->bc[13] != world_rank ) viol( "field-boundary", fmt( "own slot holds %d %s", g->bc[13], ctx.c_str() ) );
}
// crossing a face and coming back over all ranks
static void closure( const grid_t *g, const std::vector<Rec> &R, const std::string &ctx ) {
  std::vector<int64_t> mine( g->neighbor, g->neighbor + 6 * (int64_t)g->nv ), all;
  gather( mine, all );
  int64_t tot = g->range[world_size]; int bad = 0;
  for( int64_t c = 0; c < tot; c++ ) for( int f = 0; f < 6; f++ ) {
    int64_t n = all[6*c+f];
    if( n < 0 ) continue;
    if( n >= tot ) { if( bad++ < 3 ) viol( "closure", fmt( "cell %lld leads to %lld of %lld %s", (long long)c, (long long)n, (long long)tot, ctx.c_str() ) ); continue; }
    if( all[ 6*n + ( f + 3 ) % 6 ] != c && bad++ < 3 ) viol( "closure", fmt( "cell %lld face %d leads to %lld, whose opposite face leads to %lld %s", (long long)c, f, (long long)n, (long long)all[ 6*n + ( f + 3 ) % 6 ], ctx.c_str() ) );
    count( "crossings" );
  }
}
static void plane( const grid_t *g, std::vector<int64_t> &nb, int f, int64_t (*val)( void *, int, int, int ), void *q ) {
  int lo[3] = { 1, 1, 1 }, hi[3] = { g->nx, g->ny, g->nz }, a = f % 3;
  if( f < 3 ) hi[a] = 1; else lo[a] = hi[a];
  for( int z = lo[2]; z <= hi[2]; z++ ) for( int y = lo[1]; y <= hi[1]; y++ ) for( int x = lo[0]; x <= hi[0]; x++ )
    nb[ 6 * (int64_t)VOXEL( x, y, z, g->nx, g->ny, g->nz ) + f ] = val( q, x, y, z );
}
struct Cst { int64_t k; };
static int64_t vconst( void *q, int, int, int ) { return ( (Cst*)q )->k; }
struct Opp { const grid_t *g; const std::vector<Rec> *R; int rank, f; };
static int64_t vopp( void *q, int x, int y, int z ) { // the touching cell of the other rank
  Opp *o = (Opp*)q; int c[3] = { x, y, z };
  c[ o->f % 3 ] = o->f < 3 ? ( *o->R )[ o->rank ].n[ o->f % 3 ] : 1;
  return gid( o->g, *o->R, o->rank, c[0], c[1], c[2] );
}
static void interior_model( const grid_t *g, Model &m ) {
  m.nb.assign( 6 * (int64_t)g->nv, reflect_particles );
  const int st[3] = { 1, g->nx + 2, ( g->nx + 2 ) * ( g->ny + 2 ) };
  for( int z = 1; z <= g->nz; z++ ) for( int y = 1; y <= g->ny; y++ ) for( int x = 1; x <= g->nx; x++ ) {
    int64_t v = VOXEL( x, y, z, g->nx, g->ny, g->nz );
    int c[3] = { x, y, z }, n[3] = { g->nx, g->ny, g->nz };
    for( int a = 0; a < 3; a++ ) {
      if( c[a] > 1 ) m.nb[6*v+a] = g->range[world_rank] + v - st[a];
      if( c[a] < n[a] ) m.nb[6*v+a+3] = g->range[world_rank] + v + st[a];
    }
  }
  for( int k = 0; k < 27; k++ ) m.bc[k] = pec_fields;
  m.bc[13] = world_rank;
}

static void one_box( Rng &r ) {
  int P[3], N[3], n[3]; double L0[3], L1[3];
  draw_topology( r, P );
  static const int sz[] = { 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 11, 13, 16, 17, 30 };
  do for( int a = 0; a < 3; a++ ) { n[a] = r.chance( 0.02 ) ? r.i( 60, 400 ) : sz[ r.i( 0, 15 ) ]; N[a] = n[a] * P[a]; } while( n[0] * n[1] * n[2] > 20000 );
  for( int a = 0; a < 3; a++ ) {
    L0[a] = r.chance( 0.3 ) ? 0 : r.u( -50, 50 ); if( r.chance( 0.1 ) ) L0[a] *= 1e4;
    L1[a] = L0[a] + N[a] * ( r.chance( 0.3 ) ? 1 : r.u( 0.01, 3 ) ) * ( r.chance( 0.05 ) ? 1e-4 : 1 );
    if( (float)L1[a] == (float)L0[a] || ( L1[a] - L0[a] ) / N[a] < 1e-4 * fabs( L0[a] ) ) L1[a] = L0[a] + N[a];
  }
  int kind = r.i( 0, 2 ), pb = r.i( 0, 3 ) ? -r.i( 1, 2 ) : -r.i( 3, 20 );
  grid_t *g = new_grid();
  if( r.chance( 0.2 ) ) size_grid( g, r.i( 1, 5 ), r.i( 1, 5 ), r.i( 1, 5 ) ); // partitioning again replaces everything
  g->dt = 1; g->cvac = 1; g->eps0 = 1;
  if( kind == 0 ) partition_periodic_box( g, L0[0], L0[1], L0[2], L1[0], L1[1], L1[2], N[0], N[1], N[2], P[0], P[1], P[2] );
  if( kind == 1 ) partition_absorbing_box( g, L0[0], L0[1], L0[2], L1[0], L1[1], L1[2], N[0], N[1], N[2], P[0], P[1], P[2], pb );
  if( kind == 2 ) partition_metal_box( g, L0[0], L0[1], L0[2], L1[0], L1[1], L1[2], N[0], N[1], N[2], P[0], P[1], P[2] );
  std::string ctx = fmt( "case %d seed %lld %s N=%dx%dx%d ranks=%dx%dx%d", cur_case, (long long)opt_seed, kind ? kind == 1 ? "absorbing" : "metal" : "periodic", N[0], N[1], N[2], P[0], P[1], P[2] );
  std::vector<Rec> R; all_recs( g, R );
  ranges( g, R, ctx );
  // place of each rank from its own corners
  std::map<int,int> at; std::vector<int> place( world_size * 3 );
  for( int k = 0; k < world_size; k++ ) {
    int p[3];
    for( int a = 0; a < 3; a++ ) {
      p[a] = (int)floor( ( R[k].x0[a] - L0[a] ) / ( L1[a] - L0[a] ) * P[a] + 0.5 );
      place[3*k+a] = p[a];
      double e0 = L0[a] + ( L1[a] - L0[a] ) * p[a] / P[a], e1 = L0[a] + ( L1[a] - L0[a] ) * ( p[a] + 1 ) / P[a], tol = 1.3e-7 * ( fabs( L0[a] ) + fabs( L1[a] ) );
      if( p[a] < 0 || p[a] >= P[a] || fabs( R[k].x0[a] - e0 ) > tol || fabs( R[k].x1[a] - e1 ) > tol || !( R[k].x1[a] > R[k].x0[a] ) ) viol( "tiling", fmt( "rank %d spans %.9g to %.9g along axis %d, expected %.9g to %.9g %s", k, R[k].x0[a], R[k].x1[a], a, e0, e1, ctx.c_str() ) );
      if( ( p[a] == 0 && R[k].x0[a] != (float)L0[a] ) || ( p[a] == P[a] - 1 && R[k].x1[a] != (float)L1[a] ) ) viol( "tiling", fmt( "rank %d does not end exactly at the box: %.9g to %.9g in %.9g to %.9g %s", k, R[k].x0[a], R[k].x1[a], L0[a], L1[a], ctx.c_str() ) );
      double d = ( L1[a] - L0[a] ) / N[a];
      if( R[k].n[a] != n[a] || !close( R[k].d[a], d, 2e-7 * d ) || !close( R[k].rd[a], 1 / d, 2e-7 / d ) ) viol( "resolution", fmt( "rank %d axis %d: %d cells of %.9g (1/%.9g), expected %d of %.9g %s", k, a, R[k].n[a], R[k].d[a], R[k].rd[a], n[a], d, ctx.c_str() ) );
    }
    double V = 1; for( int a = 0; a < 3; a++ ) V *= ( L1[a] - L0[a] ) / N[a];
    if( !close( R[k].dV, V, 4e-7 * V ) || !close( R[k].r8V, 0.125 / V, 4e-7 / V ) ) viol( "resolution", fmt( "rank %d: dV=%.9g r8V=%.9g, expected %.9g %.9g %s", k, R[k].dV, R[k].r8V, V, 0.125 / V, ctx.c_str() ) );
    int key = p[0] + P[0] * ( p[1] + P[1] * p[2] );
    if( at.count( key ) ) viol( "tiling", fmt( "ranks %d and %d have the same domain %s", k, at[key], ctx.c_str() ) );
    at[key] = k;
  }
  if( (int)at.size() != world_size ) viol( "tiling", fmt( "%d distinct domains for %d ranks %s", (int)at.size(), world_size, ctx.c_str() ) );
  // touching domains agree on the coordinate of the touching face
  for( int k = 0; k < world_size; k++ ) for( int j = 0; j < world_size; j++ ) for( int a = 0; a < 3; a++ ) {
    bool t = true; for( int b = 0; b < 3; b++ ) if( place[3*j+b] != place[3*k+b] + ( a == b ) ) t = false;
    if( t && R[k].x1[a] != R[j].x0[a] ) viol( "tiling", fmt( "rank %d ends at %.9g, its neighbour %d starts at %.9g %s", k, R[k].x1[a], j, R[j].x0[a], ctx.c_str() ) );
  }
  Model m; interior_model( g, m );
  int *me = &place[3*world_rank];
  for( int f = 0; f < 6; f++ ) {
    int a = f % 3, q[3] = { me[0], me[1], me[2] }; q[a] += f < 3 ? -1 : 1;
    bool out = q[a] < 0 || q[a] >= P[a];
    if( out && kind && N[a] > 1 ) {
      Cst c = { kind == 1 ? pb : reflect_particles }; plane( g, m.nb, f, vconst, &c );
      m.bc[ fbound[f] ] = kind == 1 ? absorb_fields : pec_fields;
    } else {
      q[a] = ( q[a] + P[a] ) % P[a];
      int k = q[0] + P[0] * ( q[1] + P[1] * q[2] ); if( !at.count( k ) ) continue;
      Opp o = { g, &R, at[k], f }; plane( g, m.nb, f, vopp, &o );
      m.bc[ fbound[f] ] = at[k];
    }
  }
  compare( g, m, ctx );
  closure( g, R, ctx );
  // a history of overrides, different on each rank
  Rng h( mix( r.next(), world_rank ) ); int nh = h.i( 0, 8 ); std::string hs;
  static const int fb[] = { pec_fields, symmetric_fields, pmc_fields, absorb_fields };
  for( int k = 0; k < nh; k++ ) {
    int f = h.i( 0, 5 ), a = f % 3;
    switch( h.i( 0, 3 ) ) {
    case 0: { int v = h.chance( 0.6 ) ? -h.i( 1, 2 ) : h.chance( 0.8 ) ? -h.i( 3, 34 ) : -h.i( 35, 1 << 20 ); set_pbc( g, fbound[f], v ); Cst c = { v }; plane( g, m.nb, f, vconst, &c ); hs += fmt( " pbc(%d,%d)", f, v ); break; }
    case 1: { int v = fb[ h.i( 0, 3 ) ]; set_fbc( g, fbound[f], v ); m.bc[ fbound[f] ] = v; hs += fmt( " fbc(%d,%d)", f, v ); break; }
    case 2: { int v = h.i( 0, world_size - 1 ); join_grid( g, fbound[f], v ); m.bc[ fbound[f] ] = v; Opp o = { g, &R, v, f }; plane( g, m.nb, f, vopp, &o ); hs += fmt( " join(%d,%d)", f, v ); break; }
    case 3: { int e; do e = h.i( 0, 26 ); while( e == 13 || e == 4 || e == 10 || e == 12 || e == 14 || e == 16 || e == 22 ); // an edge or corner of the mesh: no cell faces
              if( h.chance( 0.5 ) ) { int v = fb[ h.i( 0, 3 ) ]; set_fbc( g, e, v ); if( g->bc[e] != v ) viol( "field-boundary", fmt( "slot %d holds %d after being set to %d %s", e, g->bc[e], v, ctx.c_str() ) ); } else set_pbc( g, e, -h.i( 1, 5 ) );
              hs += fmt( " edge(%d)", e ); }
    }
    (void)a;
    count( "overrides" );
  }
  compare( g, m, ctx + " after" + hs );
  ranges( g, R, ctx );
  eval( fmt( "%d %d%d%d %dx%dx%d %d", kind, N[0], N[1], N[2], P[0], P[1], P[2], nh ) );
  if( world_rank == 0 ) sample( ctx + hs );
  delete_grid( g );
}

// domains of different sizes joined by hand in a ring along one axis
static void one_ring( Rng &r ) {
  int a = r.i( 0, 2 ), W = world_size; std::vector<int> len( W ), order( W );
  int n[3]; do { for( int k = 0; k < 3; k++ ) n[k] = r.i( 1, 9 ); } while( n[0] * n[1] * n[2] > 400 );
  for( int k = 0; k < W; k++ ) { len[k] = r.i( 1, 12 ); order[k] = k; }
  for( int k = W - 1; k > 0; k-- ) std::swap( order[k], order[ r.i( 0, k ) ] );
  bool open = r.chance( 0.4 );
  n[a] = len[world_rank];
  grid_t *g = new_grid();
  size_grid( g, n[0], n[1], n[2] );
  int pos = 0; while( order[pos] != world_rank ) pos++;
  std::string ctx = fmt( "case %d seed %lld ring of %d along %d", cur_case, (long long)opt_seed, W, a );
  std::vector<Rec> R; all_recs( g, R ); ranges( g, R, ctx );
  Model m; interior_model( g, m );
  compare( g, m, ctx + " before joining" );
  for( int s = 0; s < 2; s++ ) {
    int q = pos + ( s ? 1 : -1 ), f = a + 3 * s;
    if( open && ( q < 0 || q >= W ) ) continue;
    int k = order[ ( q + W ) % W ];
    join_grid( g, fbound[f], k ); m.bc[ fbound[f] ] = k;
    Opp o = { g, &R, k, f }; plane( g, m.nb, f, vopp, &o );
  }
  compare( g, m, ctx ); closure( g, R, ctx );
  eval( fmt( "ring %d %d %d %d", a, len[0], W, open ) );
  delete_grid( g );
}

// the jobs given to pipelines cover a region once
static void jobs( Rng &r ) {
  int lo[3], hi[3], n[3]; for( int a = 0; a < 3; a++ ) { n[a] = r.i( 1, 14 ); lo[a] = r.i( 0, n[a] + 1 ); hi[a] = r.i( lo[a], n[a] + 1 ); }
  int P = r.i( 0, 3 ) ? r.i( 1, 9 ) : r.i( 1, 272 ), b = 1 << r.i( 0, 4 );
  std::vector<int> hit( ( n[0] + 2 ) * ( n[1] + 2 ) * ( n[2] + 2 ), 0 );
  std::string ctx = fmt( "case %d seed %lld region %d:%d,%d:%d,%d:%d of %dx%dx%d, %d jobs, bundle %d", cur_case, (long long)opt_seed, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], n[0], n[1], n[2], P, b );
  for( int p = 0; p <= P; p++ ) {
    int x, y, z, c; DISTRIBUTE_VOXELS( lo[0],hi[0], lo[1],hi[1], lo[2],hi[2], b, p, P, x, y, z, c );
    if( c < 0 || ( p < P && c % b ) || ( p == P && c >= b ) ) viol( "jobs", fmt( "job %d has %d voxels %s", p, c, ctx.c_str() ) );
    int v = VOXEL( x, y, z, n[0], n[1], n[2] );
    for( ; c > 0; c-- ) {
      if( x < lo[0] || x > hi[0] || y < lo[1] || y > hi[1] || z < lo[2] || z > hi[2] || v != VOXEL( x, y, z, n[0], n[1], n[2] ) ) { viol( "jobs", fmt( "job %d leaves the region at %d,%d,%d (%d) %s", p, x, y, z, v, ctx.c_str() ) ); break; }
      hit[v]++; count( "job_voxels" );
      if( c > 1 ) { NEXT_VOXEL( v, x, y, z, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], n[0], n[1], n[2] ); }
    }
  }
  for( int z = lo[2]; z <= hi[2]; z++ ) for( int y = lo[1]; y <= hi[1]; y++ ) for( int x = lo[0]; x <= hi[0]; x++ ) if( hit[ VOXEL( x, y, z, n[0], n[1], n[2] ) ] != 1 ) { viol( "jobs", fmt( "voxel %d,%d,%d is given out %d times %s", x, y, z, hit[ VOXEL( x, y, z, n[0], n[1], n[2] ) ], ctx.c_str() ) ); return; }
  eval( fmt( "jobs %d %d %d", P, b, (int)hit.size() ) );
}

int main( int argc, char **argv ) {
  parse( argc, argv );
  boot_services( &argc, &argv );
  if( opt_mode == "reject" ) { // an impossible partition must not be accepted
    Rng r( mix( opt_seed, 9 ) ); grid_t *g = new_grid(); int N[3], P[3];
    draw_topology( r, P ); for( int a = 0; a < 3; a++ ) N[a] = P[a] * r.i( 1, 6 );
    int a = r.i( 0, 2 ), k = r.i( 0, 3 );
    if( k == 0 ) P[a] = -P[a]; else if( k == 1 ) P[a]++, N[a] = P[a] * 2; else if( k == 2 ) N[a] = 0; else if( P[a] > 1 ) N[a]++; else N[a] = -N[a];
    emit( fmt( "\"t\":\"asked\",\"N\":\"%dx%dx%d ranks %dx%dx%d of %d\"", N[0], N[1], N[2], P[0], P[1], P[2], world_size ) );
    partition_periodic_box( g, 0, 0, 0, 1, 1, 1, N[0], N[1], N[2], P[0], P[1], P[2] );
    emit( "\"t\":\"accepted\"" );
    MPI_Finalize(); _exit( 0 );
  }
  for( cur_case = opt_first; cur_case < opt_first + opt_cases; cur_case++ ) {
    each_case( cur_case - opt_first );
    Rng r( mix( opt_seed, cur_case ) );
    double k = r.u();
    if( k < 0.7 ) one_box( r ); else if( k < 0.85 ) one_ring( r ); else jobs( r );
  }
  done( true );
  halt_services();
  return 0;
}
