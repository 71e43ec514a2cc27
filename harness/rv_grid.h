// Random global boxes: the same description is drawn on every rank; each rank
// builds its local grid from it with the library's own partitioner.
#ifndef rv_grid_h
#define rv_grid_h
#include "rv.h"

namespace rv {

struct Box {
  int N[3], P[3], n[3];   // global cells, ranks and local cells along each axis
  int p[3], o[3];         // this rank's place and cell offset
  int fbc[6];             // 0 = periodic, else local field bc; -x -y -z +x +y +z
  double L0[3], L1[3], d[3];
  float dt, cvac, eps0;
  bool per( int a ) const { return fbc[a] == 0; }
  std::string str() const {
    return fmt( "N=%dx%dx%d ranks=%dx%dx%d bc=%d,%d,%d,%d,%d,%d", N[0], N[1], N[2], P[0], P[1], P[2],
                fbc[0], fbc[1], fbc[2], fbc[3], fbc[4], fbc[5] );
  }
};

static const int fbound[6] = { BOUNDARY(-1,0,0), BOUNDARY(0,-1,0), BOUNDARY(0,0,-1),
                               BOUNDARY(1,0,0),  BOUNDARY(0,1,0),  BOUNDARY(0,0,1) };

inline void draw_topology( Rng &r, int P[3] ) {
  for( ;; ) {
    P[0] = r.i( 1, world_size );
    if( world_size % P[0] ) continue;
    int q = world_size / P[0];
    P[1] = r.i( 1, q );
    if( q % P[1] ) continue;
    P[2] = q / P[1];
    return;
  }
}

// bcs: list of local field boundary conditions that may be drawn
inline Box draw_box( Rng &r, const std::vector<int> &bcs, int maxvox, double p_per = 0.4, bool thin = true, int minloc = 1 ) {
  Box b;
  draw_topology( r, b.P );
  static const int sz[] = { 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 19, 24, 33, 34 };
  bool one = thin && minloc < 2 && world_size == 1 && r.chance( 0.02 ); // a single cell
  for( ;; ) {
    int64_t nv = 1;
    for( int a = 0; a < 3; a++ ) {
      if( one ) b.n[a] = 1; else do b.n[a] = sz[ r.i( 0, 18 ) ]; while( b.n[a] < minloc || ( b.n[a] == 1 && ( !thin || b.P[a] > 1 ) ) );
      b.N[a] = b.n[a] * b.P[a];
      nv *= b.N[a];
    }
    if( nv <= maxvox && ( nv > 1 || one ) ) break;
  }
  for( int a = 0; a < 3; a++ ) {
    bool per = r.chance( p_per ) || bcs.empty();
    b.fbc[a]   = per ? 0 : bcs[ r.i( 0, (int)bcs.size() - 1 ) ];
    b.fbc[a+3] = per ? 0 : bcs[ r.i( 0, (int)bcs.size() - 1 ) ];
    b.d[a] = r.u( 0.4, 1.6 );
    if( r.chance( 0.3 ) ) b.d[a] = 1;
    b.L0[a] = r.chance( 0.3 ) ? 0 : r.u( -20, 20 );
    b.L1[a] = b.L0[a] + b.N[a] * b.d[a];
  }
  int k = world_rank;
  b.p[0] = k % b.P[0]; k /= b.P[0];
  b.p[1] = k % b.P[1]; b.p[2] = k / b.P[1];
  for( int a = 0; a < 3; a++ ) b.o[a] = b.p[a] * b.n[a];
  b.cvac = r.chance( 0.5 ) ? 1 : r.u( 0.5, 3 );
  b.eps0 = r.chance( 0.5 ) ? 1 : r.u( 0.3, 4 );
  double s = 0;
  for( int a = 0; a < 3; a++ ) if( b.N[a] > 1 ) s += 1 / ( b.d[a] * b.d[a] );
  if( !s ) s = 1; // any step will do for a single cell
  b.dt = r.u( 0.3, 0.98 ) / ( b.cvac * sqrt( s ) );
  return b;
}

inline grid_t * make_grid( const Box &b ) {
  grid_t *g = new_grid();
  g->dt = b.dt; g->cvac = b.cvac; g->eps0 = b.eps0;
  partition_periodic_box( g, b.L0[0], b.L0[1], b.L0[2], b.L1[0], b.L1[1], b.L1[2],
                          b.N[0], b.N[1], b.N[2], b.P[0], b.P[1], b.P[2] );
  for( int f = 0; f < 6; f++ ) {
    int a = f % 3;
    if( !b.fbc[f] ) continue;
    if( f < 3 ? b.p[a] == 0 : b.p[a] == b.P[a] - 1 ) set_fbc( g, fbound[f], b.fbc[f] );
  }
  return g;
}

// a hash usable as a deterministic value for (what, global x, y, z)
inline double hval( uint64_t seed, int what, int x, int y, int z ) {
  uint64_t h = mix( seed ^ ( (uint64_t)what << 56 ), ( (uint64_t)( x + 7 ) << 40 ) ^ ( (uint64_t)( y + 7 ) << 20 ) ^ (uint64_t)( z + 7 ) );
  return ( h >> 11 ) * ( 2.0 / 9007199254740992.0 ) - 1.0;
}

} // namespace rv
#endif
