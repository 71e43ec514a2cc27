// Charge at the nodes of the global mesh, and its balance with the current.
#ifndef rv_cont_h
#define rv_cont_h
#include "rv_part.h"
namespace rv {

struct GlobalNodes {
  const PWorld &w; int M[3]; int64_t n;
  GlobalNodes( const PWorld &w_ ) : w( w_ ) { n = 1; for( int a = 0; a < 3; a++ ) { M[a] = w.b.per( a ) ? w.b.N[a] : w.b.N[a] + 1; n *= M[a]; } }
  int64_t at( const int q[3] ) const { // canonical node of global node index q (0-based)
    int c[3]; for( int a = 0; a < 3; a++ ) c[a] = w.b.per( a ) ? ( q[a] % M[a] + M[a] ) % M[a] : q[a];
    return c[0] + (int64_t)M[0] * ( c[1] + (int64_t)M[1] * c[2] );
  }
};

// charges of particles at nodes, boundary cells doubled, in units of charge
static void node_charge( const PWorld &w, const GlobalNodes &gn, std::vector<double> &Q, bool mag = false ) {
  std::vector<double> L( gn.n, 0. );
  for( size_t s = 0; s < w.sp.size(); s++ ) for( int k = 0; k < w.sp[s]->np; k++ ) {
    const particle_t &p = w.sp[s]->p[k];
    int c[3]; w.gcell( p.i, c );
    for( int t = 0; t < 8; t++ ) {
      int q[3]; double wt = ( mag ? fabs( w.sp[s]->q ) : w.sp[s]->q ) * (double)p.w / 8;
      for( int a = 0; a < 3; a++ ) { int h = t >> a & 1; q[a] = c[a] + h; double d = ( &p.dx )[a]; wt *= h ? 1 + d : 1 - d;
        if( !w.b.per( a ) && ( q[a] == 0 || q[a] == w.b.N[a] ) ) wt *= 2; }
      L[ gn.at( q ) ] += wt;
    }
  }
  Q.assign( gn.n, 0. );
  MPI_Allreduce( &L[0], &Q[0], (int)gn.n, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD );
}

// assembles one component of the mesh (node or edge located) from all ranks
static void assemble( const PWorld &w, const GlobalNodes &gn, int comp, std::vector<double> &out ) {
  std::vector<double> v( 2 * gn.n, 0. ), o( 2 * gn.n, 0. );
  grid_t *g = w.g;
  int ex[3]; for( int a = 0; a < 3; a++ ) ex[a] = comp == a ? 0 : 1; // jf along a: n edges; nodes: n+1
  for( int z = 1; z <= g->nz + ex[2]; z++ ) for( int y = 1; y <= g->ny + ex[1]; y++ ) for( int x = 1; x <= g->nx + ex[0]; x++ ) {
    const field_t &f = w.fa->f[ VOXEL( x, y, z, g->nx, g->ny, g->nz ) ];
    int q[3] = { x - 1 + w.b.o[0], y - 1 + w.b.o[1], z - 1 + w.b.o[2] };
    double val = comp == 0 ? f.jfx : comp == 1 ? f.jfy : comp == 2 ? f.jfz : comp == 3 ? f.rhob : f.rhof;
    v[ gn.at( q ) ] += val; v[ gn.n + gn.at( q ) ] += 1;
  }
  MPI_Allreduce( &v[0], &o[0], (int)( 2 * gn.n ), MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD );
  out.resize( gn.n );
  for( int64_t k = 0; k < gn.n; k++ ) out[k] = o[ gn.n + k ] ? o[k] / o[ gn.n + k ] : 0;
}


// change of particle and bound charge against the divergence of jf, per node;
// near holds, per global cell, how many streaks began or ended in it
static void continuity( const PWorld &w, const GlobalNodes &gn, const std::vector<double> &Q0, const std::vector<double> &rb0, const std::vector<double> &Q1, const std::vector<double> &rb1,
                        const std::vector<double> &nearc, double qmax, const std::string &ctx ) {
  const Box &b = w.b;
  const double V = (double)w.g->dx * w.g->dy * w.g->dz;
  std::vector<double> jf[3]; for( int a = 0; a < 3; a++ ) assemble( w, gn, a, jf[a] );
  const double dd[3] = { w.g->dx, w.g->dy, w.g->dz };
  int bad = 0;
  for( int z = 0; z < gn.M[2]; z++ ) for( int y = 0; y < gn.M[1]; y++ ) for( int x = 0; x < gn.M[0]; x++ ) {
    int q[3] = { x, y, z }; int64_t k = gn.at( q ); bool skip = false;
    double flux = 0, near = 0;
    for( int a = 0; a < 3; a++ ) {
      int lo[3] = { x, y, z }; lo[a]--;
      double hi_ = 0, lo_ = 0;
      if( b.per( a ) ) { hi_ = jf[a][k]; lo_ = jf[a][gn.at( lo )]; }
      else {
        if( q[a] == 0 ) { if( b.fbc[a] == PEC ) skip = true; hi_ = 2 * jf[a][k]; }
        else if( q[a] == b.N[a] ) { if( b.fbc[a+3] == PEC ) skip = true; lo_ = 2 * jf[a][gn.at( lo )]; }
        else { hi_ = jf[a][k]; lo_ = jf[a][gn.at( lo )]; }
      }
      flux += ( hi_ - lo_ ) / dd[a] * V * w.g->dt;
    }
    if( skip ) continue;
    for( int t = 0; t < 8; t++ ) {
      int c[3]; bool in = true;
      for( int a = 0; a < 3; a++ ) { c[a] = q[a] - ( t >> a & 1 ); if( b.per( a ) ) c[a] = ( c[a] + b.N[a] ) % b.N[a]; else if( c[a] < 0 || c[a] >= b.N[a] ) in = false; }
      if( in ) near += nearc[ w.cellid( c ) ];
    }
    double got = Q1[k] - Q0[k] + ( rb1[k] - rb0[k] ) * V, tol = qmax * 3e-6 * ( 8 + near * 2 ) + 1e-6 * ( fabs( rb1[k] ) + fabs( rb0[k] ) ) * V;
    if( world_rank == 0 && !close( got, -flux, tol ) && bad++ < 3 )
      viol( "continuity", fmt( "node (%d,%d,%d): charge changed by %.8g, current divergence gives %.8g (tolerance %.2g) %s", x, y, z, got, -flux, tol, ctx.c_str() ) );
  }
}

} // namespace rv
#endif
