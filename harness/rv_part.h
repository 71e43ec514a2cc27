// A random particle world on a random (possibly decomposed) box, a
// double-precision reference of the particle step on the global mesh, and the
// monitors that compare the two.
#ifndef rv_part_h
#define rv_part_h
#include "rv_grid.h"
#include <mpi.h>

namespace rv {

enum { PEC = pec_fields, SYM = symmetric_fields, PMC = pmc_fields, ABS = absorb_fields };

struct GPart { // a particle in global coordinates
  double id;      // species * 1e6 + unique number (from the weight)
  double c[3];    // global cell
  double d[3], u[3], w;
  double rank, n; // where it was found
};

struct Outcome {
  int status;      // 0 alive, 1 absorbed, 2 arrived at a custom boundary
  int c[3];        // global cell
  double d[3], u[3], rem[3];
  int face, bc;    // of status 2
  int ncross, nwrap, nrefl;
};

static const double WQ = 1. / 8192;
inline float id2w( int k ) { return (float)( 1 + k * WQ ); } // exact for k < 8192*7
inline int w2id( float w ) { double k = ( (double)w - 1 ) / WQ; return k < 0 || k > 60000 || k != floor( k ) ? -1 : (int)k; }

struct PWorld {
  Box b;
  grid_t *g;
  material_t *ml;
  field_array_t *fa;
  interpolator_array_t *ia;
  accumulator_array_t *aa;
  hydro_array_t *ha;
  species_t *sl;
  particle_bc_t *pbl;
  std::vector<species_t*> sp;
  int pbc[6];            // particle action on non-periodic global faces
  double wallp; uint64_t wallseed;
  std::vector<int> wallacts; // what interior walls do, if not reflect and absorb
  uint64_t seed;

  int64_t gcells() const { return (int64_t)b.N[0] * b.N[1] * b.N[2]; }
  int cellid( const int c[3] ) const { return c[0] + b.N[0] * ( c[1] + b.N[1] * c[2] ); }

  // Action at the face of global cell c: 0 none, else reflect/absorb. Both
  // sides of an interior wall agree.
  int wall( const int c[3], int face ) const {
    if( wallp <= 0 ) return 0;
    int a = face % 3, q[3] = { c[0], c[1], c[2] };
    if( face < 3 ) q[a]--;
    if( q[a] < 0 || q[a] >= b.N[a] - 1 ) return 0; // not on the outer faces
    double h = ( hval( wallseed, a, q[0], q[1], q[2] ) + 1 ) / 2;
    if( h >= wallp ) return 0;
    if( wallacts.size() ) return wallacts[ std::min( (size_t)( h / wallp * wallacts.size() ), wallacts.size() - 1 ) ];
    return h < wallp / 3 ? absorb_particles : reflect_particles;
  }

  void build( Rng &r, const Box &bx, int nsp, const std::vector<int> &acts, double wp, bool need_fa = true ) {
    b = bx; seed = r.next();
    g = make_grid( b );
    wallp = wp; wallseed = r.next(); pbl = NULL;
    for( int f = 0; f < 6; f++ ) pbc[f] = b.fbc[f] ? acts[ r.i( 0, (int)acts.size() - 1 ) ] : 0;
    ml = NULL;
    append_material( material( "vac", 1,1,1, 1,1,1, 0,0,0, 0,0,0 ), &ml );
    fa = new_standard_field_array( g, ml, 0 );
    ia = new_interpolator_array( g );
    aa = new_accumulator_array( g );
    ha = new_hydro_array( g );
    sl = NULL; sp.clear();
    for( int s = 0; s < nsp; s++ ) {
      static const float qs[] = { -1, 1, 0.5f, -2, 0, 3 };
      float q = qs[ r.i( 0, 5 ) ], m = r.chance( 0.5 ) ? 1 : (float)r.u( 0.2, 20 );
      sp.push_back( append_species( species( fmt( "s%d", s ).c_str(), q, m, 4, 4, 0, 0, g ), &sl ) );
    }
  }
  // after custom boundaries were made: pbc[] may hold their ids
  void apply_pbc() {
    for( int f = 0; f < 6; f++ ) {
      int a = f % 3;
      if( pbc[f] && ( f < 3 ? b.p[a] == 0 : b.p[a] == b.P[a] - 1 ) ) set_pbc( g, fbound[f], pbc[f] );
    }
    if( wallp > 0 )
      for( int z = 1; z <= g->nz; z++ ) for( int y = 1; y <= g->ny; y++ ) for( int x = 1; x <= g->nx; x++ )
        for( int f = 0; f < 6; f++ ) {
          int c[3] = { x - 1 + b.o[0], y - 1 + b.o[1], z - 1 + b.o[2] }, k = wall( c, f );
          if( k ) g->neighbor[ 6 * VOXEL( x, y, z, g->nx, g->ny, g->nz ) + f ] = k;
        }
  }
  void destroy() {
    delete_species_list( sl ); delete_hydro_array( ha ); delete_accumulator_array( aa );
    delete_interpolator_array( ia ); delete_field_array( fa ); delete_material_list( ml );
    delete_particle_bc_list( pbl );
    delete_grid( g );
  }

  // storage the user would ask for
  void reserve( species_t *s, int np, bool tight ) {
    if( np > s->max_np || !tight ) {
      int n = tight ? np : np * 2 + 64;
      if( n < 1 ) n = 1;
      particle_t *p; MALLOC_ALIGNED( p, n, 128 ); COPY( p, s->p, s->np ); FREE_ALIGNED( s->p ); s->p = p; s->max_np = n;
    }
    movers( s, np );
  }
  void movers( species_t *s, int np ) {
    int nm = ( np + 32 ) * ( N_PIPELINE + 1 ) + 64;
    if( s->max_nm < nm ) {
      particle_mover_t *m; MALLOC_ALIGNED( m, nm, 128 ); COPY( m, s->pm, s->nm ); FREE_ALIGNED( s->pm ); s->pm = m; s->max_nm = nm;
    }
  }

  float doff( Rng &r ) {
    double k = r.u();
    if( k < 0.05 ) return 1; if( k < 0.1 ) return -1;
    if( k < 0.12 ) return nextafterf( 1, 0 ); if( k < 0.14 ) return nextafterf( -1, 0 );
    if( k < 0.16 ) return 0;
    float f = (float)r.u( -1, 1 );
    return f > 1 ? 1 : f < -1 ? -1 : f;
  }
  // ntot particles over all ranks; every rank draws the same sequence
  void load( Rng &r, species_t *s, int ntot, double T, const double drift[3], bool clump, bool tight ) {
    std::vector<particle_t> mine;
    int cc[3]; for( int a = 0; a < 3; a++ ) cc[a] = r.i( 0, b.N[a] - 1 );
    int base = 0;
    for( int k = 0; k < ntot; k++ ) {
      int c[3]; particle_t p;
      for( int a = 0; a < 3; a++ ) {
        c[a] = clump ? std::min( b.N[a] - 1, cc[a] + r.i( 0, 1 ) ) : r.i( 0, b.N[a] - 1 );
        ( &p.dx )[a] = doff( r );
        ( &p.ux )[a] = (float)( drift[a] + T * r.n() * ( r.chance( 0.02 ) ? 20 : 1 ) );
        if( r.chance( 0.02 ) ) ( &p.ux )[a] = 0;
      }
      p.w = id2w( base + k );
      int l[3]; bool in = true;
      for( int a = 0; a < 3; a++ ) { l[a] = c[a] - b.o[a] + 1; if( l[a] < 1 || l[a] > b.n[a] ) in = false; }
      if( !in ) continue;
      p.i = VOXEL( l[0], l[1], l[2], b.n[0], b.n[1], b.n[2] );
      mine.push_back( p );
    }
    s->np = 0;
    reserve( s, (int)mine.size(), tight );
    for( size_t k = 0; k < mine.size(); k++ ) s->p[k] = mine[k];
    s->np = (int)mine.size();
  }

  void random_interp( Rng &r, double E, double B, bool lin ) {
    for( int v = 0; v < g->nv; v++ ) {
      float *f = (float *)&ia->i[v];
      for( int k = 0; k < 12; k++ ) f[k] = (float)( E * r.u( -1, 1 ) * ( k % 4 ? ( lin ? 0.5 : 0 ) : 1 ) );
      for( int k = 12; k < 18; k++ ) f[k] = (float)( B * r.u( -1, 1 ) * ( k % 2 ? ( lin ? 0.5 : 0 ) : 1 ) );
    }
  }

  static void interp( const interpolator_t &f, const double d[3], double e[3], double bb[3] ) {
    double dx = d[0], dy = d[1], dz = d[2];
    e[0] = f.ex + dy * f.dexdy + dz * ( f.dexdz + dy * (double)f.d2exdydz );
    e[1] = f.ey + dz * f.deydz + dx * ( f.deydx + dz * (double)f.d2eydzdx );
    e[2] = f.ez + dx * f.dezdx + dy * ( f.dezdy + dx * (double)f.d2ezdxdy );
    bb[0] = f.cbx + dx * f.dcbxdx; bb[1] = f.cby + dy * f.dcbydy; bb[2] = f.cbz + dz * f.dcbzdz;
  }
  // rotation by frac of the full documented rotation about cB
  static void rotate( double u[3], const double bb[3], double qdt_2mc ) {
    double gam = sqrt( 1 + u[0]*u[0] + u[1]*u[1] + u[2]*u[2] );
    double v0 = qdt_2mc / gam, b2 = bb[0]*bb[0] + bb[1]*bb[1] + bb[2]*bb[2], v2 = v0 * v0 * b2;
    double t = v0 * ( 1 + v2 * ( 1./3 + v2 * 2./15 ) ), s = 2 * t / ( 1 + b2 * t * t );
    double w[3] = { u[0] + t * ( u[1]*bb[2] - u[2]*bb[1] ), u[1] + t * ( u[2]*bb[0] - u[0]*bb[2] ), u[2] + t * ( u[0]*bb[1] - u[1]*bb[0] ) };
    u[0] += s * ( w[1]*bb[2] - w[2]*bb[1] ); u[1] += s * ( w[2]*bb[0] - w[0]*bb[2] ); u[2] += s * ( w[0]*bb[1] - w[1]*bb[0] );
  }
  double qdt2mc( const species_t *s ) const { return (double)s->q * g->dt / ( 2. * s->m * g->cvac ); }
  void push( const species_t *s, const particle_t &p, double u[3], double disp[3], double &scale ) const {
    double d[3] = { p.dx, p.dy, p.dz }, e[3], bb[3];
    interp( ia->i[p.i], d, e, bb );
    double k = qdt2mc( s ), h = 0, um = 0;
    for( int a = 0; a < 3; a++ ) { u[a] = (double)( &p.ux )[a] + k * e[a]; h += fabs( k * e[a] ); um += fabs( (double)( &p.ux )[a] ); }
    double gam = sqrt( 1 + u[0]*u[0] + u[1]*u[1] + u[2]*u[2] );
    double th = fabs( k ) / gam * sqrt( bb[0]*bb[0] + bb[1]*bb[1] + bb[2]*bb[2] );
    rotate( u, bb, k );
    for( int a = 0; a < 3; a++ ) u[a] += k * e[a];
    gam = sqrt( 1 + u[0]*u[0] + u[1]*u[1] + u[2]*u[2] );
    const float rd[3] = { g->rdx, g->rdy, g->rdz };
    for( int a = 0; a < 3; a++ ) disp[a] = u[a] / gam * ( (double)g->cvac * g->dt * rd[a] );
    scale = ( um + 3 * h ) * ( 1 + std::min( th, 3. ) );
  }

  void deposit( double *J, const int c[3], double q, const double m[3], const double s[3] ) const {
    double *a = J + 12 * (int64_t)cellid( c ), v5 = q * s[0] * s[1] * s[2] / 3;
    for( int k = 0; k < 3; k++ ) {
      int y = ( k + 1 ) % 3, z = ( k + 2 ) % 3;
      double j = q * s[k];
      a[4*k+0] += j * ( 1 - m[y] ) * ( 1 - m[z] ) + v5;
      a[4*k+1] += j * ( 1 + m[y] ) * ( 1 - m[z] ) - v5;
      a[4*k+2] += j * ( 1 - m[y] ) * ( 1 + m[z] ) - v5;
      a[4*k+3] += j * ( 1 + m[y] ) * ( 1 + m[z] ) + v5;
    }
  }
  // c,d: start; s: displacement in cell units (position moves by 2 s)
  Outcome walk( const int c0[3], const double d0[3], const double u0[3], const double s0[3], double q, double *J, std::vector<int> *seen = NULL ) const {
    Outcome o; memset( &o, 0, sizeof o );
    double s[3];
    for( int a = 0; a < 3; a++ ) { o.c[a] = c0[a]; o.d[a] = d0[a]; o.u[a] = u0[a]; s[a] = s0[a]; }
    for( int it = 0; it < 100000; it++ ) {
      double best = 2; int ax = 3;
      for( int a = 0; a < 3; a++ ) if( s[a] != 0 ) {
        double t = ( ( s[a] > 0 ? 1 : -1 ) - o.d[a] ) / s[a];
        if( t < best ) { best = t; ax = a; }
      }
      if( best < 0 ) best = 0;
      double k = best * 0.5, m[3], t[3];
      for( int a = 0; a < 3; a++ ) { t[a] = s[a] * k; m[a] = o.d[a] + t[a]; }
      if( J ) deposit( J, o.c, q, m, t );
      if( seen ) seen->push_back( cellid( o.c ) );
      for( int a = 0; a < 3; a++ ) { o.d[a] += 2 * t[a]; s[a] -= t[a]; }
      if( ax == 3 ) return o;
      int up = s0[ax] == 0 ? 0 : ( s[ax] != 0 ? s[ax] > 0 : o.d[ax] > 0 );
      o.d[ax] = up ? 1 : -1;
      int face = ax + ( up ? 3 : 0 ), n = o.c[ax] + ( up ? 1 : -1 ), act = wall( o.c, face );
      if( !act && ( n < 0 || n >= b.N[ax] ) && pbc[face] ) act = pbc[face];
      if( act == reflect_particles ) { o.u[ax] = -o.u[ax]; s[ax] = -s[ax]; o.nrefl++; continue; }
      if( act ) {
        o.status = act == absorb_particles ? 1 : 2; o.face = face; o.bc = act;
        for( int a = 0; a < 3; a++ ) o.rem[a] = s[a];
        return o;
      }
      o.ncross++;
      if( n < 0 || n >= b.N[ax] ) { n = ( n + b.N[ax] ) % b.N[ax]; o.nwrap++; }
      o.c[ax] = n; o.d[ax] = -o.d[ax];
    }
    return o;
  }
  double sepw( const Outcome &x, const int c[3], const double d[3] ) const { // distance in cell units, periodic
    double m = 0;
    for( int a = 0; a < 3; a++ ) {
      double t = ( x.c[a] + 0.5 * x.d[a] ) - ( c[a] + 0.5 * d[a] );
      if( b.per( a ) ) t -= b.N[a] * floor( t / b.N[a] + 0.5 );
      m = std::max( m, fabs( t ) );
    }
    return m;
  }
  void gcell( int i, int c[3] ) const {
    int sx = g->nx + 2, sy = g->ny + 2;
    c[0] = i % sx - 1 + b.o[0]; c[1] = i / sx % sy - 1 + b.o[1]; c[2] = i / ( sx * sy ) - 1 + b.o[2];
  }
  bool interior( int i ) const {
    if( i < 0 || i >= g->nv ) return false;
    int x = i % ( g->nx + 2 ), y = i / ( g->nx + 2 ) % ( g->ny + 2 ), z = i / ( ( g->nx + 2 ) * ( g->ny + 2 ) );
    return x >= 1 && x <= g->nx && y >= 1 && y <= g->ny && z >= 1 && z <= g->nz;
  }
  void collect( std::vector<GPart> &all, const std::string &ctx, bool check = true ) const {
    std::vector<GPart> mine;
    for( size_t s = 0; s < sp.size(); s++ ) {
      const species_t *k = sp[s];
      if( k->np < 0 || k->np > k->max_np ) viol( "np-range", fmt( "np=%d max_np=%d %s", k->np, k->max_np, ctx.c_str() ) );
      for( int n = 0; n < k->np; n++ ) {
        const particle_t &p = k->p[n];
        GPart q; int c[3] = { 0, 0, 0 };
        if( check ) {
          if( !interior( p.i ) ) { viol( "outside-domain", fmt( "species %d particle %d is in voxel %d, which is not an interior cell of this rank %s", (int)s, n, p.i, ctx.c_str() ) ); continue; }
          if( !( fabsf( p.dx ) <= 1 && fabsf( p.dy ) <= 1 && fabsf( p.dz ) <= 1 ) )
            viol( "offset-range", fmt( "species %d particle %d has offset (%.9g,%.9g,%.9g) %s", (int)s, n, p.dx, p.dy, p.dz, ctx.c_str() ) );
          if( w2id( p.w ) < 0 ) viol( "weight-changed", fmt( "species %d particle %d has weight %.9g, which no particle was given %s", (int)s, n, p.w, ctx.c_str() ) );
        }
        gcell( p.i, c );
        q.id = s * 1e6 + w2id( p.w ); q.w = p.w; q.rank = world_rank; q.n = n;
        for( int a = 0; a < 3; a++ ) { q.c[a] = c[a]; q.d[a] = ( &p.dx )[a]; q.u[a] = ( &p.ux )[a]; }
        mine.push_back( q );
      }
    }
    int W = sizeof( GPart ) / sizeof( double ), n = (int)mine.size() * W;
    std::vector<int> cnt( world_size ), off( world_size );
    MPI_Allgather( &n, 1, MPI_INT, &cnt[0], 1, MPI_INT, MPI_COMM_WORLD );
    int t = 0; for( int k = 0; k < world_size; k++ ) { off[k] = t; t += cnt[k]; }
    all.resize( t / W );
    GPart dummy;
    MPI_Allgatherv( n ? (void*)&mine[0] : (void*)&dummy, n, MPI_DOUBLE, t ? (void*)&all[0] : (void*)&dummy, &cnt[0], &off[0], MPI_DOUBLE, MPI_COMM_WORLD );
  }
};

template<class T> static void gather( const std::vector<T> &mine, std::vector<T> &all ) {
  int n = (int)( mine.size() * sizeof( T ) );
  std::vector<int> cnt( world_size ), off( world_size );
  MPI_Allgather( &n, 1, MPI_INT, &cnt[0], 1, MPI_INT, MPI_COMM_WORLD );
  int t = 0; for( int k = 0; k < world_size; k++ ) { off[k] = t; t += cnt[k]; }
  all.resize( t / sizeof( T ) );
  char d;
  MPI_Allgatherv( n ? (void*)&mine[0] : (void*)&d, n, MPI_BYTE, t ? (void*)&all[0] : (void*)&d, &cnt[0], &off[0], MPI_BYTE, MPI_COMM_WORLD );
}

} // namespace rv
#endif
