// A random complete simulation, chosen by the environment (RV_CASE), watched
// by recorded digests and state images. Used for the whole-run properties.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <stdint.h>
#ifndef RV_NO_DELAY
#include "fault.h"
#endif
#ifdef RV_RES
#include "res.h"
#endif

static uint64_t w_s;
static uint64_t w_next() { uint64_t z = ( w_s += 0x9e3779b97f4a7c15ull ); z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull; z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull; return z ^ ( z >> 31 ); }
static double w_u() { return ( w_next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
static double w_r( double a, double b ) { return a + ( b - a ) * w_u(); }
static int w_i( int a, int b ) { return a + (int)( w_next() % (uint64_t)( b - a + 1 ) ); }
static double w_n() { double a = w_u() + 1e-300, b = w_u(); return sqrt( -2 * log( a ) ) * cos( 6.283185307179586 * b ); }
static const char *w_env( const char *n, const char *d ) { const char *v = getenv( n ); return v ? v : d; }
static bool w_has( const char *n, int c ) { return strchr( w_env( n, "" ), c ) != NULL; }
static uint64_t w_hash( uint64_t h, const void *p, size_t n ) { const unsigned char *b = (const unsigned char *)p; for( size_t k = 0; k < n; k++ ) h = ( h ^ b[k] ) * 0x100000001b3ull; return h; }

begin_globals {
  int gn[3], gp[3], me[3];
  int hooks, drive_i, nfinal, tally, nevents;
  double amp, freq;
  double hist[4]; // state of the deck itself, preserved over restores
  int64_t calls[5];
};

// a collision model of the deck's own (registered by symbol)
float w_rate( void *, const species_t *sp, const particle_t *p ) { return 0.4f / sp->g->dt * ( p->ux > 0 ? 1.f : 0.5f ); }
void w_scatter( void *, const species_t *, particle_t *p, rng_t *r ) { float a = p->ux; p->ux = p->uy; p->uy = p->uz; p->uz = a * ( frand( r ) > 0.5f ? 1 : -1 ); }
float w_rate2( void *, const species_t *a, const species_t *, const particle_t *, const particle_t * ) { return 0.2f * a->g->dV / a->g->dt; }
void w_swap( void *, const species_t *, const species_t *, particle_t *p, particle_t *q, rng_t *r, int t ) { float a = p->ux, b = q->ux; if( frand( r ) > 0.3f ) { if( t & 1 ) p->ux = b; if( t & 2 ) q->ux = a; } }

begin_initialization {
  w_s = (uint64_t)atoll( w_env( "RV_CASE", "1" ) ) * 7919 + 13;
  const char *F = w_env( "RV_FEATURES", "*" ); // * = anything the case draws
  #define FEATURE( c, p ) ( ( w_u() < (p) ) && ( strchr( F, '*' ) || strchr( F, c ) ) && !strchr( F, c - 32 ) )
  // capital letters forbid a feature
  const int big = atoi( w_env( "RV_BIG", "0" ) );
  static const int dims[] = { 4, 8, 12, 4, 8, 1 };
  for( int a = 0; a < 3; a++ ) global->gn[a] = dims[ w_i( 0, 5 ) ];
  if( global->gn[0] * global->gn[1] * global->gn[2] > 500 && !big ) global->gn[2] = 4;
  if( global->gn[0] * global->gn[1] * global->gn[2] < 8 ) global->gn[0] = 8;
  if( strchr( F, '3' ) ) for( int a = 0; a < 3; a++ ) if( global->gn[a] == 1 ) global->gn[a] = 4;
  sscanf( w_env( "RV_GN", "" ), "%d,%d,%d", &global->gn[0], &global->gn[1], &global->gn[2] );
  global->gp[0] = global->gp[1] = global->gp[2] = 1;
  sscanf( w_env( "RV_TOPO", "1,1,1" ), "%d,%d,%d", &global->gp[0], &global->gp[1], &global->gp[2] );
  if( !strcmp( w_env( "RV_TOPO", "" ), "auto" ) ) { // any split leaving two cells per axis
    int left = nproc(); uint64_t keep = w_s; for( int a = 0; a < 3; a++ ) global->gp[a] = 1;
    while( left > 1 ) { int f = left % 3 == 0 ? 3 : 2, done = 0; for( int t = 0; t < 3 && !done; t++ ) { int a = ( t + (int)( keep % 3 ) ) % 3; if( global->gn[a] % ( global->gp[a] * f ) == 0 && global->gn[a] / ( global->gp[a] * f ) >= 2 ) { global->gp[a] *= f; left /= f; done = 1; } } if( !done ) { global->gn[ keep % 3 ] *= f; } keep = keep / 3; }
  }
  { int r = rank(); for( int a = 0; a < 3; a++ ) { global->me[a] = r % global->gp[a]; r /= global->gp[a]; } }
  double L[3], lo[3]; for( int a = 0; a < 3; a++ ) { L[a] = global->gn[a] * w_r( 0.5, 2 ); lo[a] = w_r( -3, 3 ); }
  double damp = FEATURE( 'd', 0.3 ) ? w_r( 0, 0.1 ) : 0;
  double dt = ( damp > 0 ? 0.5 : 0.9 ) * w_r( 0.6, 1 ) * courant_length( L[0], L[1], L[2], global->gn[0], global->gn[1], global->gn[2] );
  verbose = w_i( 0, 1 );
  num_step = atoi( w_env( "RV_STEPS", "10" ) );
  global->nfinal = num_step;
  status_interval = FEATURE( 'g', 0.3 ) ? w_i( 1, 4 ) : 0;
  clean_div_e_interval = FEATURE( 'g', 0.5 ) ? w_i( 1, 5 ) : 0;
  clean_div_b_interval = FEATURE( 'g', 0.5 ) ? w_i( 1, 5 ) : 0;
  sync_shared_interval = FEATURE( 'g', 0.5 ) ? w_i( 1, 5 ) : 0;
  num_div_e_round = w_i( 1, 3 ); num_div_b_round = w_i( 1, 3 );
  num_comm_round = w_i( 4, 6 );
  define_units( 1, 1 );
  define_timestep( dt );
  int box = w_i( 0, 3 ); // periodic, absorbing, metal, mixed
  int pbc = w_i( 0, 1 ) ? reflect_particles : absorb_particles;
  double h[3]; for( int a = 0; a < 3; a++ ) h[a] = lo[a] + L[a];
  #define BOX lo[0], lo[1], lo[2], h[0], h[1], h[2], global->gn[0], global->gn[1], global->gn[2], global->gp[0], global->gp[1], global->gp[2]
  if( box == 1 ) define_absorbing_grid( BOX, pbc ); else if( box == 2 ) define_reflecting_grid( BOX ); else define_periodic_grid( BOX );
  if( box == 3 ) { // every global face its own conditions
    static const int fb[] = { anti_symmetric_fields, symmetric_fields, pmc_fields, absorb_fields };
    for( int a = 0; a < 3; a++ ) {
      int per = w_i( 0, 2 ) == 0, f0 = fb[ w_i( 0, 3 ) ], f1 = fb[ w_i( 0, 3 ) ], p0 = w_i( 0, 1 ) ? reflect_particles : absorb_particles, p1 = w_i( 0, 1 ) ? reflect_particles : absorb_particles;
      if( per || global->gn[a] == 1 ) continue;
      int bl = a == 0 ? BOUNDARY( -1, 0, 0 ) : a == 1 ? BOUNDARY( 0, -1, 0 ) : BOUNDARY( 0, 0, -1 );
      int bh = a == 0 ? BOUNDARY( 1, 0, 0 ) : a == 1 ? BOUNDARY( 0, 1, 0 ) : BOUNDARY( 0, 0, 1 );
      if( global->me[a] == 0 ) { set_domain_field_bc( bl, f0 ); set_domain_particle_bc( bl, p0 ); }
      if( global->me[a] == global->gp[a] - 1 ) { set_domain_field_bc( bh, f1 ); set_domain_particle_bc( bh, p1 ); }
    }
  }
  define_material( "vacuum", 1 );
  int nmat = FEATURE( 'm', 0.4 ) ? w_i( 1, 2 ) : 0;
  for( int k = 0; k < nmat; k++ ) {
    double e = w_r( 1, 3 ), m = w_r( 1, 2 ), s = w_r( 0, 0.5 ); int an = w_i( 0, 1 );
    double z[6]; for( int q = 0; q < 6; q++ ) z[q] = an ? w_r( 1, 2 ) : 1;
    define_material( k ? "beta" : "alpha", e * z[0], e * z[1], e * z[2], m * z[3], m * z[4], m * z[5], s * z[0], s * z[1], s * z[2] );
  }
  define_field_array( NULL, damp );
  double cx = w_r( lo[0], h[0] ), cy = w_r( lo[1], h[1] ), cz = w_r( lo[2], h[2] ), R2 = pow( w_r( 0.2, 0.6 ) * L[0], 2 );
  if( nmat > 0 ) set_region_material( ( x - cx ) * ( x - cx ) + ( y - cy ) * ( y - cy ) < R2, lookup_material( "alpha" ), lookup_material( "alpha" ) );
  if( nmat > 1 ) set_region_material( z > cz, lookup_material( "beta" ), lookup_material( "vacuum" ) );
  // fields
  double fa = w_r( 0, 0.6 ), kx = 6.283185307179586 / L[0], ky = 6.283185307179586 / L[1], kz = 6.283185307179586 / L[2], ph = w_r( 0, 6 );
  if( w_i( 0, 4 ) == 0 ) fa = 0;
  set_region_field( everywhere, fa * cos( kx * ( x - lo[0] ) + ky * ( y - lo[1] ) + ph ), fa * sin( kz * ( z - lo[2] ) + ph ), fa * cos( ky * ( y - lo[1] ) + kz * ( z - lo[2] ) ),
                    fa * sin( ky * ( y - lo[1] ) - ph ), 0.3 + fa * cos( kx * ( x - lo[0] ) ), fa * sin( kx * ( x - lo[0] ) + ph ) );
  // species
  int nsp = w_i( 0, 7 ) == 0 ? 0 : w_i( 1, 3 ), per = big ? 4000 : w_i( 20, 300 );
  per = atoi( w_env( "RV_NP", std::to_string( per ).c_str() ) );
  if( strchr( F, 's' ) && !nsp ) nsp = 1;
  static const char *names[] = { "electron", "ion", "tracer one" };
  species_t *sp[3];
  bool small = FEATURE( 'y', 0.25 ); // tight storage that has to grow
  int64_t id = 0;
  for( int s = 0; s < nsp; s++ ) {
    double q = s == 1 ? 1 : s == 2 ? w_r( -1, 1 ) : -1, m = s == 1 ? w_r( 1, 20 ) : w_r( 0.5, 2 ), uth = w_r( 0, 0.7 ), ud = w_r( -0.8, 0.8 );
    int np = w_i( 0, 9 ) == 0 ? 0 : per;
    int si = w_i( 0, 4 ), sop = w_i( 0, 1 );
    sp[s] = define_species( names[s], q, m, small ? np + num_step + 4 : 3 * np + 2000, small ? w_i( 8, 40 ) + np : np + 2000, si, sop );
    double w0 = 0.05 * L[0] * L[1] * L[2] / per;
    int e = 0; w0 = frexp( w0, &e ), w0 = ldexp( 1., e ); // so that 1 + id/2^16 stays exact
    for( int k = 0; k < np; k++, id++ ) {
      double X = w_r( lo[0], h[0] ), Y = w_r( lo[1], h[1] ), Z = w_r( lo[2], h[2] );
      inject_particle( sp[s], X, Y, Z, uth * w_n() + ud, uth * w_n(), uth * w_n(), w0 * ( 1 + id / 65536. ), 0, 0 );
    }
  }
  global->nevents = 0;
  // boundary models, emitters, collisions
  seed_entropy( w_i( 0, 100000 ) );
  double xa = lo[0] + L[0] * 0.3, xb = lo[0] + L[0] * 0.7;
  global->tally = 0;
  bool refl = FEATURE( 'r', 0.4 ) && nsp, tal = FEATURE( 't', 0.4 ) && nsp, emi = FEATURE( 'e', 0.4 ) && nsp, col = FEATURE( 'c', 0.6 ) && nsp;
  if( refl ) {
    particle_bc_t *b = define_particle_bc( maxwellian_reflux( species_list, entropy ) );
    for( int s = 0; s < nsp; s++ ) { double u0 = w_r( 0.05, 0.5 ), u1 = w_r( 0.05, 0.5 ); set_reflux_temp( b, sp[s], u0, u1 ); }
    if( global->gn[1] > 1 ) set_region_bc( y > lo[1] + 0.45 * L[1] && x < xb, b, b, b );
  }
  if( tal ) {
    particle_bc_t *b = define_particle_bc( absorb_tally( species_list, field_array ) );
    global->tally = nsp;
    if( global->gn[0] > 1 ) set_region_bc( x > xb, b, b, b );
  }
  if( emi ) {
    int ne = w_i( 1, 3 ); double u0 = w_r( 0, 0.3 ), u1 = w_r( 0, 0.3 ), th = w_r( 0, 0.2 ) * fa;
    if( global->gn[0] > 1 ) {
      emitter_t *em = child_langmuir( sp[0], interpolator_array, field_array, accumulator_array, entropy, ne, u0, u1, th, 0.3 );
      define_surface_emitter( define_emitter( em ), x < xa );
    }
  }
  if( col ) {
    int n = w_i( 1, 3 );
    for( int k = 0; k < n; k++ ) {
      int which = w_i( 0, 7 ), in = w_i( 1, 3 ), s1 = w_i( 0, nsp - 1 ), s2 = w_i( 0, nsp - 1 ); double v = w_r( 0.001, 0.1 );
      switch( which ) {
      case 0: define_collision_op( takizuka_abe( "ta", sp[s1], sp[s2], entropy, v, in ) ); break;
      case 1: define_collision_op( langevin( 0.1, v, sp[s1], entropy, in ) ); break;
      case 2: define_collision_op( unary_collision_model( "own", w_rate, w_scatter, NULL, sp[s1], entropy, in ) ); break;
      case 3: define_collision_op( binary_collision_model( "own2", w_rate2, w_swap, NULL, sp[s1], sp[s2], entropy, 2, in ) ); break;
      case 4: define_collision_op( hard_sphere_fluid( "hsf", 1, 0.1, 0, 0, 0.1, 1, 0.5, sp[s1], 0.5, entropy, in ) ); break;
      case 5: define_collision_op( hard_sphere( "hs", sp[s1], 0.4, sp[s2], 0.4, entropy, 1, in ) ); break;
      case 7: define_collision_op( large_angle_coulomb_fluid( "lacf", 1, 0, 0.1, 0, 0.1, 1, 1, sp[s1], 1, entropy, in ) ); break;
      case 6: define_collision_op( large_angle_coulomb( "lac", sp[s1], sp[s2], 1, entropy, 1, in ) ); break;
      }
    }
  }
  global->hooks = FEATURE( 'h', 0.5 );
  global->drive_i = w_i( 0, global->gn[0] ); global->amp = w_r( 0, 0.3 ); global->freq = w_r( 0.1, 1 );
  for( int k = 0; k < 4; k++ ) global->hist[k] = 0;
  for( int k = 0; k < 5; k++ ) global->calls[k] = 0;
  // settings that the core only carries along
  quota = w_r( 1, 9 ); checkpt_interval = w_i( 1, 99 ); hydro_interval = w_i( 1, 99 ); field_interval = w_i( 1, 99 ); particle_interval = w_i( 1, 99 );
  ndfld = w_i( 1, 99 ); ndhyd = w_i( 1, 99 ); ndpar = w_i( 1, 99 ); ndhis = w_i( 1, 99 ); ndgrd = w_i( 1, 99 ); head_option = w_i( 1, 99 ); istride = w_i( 1, 99 ); jstride = w_i( 1, 99 ); kstride = w_i( 1, 99 );
  stride_option = w_i( 1, 99 ); pstride = w_i( 1, 99 ); nprobe = w_i( 1, 99 ); block_dump = w_i( 1, 99 ); stepdigit = w_i( 1, 9 ); rankdigit = w_i( 1, 9 ); ifenergies = w_i( 1, 99 );
  nxout = w_i( 1, 99 ); nyout = w_i( 1, 99 ); nzout = w_i( 1, 99 ); px = w_i( 1, 99 ); py = w_i( 1, 99 ); pz = w_i( 1, 99 ); dxout = w_r( 1, 9 ); dyout = w_r( 1, 9 ); dzout = w_r( 1, 9 );
  for( int k = 0; k < NVARHISMX; k++ ) { for( int q = 0; q < 4; q++ ) ijkprobe[k][q] = w_i( 0, 99 ); for( int q = 0; q < 3; q++ ) xyzprobe[k][q] = w_r( 0, 9 ); }
}

static uint64_t w_settings( uint64_t h, const grid_t *g, int np ) {
  float a[] = { g->dt, g->cvac, g->eps0, g->x0, g->y0, g->z0, g->x1, g->y1, g->z1, g->dx, g->dy, g->dz, g->dV, g->rdx, g->rdy, g->rdz, g->r8V };
  int b[] = { g->nx, g->ny, g->nz, g->sx, g->sy, g->sz, g->nv };
  h = w_hash( h, a, sizeof a ); h = w_hash( h, b, sizeof b ); h = w_hash( h, g->bc, sizeof g->bc ); h = w_hash( h, &g->rangel, 8 ); h = w_hash( h, &g->rangeh, 8 );
  h = w_hash( h, g->range, 8 * ( np + 1 ) ); h = w_hash( h, g->neighbor, 48 * (size_t)g->nv );
  return w_hash( h, &g->step, 8 );
}

// every mesh location is driven by every rank that holds a copy of it
begin_current_injection {
  global->calls[0]++;
  if( !global->hooks ) return;
  int i = global->drive_i - global->me[0] * grid->nx + 1;
  if( i < 1 || i > grid->nx + 1 ) return;
  for( int k = 1; k <= grid->nz + 1; k++ ) for( int j = 1; j <= grid->ny; j++ ) field( i, j, k ).jfy += (float)( global->amp * sin( global->freq * step() ) );
}
begin_field_injection {
  global->calls[1]++;
  if( !global->hooks ) return;
  int i = global->drive_i - global->me[0] * grid->nx + 1;
  if( i < 1 || i > grid->nx + 1 ) return;
  for( int k = 1; k <= grid->nz; k++ ) for( int j = 1; j <= grid->ny + 1; j++ ) field( i, j, k ).ez += (float)( 0.1 * global->amp * cos( global->freq * step() ) );
}
begin_particle_injection {
  global->calls[2]++;
  if( !global->hooks || !species_list ) return;
  // one aged particle per step, placed by the step number
  uint64_t keep = w_s; w_s = 977 * step() + 5;
  double fx = w_u(), fy = w_u(), fz = w_u(), a = w_n() * 0.3, b = w_n() * 0.3, c = w_n() * 0.3, age = w_u(); w_s = keep;
  double X = grid->x0 + ( grid->x1 - grid->x0 ) * ( global->gp[0] * fx - global->me[0] ), Y = grid->y0 + ( grid->y1 - grid->y0 ) * ( global->gp[1] * fy - global->me[1] ), Z = grid->z0 + ( grid->z1 - grid->z0 ) * ( global->gp[2] * fz - global->me[2] );
  // the code may have shrunk the storage the deck asked for
  if( species_list->np + 2 >= species_list->max_np ) {
    particle_t *q; MALLOC_ALIGNED( q, species_list->np + 64, 128 ); COPY( q, species_list->p, species_list->np );
    FREE_ALIGNED( species_list->p ); species_list->p = q; species_list->max_np = species_list->np + 64;
  }
  inject_particle( species_list, X, Y, Z, a, b, c, ldexp( 1., -9 ) * ( 1 + ( 40000 + step() ) / 65536. ), age, 1 );
}
begin_particle_collisions {
  global->calls[3]++;
}

begin_diagnostics {
  const char *dir = getenv( "RV_OUT" );
  const char *tag = w_env( "RV_TAG", "t" );
  global->calls[4]++;
  int kind = atoi( w_env( "RV_TRACE", "1" ) ); // 1 digests, 2 also state images
  species_t *sp;
  for( int k = 0; k < 4; k++ ) global->hist[k] = global->hist[k] * 0.5 + field( 1, 1, 1 ).ex;
  if( dir && kind ) {
    char fn[512]; sprintf( fn, "%s/%s.%d.dig", dir, tag, rank() );
    FILE *f = fopen( fn, "a" );
    uint64_t h = 1469598103934665603ull, hf, hp = h;
    hf = w_hash( h, field_array->f, sizeof( field_t ) * grid->nv );
    fprintf( f, "%lld F %016llx", (long long)step(), (unsigned long long)hf );
    LIST_FOR_EACH( sp, species_list ) {
      hp = w_hash( h, sp->p, sizeof( particle_t ) * sp->np );
      fprintf( f, " S%d %lld %lld %016llx", (int)sp->id, (long long)sp->np, (long long)sp->nm, (unsigned long long)hp );
    }
    if( species_list ) fprintf( f, " I %016llx", (unsigned long long)w_hash( h, interpolator_array->i, sizeof( interpolator_t ) * grid->nv ) );
    fprintf( f, " U %016llx %016llx C", (unsigned long long)w_hash( h, global->hist, sizeof global->hist ), (unsigned long long)w_hash( h, global->calls, sizeof global->calls ) );
    fprintf( f, " %d %d %d %d %d %d %d %d %.17g %.9g", num_step, status_interval, clean_div_e_interval, num_div_e_round, clean_div_b_interval, num_div_b_round, sync_shared_interval, num_comm_round, grid->t0, grid->dt );
    uint64_t hs = w_settings( h, grid, nproc() );
    { int c[] = { verbose, checkpt_interval, hydro_interval, field_interval, particle_interval, ndfld, ndhyd, ndpar, ndhis, ndgrd, head_option, istride, jstride, kstride, stride_option, pstride, nprobe, block_dump, stepdigit, rankdigit, ifenergies };
      size_t z[] = { nxout, nyout, nzout, px, py, pz }; float o[] = { dxout, dyout, dzout };
      hs = w_hash( hs, c, sizeof c ); hs = w_hash( hs, z, sizeof z ); hs = w_hash( hs, o, sizeof o ); hs = w_hash( hs, &quota, 8 ); hs = w_hash( hs, ijkprobe, sizeof ijkprobe ); hs = w_hash( hs, xyzprobe, sizeof xyzprobe ); }
    fprintf( f, " G %016llx M", (unsigned long long)hs );
    LIST_FOR_EACH( sp, species_list ) {
      hs = w_hash( h, sp->name, strlen( sp->name ) ); float c[] = { sp->q, sp->m }; hs = w_hash( hs, c, sizeof c ); int64_t z[] = { sp->max_np, sp->max_nm, sp->last_sorted, sp->sort_interval, sp->sort_out_of_place }; hs = w_hash( hs, z, sizeof z );
      if( sp->partition && sp->last_sorted >= 0 ) for( int k = 1; k <= grid->nz; k++ ) for( int j = 1; j <= grid->ny; j++ ) hs = w_hash( hs, sp->partition + voxel( 1, j, k ), sizeof( int ) * ( grid->nx + 1 ) );
      fprintf( f, " %016llx", (unsigned long long)hs );
    }
    { uint64_t hm = h; material_t *m; LIST_FOR_EACH( m, material_list ) { float c[] = { m->epsx, m->epsy, m->epsz, m->mux, m->muy, m->muz, m->sigmax, m->sigmay, m->sigmaz, m->zetax, m->zetay, m->zetaz }; hm = w_hash( w_hash( hm, c, sizeof c ), m->name, strlen( m->name ) ); hm = w_hash( hm, &m->id, sizeof m->id ); }
      fprintf( f, " %016llx", (unsigned long long)hm ); }
    if( global->tally ) { int *t = get_absorb_tally( particle_bc_list ); fprintf( f, " T" ); for( int k = 0; k < global->tally; k++ ) fprintf( f, " %d", t[k] ); }
    double en[6]; field_array->kernel->energy_f( en, field_array );
    fprintf( f, " E" ); for( int k = 0; k < 6; k++ ) fprintf( f, " %.17g", en[k] );
    LIST_FOR_EACH( sp, species_list ) { double e = energy_p( sp, interpolator_array ); fprintf( f, " %.17g", e ); }
    if( step() == global->nfinal ) { // the generators' state shows in what they give next
      uint64_t hr = h; for( int k = 0; k < entropy->n_rng; k++ ) for( int q = 0; q < 300; q++ ) { uint32_t v = i32rand( entropy->rng[k] ); hr = w_hash( hr, &v, 4 ); }
      uint64_t hs = h; for( int k = 0; k < sync_entropy->n_rng; k++ ) for( int q = 0; q < 300; q++ ) { double v = drandn( sync_entropy->rng[k] ); hs = w_hash( hs, &v, 8 ); }
      fprintf( f, " R %016llx %016llx", (unsigned long long)hr, (unsigned long long)hs );
    }
    fprintf( f, "\n" ); fclose( f );
    if( kind > 1 ) {
      sprintf( fn, "%s/%s.%d.img", dir, tag, rank() );
      f = fopen( fn, "ab" );
      int32_t hd[16] = { 0x52564931, (int32_t)step(), grid->nx, grid->ny, grid->nz, global->me[0], global->me[1], global->me[2], global->gp[0], global->gp[1], global->gp[2], num_species( species_list ), 0, 0, 0, 0 };
      for( int k = 0; k < 4; k++ ) hd[12+k] = 0;
      fwrite( hd, 4, 16, f );
      std::vector<float> v;
      // charge densities as they are once synchronised; the state itself stays as it was
      std::vector<field_t> keep( field_array->f, field_array->f + grid->nv );
      field_array->kernel->clear_rhof( field_array );
      LIST_FOR_EACH( sp, species_list ) accumulate_rho_p( field_array, sp );
      field_array->kernel->synchronize_rho( field_array );
      for( int k = 1; k <= grid->nz + 1; k++ ) for( int j = 1; j <= grid->ny + 1; j++ ) for( int i = 1; i <= grid->nx + 1; i++ ) {
        field_t &q = field( i, j, k ); float a[16] = { q.ex, q.ey, q.ez, q.cbx, q.cby, q.cbz, q.tcax, q.tcay, q.tcaz, q.jfx, q.jfy, q.jfz, q.rhob, q.rhof, 0, 0 }; v.insert( v.end(), a, a + 16 );
      }
      fwrite( &v[0], 4, v.size(), f );
      memcpy( field_array->f, &keep[0], sizeof( field_t ) * keep.size() );
      LIST_FOR_EACH( sp, species_list ) {
        int32_t n2[2] = { (int32_t)sp->id, (int32_t)sp->np }; fwrite( n2, 4, 2, f );
        std::vector<double> u;
        for( int64_t k = 0; k < sp->np; k++ ) {
          particle_t &p = sp->p[k]; int c = p.i, ix = c % ( grid->nx + 2 ), iy = ( c / ( grid->nx + 2 ) ) % ( grid->ny + 2 ), iz = c / ( ( grid->nx + 2 ) * ( grid->ny + 2 ) );
          double a[8] = { global->me[0] * grid->nx + ix - 1 + 0.5 * ( 1. + p.dx ), global->me[1] * grid->ny + iy - 1 + 0.5 * ( 1. + p.dy ), global->me[2] * grid->nz + iz - 1 + 0.5 * ( 1. + p.dz ), p.ux, p.uy, p.uz, p.w, 0 };
          u.insert( u.end(), a, a + 8 );
        }
        if( u.size() ) fwrite( &u[0], 8, u.size(), f );
      }
      fclose( f );
    }
  }
  // extra activity that must not matter
  if( w_has( "RV_DUMP", 'x' ) ) {
    char fb[400]; const char *d = getenv( "RV_OUT" );
    sprintf( fb, "%s/%s_en", d, tag ); dump_energies( fb, step() ? 1 : 0 );
    sprintf( fb, "%s/%s_f", d, tag ); dump_fields( fb ); sprintf( fb, "%s/%s_g", d, tag ); dump_grid( fb );
    LIST_FOR_EACH( sp, species_list ) { sprintf( fb, "%s/%s_h%d", d, tag, (int)sp->id ); dump_hydro( sp->name, fb ); sprintf( fb, "%s/%s_p%d", d, tag, (int)sp->id ); dump_particles( sp->name, fb ); }
    sprintf( fb, "%s/%s_mat", d, tag ); dump_materials( fb ); sprintf( fb, "%s/%s_sp", d, tag ); dump_species( fb );
  }
  // dumps with drawn parameters, next to a record of what they have to say
  if( w_has( "RV_DUMP", 'c' ) ) {
    const char *d = getenv( "RV_OUT" );
    char fn[512], fb[400], ln[1024];
    sprintf( fn, "%s/%s.%d.dref", d, tag, rank() );
    char pre[300]; sprintf( pre, "%s/%s_s%d", d, tag, (int)step() );
    FILE *rf = fopen( fn, step() ? "ab" : "wb" );
    #define REC( n, ptr, ... ) do { sprintf( ln, __VA_ARGS__ ); fprintf( rf, "%s|%lld\n", ln, (long long)( n ) ); if( n ) fwrite( ptr, 1, n, rf ); } while( 0 )
    size_t keepz[6] = { nxout, nyout, nzout, px, py, pz }; float keepf[3] = { dxout, dyout, dzout };
    uint64_t kw = w_s; w_s = step() * 1299721 + (uint64_t)atoll( w_env( "RV_CASE", "1" ) );
    #define HASHES( o ) do { const uint64_t hb_ = 1469598103934665603ull; \
      o[0] = w_hash( hb_, field_array->f, sizeof( field_t ) * grid->nv ); o[1] = w_hash( hb_, grid, sizeof *grid ); o[2] = w_settings( hb_, grid, nproc() ); \
      o[3] = species_list ? w_hash( hb_, interpolator_array->i, sizeof( interpolator_t ) * grid->nv ) : 0; \
      o[4] = species_list ? w_hash( hb_, accumulator_array->a, sizeof( accumulator_t ) * grid->nv ) : 0; o[5] = o[6] = hb_; \
      species_t *s_; LIST_FOR_EACH( s_, species_list ) { o[5] = w_hash( o[5], s_->p, sizeof( particle_t ) * s_->np ); o[5] = w_hash( o[5], s_->pm, sizeof( particle_mover_t ) * s_->nm ); o[6] = w_hash( o[6], s_, sizeof *s_ ); } } while( 0 )
    static const char *hn[] = { "fields", "grid record", "grid tables", "interpolators", "accumulators", "particles", "species record" };
    uint64_t h0[7], h1[7];
    #define WATCH( k, what ) do { HASHES( h1 ); for( int q_ = 0; q_ < 7; q_++ ) if( h0[q_] != h1[q_] ) REC( 0, "", "CHANGED %s by %s", hn[q_], what ); } while( 0 )
    REC( 0, "", "STEP %lld", (long long)step() );
    REC( 0, "", "GRID %d %d %d %.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g %d %d", grid->nx, grid->ny, grid->nz, grid->dt, grid->dx, grid->dy, grid->dz, grid->x0, grid->y0, grid->z0, grid->cvac, grid->eps0, rank(), nproc() );
    REC( 0, "", "EXT %.9g %.9g %.9g", grid->x1, grid->y1, grid->z1 );
    REC( 27 * 4, grid->bc, "BC" ); REC( 8 * ( nproc() + 1 ), grid->range, "RANGE" ); REC( 48 * (size_t)grid->nv, grid->neighbor, "NEIGHBOR" );
    REC( sizeof( field_t ) * grid->nv, field_array->f, "FIELD" );
    std::vector<field_t> f2( field_array->f, field_array->f + grid->nv );
    for( int k = 0; k < grid->nv; k++ ) { float *q = &f2[k].ex; for( int c = 0; c < 16; c++ ) q[c] = 100 * k + c; f2[k].ematx = k; f2[k].fmaty = -k; f2[k].nmat = 3 * k; f2[k].cmat = 7; }
    REC( sizeof( field_t ) * grid->nv, &f2[0], "FIELD2" );
    double en[6]; field_array->kernel->energy_f( en, field_array );
    std::string es; for( int k = 0; k < 6; k++ ) { sprintf( fn, " %.17g", en[k] ); es += fn; }
    LIST_FOR_EACH( sp, species_list ) { sprintf( fn, " %.17g", energy_p( sp, interpolator_array ) ); es += fn; }
    REC( 0, "", "ENERGY%s", es.c_str() );
    std::vector<hydro_t> hy;
    LIST_FOR_EACH( sp, species_list ) {
      REC( 0, "", "SPECIES %d %.9g %.9g %s", (int)sp->id, sp->q, sp->m, sp->name );
      std::vector<particle_t> keep( sp->p, sp->p + sp->np );
      particle_t *q; MALLOC_ALIGNED( q, sp->np + 64, 128 ); memcpy( q, sp->p, sizeof( particle_t ) * sp->np );
      species_t c = *sp; c.p = q; c.max_np = c.np + 64; center_p( &c, interpolator_array );
      REC( sizeof( particle_t ) * sp->np, q, "PART %d", (int)sp->id );
      FREE_ALIGNED( q );
      clear_hydro_array( hydro_array ); accumulate_hydro_p( hydro_array, sp, interpolator_array ); synchronize_hydro_array( hydro_array );
      hy.assign( hydro_array->h, hydro_array->h + grid->nv );
      REC( sizeof( hydro_t ) * grid->nv, &hy[0], "HYDRO %d", (int)sp->id );
      for( int k = 0; k < grid->nv; k++ ) { float *z = &hydro_array->h[k].jx; for( int c = 0; c < 14; c++ ) z[c] = 1e6f + c; }
    }
    std::vector<hydro_t> hy2( grid->nv );
    memset( &hy2[0], 0, sizeof( hydro_t ) * grid->nv );
    for( int k = 0; k < grid->nv; k++ ) { float *z = &hy2[k].jx; for( int c = 0; c < 14; c++ ) z[c] = 1000 * k + c; }
    REC( sizeof( hydro_t ) * grid->nv, &hy2[0], "HYDRO2" );
    { material_t *m; LIST_FOR_EACH( m, material_list ) REC( 0, "", "MATERIAL %d %.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g %s", (int)m->id, m->epsx, m->epsy, m->epsz, m->mux, m->muy, m->muz, m->sigmax, m->sigmay, m->sigmaz, m->name ); }
    HASHES( h0 );
    sprintf( fb, "%s/%s_en", d, tag ); dump_energies( fb, step() ? 1 : 0 ); REC( 0, "", "D energies %s", fb ); WATCH( 0, "dump_energies" );
    sprintf( fb, "%s_sp", pre ); dump_species( fb ); REC( 0, "", "D species %s", fb ); WATCH( 0, "dump_species" );
    sprintf( fb, "%s_mat", pre ); dump_materials( fb ); REC( 0, "", "D materials %s", fb ); WATCH( 0, "dump_materials" );
    sprintf( fb, "%s_g", pre ); dump_grid( fb ); REC( 0, "", "D grid %s.%d", fb, rank() ); WATCH( 0, "dump_grid" );
    for( int own = 0; own < 2; own++ ) {
      int ft = w_i( 0, 1 );
      sprintf( fb, "%s_f%d", pre, own ); dump_fields( fb, ft, own ? &f2[0] : NULL );
      if( ft ) sprintf( fb, "%s_f%d.%d.%d", pre, own, (int)step(), rank() ); else sprintf( fb, "%s_f%d.%d", pre, own, rank() );
      REC( 0, "", "D fields %s FIELD%s", fb, own ? "2" : "" ); WATCH( 0, "dump_fields" );
      LIST_FOR_EACH( sp, species_list ) {
        ft = w_i( 0, 1 );
        sprintf( fb, "%s_h%d_%d", pre, (int)sp->id, own ); dump_hydro( sp->name, fb, ft, own ? &hy2[0] : NULL );
        if( ft ) sprintf( fb, "%s_h%d_%d.%d.%d", pre, (int)sp->id, own, (int)step(), rank() ); else sprintf( fb, "%s_h%d_%d.%d", pre, (int)sp->id, own, rank() );
        if( own ) REC( 0, "", "D hydro %s HYDRO2 %d", fb, (int)sp->id ); else REC( 0, "", "D hydro %s HYDRO %d", fb, (int)sp->id );
        WATCH( 0, "dump_hydro" );
        if( own ) continue;
        ft = w_i( 0, 1 );
        sprintf( fb, "%s_p%d", pre, (int)sp->id ); dump_particles( sp->name, fb, ft );
        if( ft ) sprintf( fb, "%s_p%d.%d.%d", pre, (int)sp->id, (int)step(), rank() ); else sprintf( fb, "%s_p%d.%d", pre, (int)sp->id, rank() );
        REC( 0, "", "D particles %s %d", fb, (int)sp->id ); WATCH( 0, "dump_particles" );
      }
    }
    std::vector<DumpParameters *> hv; DumpParameters dps[8];
    int ng = w_i( 2, 4 );
    for( int q = 0; q < ng; q++ ) {
      DumpParameters &p = dps[q];
      size_t n3[3] = { (size_t)grid->nx, (size_t)grid->ny, (size_t)grid->nz }, st[3];
      for( int a = 0; a < 3; a++ ) { do st[a] = w_i( 0, 2 ) ? (size_t)w_i( 1, (int)n3[a] ) : 1; while( n3[a] % st[a] ); if( st[a] == n3[a] && w_i( 0, 1 ) ) st[a] = 1; }
      if( w_i( 0, 2 ) == 0 ) st[0] = st[1] = st[2] = 1;
      p.stride_x = st[0]; p.stride_y = st[1]; p.stride_z = st[2];
      p.format = w_i( 0, 2 ) ? band : band_interleave;
      uint32_t bits = w_i( 0, 3 ) == 0 ? all : ( (uint32_t)w_next() & ( q ? 0x3fff : 0xffffff ) ), shown = bits;
      if( w_i( 0, 3 ) == 0 ) bits = shown = 1u << w_i( 0, q ? 13 : 23 );
      p.output_vars.clear( 0xffffffff ); p.output_variables( bits );
      sprintf( p.name, "n%d", q ); sprintf( p.baseDir, "%s", tag ); sprintf( p.baseFileName, "b%d", q );
      hv.push_back( &p );
    }
    char strl[2000];
    create_field_list( strl, dps[0] ); REC( 0, "", "FLIST %u %s", (unsigned)dps[0].output_vars.set( 0 ), strl );
    create_hydro_list( strl, dps[1] ); REC( 0, "", "HLIST %u %s", (unsigned)dps[1].output_vars.set( 0 ), strl );
    sprintf( fb, "%s_vpc", pre ); global_header( fb, hv );
    { std::string b; for( int q = 0; q < ng; q++ ) { sprintf( fn, " %u", (unsigned)dps[q].output_vars.set( 0 ) ); b += fn; }
      REC( 0, "", "D header %s.vpc %d %d %d%s", fb, (int)px, (int)py, (int)pz, b.c_str() ); WATCH( 0, "global_header" ); }
    if( !rank() ) dump_mkdir( tag ); barrier();
    for( int q = 0; q < ng; q++ ) {
      DumpParameters &p = dps[q];
      int own = w_i( 0, 2 ) == 0; int64_t us = w_i( 0, 2 ) ? -1 : w_i( 0, 100000 ); long ds = us == -1 ? (long)step() : (long)us;
      int k = 0, pick = species_list ? w_i( 0, num_species( species_list ) - 1 ) : 0; species_t *s1 = NULL;
      LIST_FOR_EACH( sp, species_list ) if( k++ == pick ) s1 = sp;
      if( q == 0 ) field_dump( p, own ? &f2[0] : NULL, us ); else if( s1 ) hydro_dump( s1->name, p, own ? &hy2[0] : NULL, us ); else continue;
      sprintf( fn, "%s/T.%ld/%s.%ld.%d", p.baseDir, ds, p.baseFileName, ds, rank() ); sprintf( strl, "%s/%s_step%d_q%d.%d", d, tag, (int)step(), q, rank() ); rename( fn, strl );
      char src[16]; if( q == 0 ) sprintf( src, "FIELD%s", own ? "2" : "" ); else if( own ) sprintf( src, "HYDRO2" ); else sprintf( src, "HYDRO %d", (int)s1->id );
      REC( 0, "", "D banded %s %s %ld %d %d %d %u %d,%s", strl, p.format == band ? "band" : "interleave", ds, (int)p.stride_x, (int)p.stride_y, (int)p.stride_z, (unsigned)p.output_vars.set( 0 ), q && s1 ? (int)s1->id : -1, src );
      WATCH( 0, q ? "hydro_dump" : "field_dump" );
    }
    fclose( rf );
    barrier();
    nxout = keepz[0], nyout = keepz[1], nzout = keepz[2], px = keepz[3], py = keepz[4], pz = keepz[5]; dxout = keepf[0], dyout = keepf[1], dzout = keepf[2]; w_s = kw;
  }
  const char *ck = getenv( "RV_CKPT" );
  if( ck && step() > 0 ) { // "all" or a comma list of steps
    bool hit = !strcmp( ck, "all" ); char b[32]; sprintf( b, ",%d,", (int)step() ); std::string l = std::string( "," ) + ck + ","; if( l.find( b ) != std::string::npos ) hit = true;
    if( hit ) { char fb[400]; sprintf( fb, "%s/ck", w_env( "RV_CKDIR", dir ? dir : "." ) ); checkpt( fb, (int)step() ); }
  }
#ifdef RV_RES
  { char b[512]; sprintf( b, "%s/%s.%d", dir ? dir : ".", tag, rank() ); rv_res_step( b, (long)step() ); }
  if( rv_res_log ) LIST_FOR_EACH( sp, species_list ) fprintf( rv_res_log, "P %ld %d %d %d %d %d\n", (long)step(), (int)sp->id, sp->np, sp->max_np, sp->nm, sp->max_nm );
#endif
}
