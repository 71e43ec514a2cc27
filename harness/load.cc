// Complete simulations created one after the other through the input deck
// interface, to watch what the deck helpers do to the state.
#include "rv.h"
#define IN_emitter
#include "src/emitter/emitter_private.h"
#include "deck/wrapper.h"
using namespace rv;

static Rng rr, lr;          // common to all ranks / this rank's own
static std::string ctx;
static int GP[3], ME[3], LN[3], GN[3];
static double X0[3], X1[3], D[3], DT;
static int kind, pface[6], fface[6], wrap_[3];
static int stage, nhook, failed;

static double loc( int a, int i, double half ) { return X0[a] + D[a] * ( ME[a] * LN[a] + i - 1 + half ); }

// ---- regions: negative inside
struct Shape {
  int t; double a, b, c, d, e, h; Shape *p, *q;
  double f( double x, double y, double z ) const {
    switch( t ) {
    case 0: return -1e30;
    case 1: return 1e30;
    case 2: return a * x + b * y + c * z - d;
    case 3: return sqrt( ( x - a ) * ( x - a ) + ( y - b ) * ( y - b ) + ( z - c ) * ( z - c ) ) - d;
    case 4: return std::max( std::max( fabs( x - a ) - d, fabs( y - b ) - e ), fabs( z - c ) - h );
    case 5: return std::max( p->f( x, y, z ), q->f( x, y, z ) );
    case 6: return std::min( p->f( x, y, z ), q->f( x, y, z ) );
    case 7: return -p->f( x, y, z );
    // written out as expressions at the call
    case 8: return std::max( x - a, b - y );           // x<a && y>b
    case 9: return std::min( x - a, b - z );           // x<a || z>b
    case 10: return ( a * x + b * y ) - c;             // a*x+b*y<c
    }
    return 1e30;
  }
  bool in( double x, double y, double z ) const { return f( x, y, z ) < 0; }
  std::string str() const { static const char *n[] = { "all", "none", "half", "ball", "box", "and", "or", "not", "x<&&y>", "x<||z>", "lin" }; return n[t]; }
};
static std::vector<Shape*> shapes;
static Shape S; // the region in use

static Shape *draw_shape( int depth ) {
  Shape *s = new Shape; shapes.push_back( s );
  memset( (void*)s, 0, sizeof *s );
  double c[3], L[3]; for( int a = 0; a < 3; a++ ) { L[a] = X1[a] - X0[a]; c[a] = X0[a] + L[a] * rr.u( -0.1, 1.1 ); }
  bool onmesh = rr.chance( 0.4 ); // planes through cell faces or centers
  if( onmesh ) for( int a = 0; a < 3; a++ ) c[a] = X0[a] + D[a] * 0.5 * rr.i( -1, 2 * GN[a] + 1 );
  static const int top[] = { 0, 1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 7, 8, 9, 10 };
  s->t = depth ? rr.i( 2, 4 ) : top[ rr.i( 0, 14 ) ];
  double k[3] = { rr.n(), rr.n(), rr.n() };
  if( rr.chance( 0.5 ) ) { int a = rr.i( 0, 2 ); double sg = rr.chance( 0.5 ) ? 1 : -1; for( int q = 0; q < 3; q++ ) k[q] = q == a ? sg : 0; }
  double n = sqrt( k[0] * k[0] + k[1] * k[1] + k[2] * k[2] );
  switch( s->t ) {
  case 2: s->a = k[0] / n; s->b = k[1] / n; s->c = k[2] / n; s->d = s->a * c[0] + s->b * c[1] + s->c * c[2]; break;
  case 3: s->a = c[0]; s->b = c[1]; s->c = c[2]; s->d = rr.u( 0.3, 0.7 ) * std::max( L[0], std::max( L[1], L[2] ) ); break;
  case 4: s->a = c[0]; s->b = c[1]; s->c = c[2]; s->d = D[0] * ( onmesh ? 0.5 * rr.i( 1, 2 * GN[0] ) : rr.u( 0.2, 1 ) * GN[0] ); s->e = D[1] * rr.u( 0.2, 1 ) * GN[1]; s->h = D[2] * rr.u( 0.2, 1 ) * GN[2]; break;
  case 5: case 6: s->p = draw_shape( 1 ); s->q = draw_shape( 1 ); break;
  case 7: s->p = draw_shape( 1 ); break;
  case 8: s->a = c[0]; s->b = c[1]; break;
  case 9: s->a = c[0]; s->b = c[2]; break;
  case 10: { double l = hypot( k[0], k[1] ); if( l < 1e-3 ) { k[0] = 1; k[1] = 0; l = 1; } s->a = k[0] / l; s->b = k[1] / l; s->c = s->a * c[0] + s->b * c[1]; } break;
  }
  return s;
}

// 1 in, 0 out, -1 too close to the surface to say
static int where( double x, double y, double z ) {
  double h = 2e-4 * std::min( D[0], std::min( D[1], D[2] ) ), v = S.f( x, y, z );
  return v > h ? 0 : v < -h ? 1 : -1;
}
static int cell_in( int i, int j, int k ) { return where( loc( 0, i, 0.5 ), loc( 1, j, 0.5 ), loc( 2, k, 0.5 ) ); }

#define OVER_SHAPES( DO ) \
  if( S.t == 0 )       { DO( everywhere ); } \
  else if( S.t == 8 )  { DO( x < S.a && y > S.b ); } \
  else if( S.t == 9 )  { DO( x < S.a || z > S.b ); } \
  else if( S.t == 10 ) { DO( S.a * x + S.b * y < S.c ); } \
  else                 { DO( S.in( x, y, z ) ); }

// ---- equations of fields
static double Q[6][5], QK[3];
static double eqn( int c, double x, double y, double z ) { return Q[c][0] + Q[c][1] * x + Q[c][2] * y + Q[c][3] * z + Q[c][4] * sin( QK[0] * x + QK[1] * y + QK[2] * z ); }

struct MComp { const char *n; int h[3]; material_id field_t::*m; };
struct FComp { const char *n; int h[3]; float field_t::*m; };
static const MComp MC[8] = {
  { "nmat", {0,0,0}, &field_t::nmat }, { "ematx", {1,0,0}, &field_t::ematx }, { "ematy", {0,1,0}, &field_t::ematy }, { "ematz", {0,0,1}, &field_t::ematz },
  { "fmatx", {0,1,1}, &field_t::fmatx }, { "fmaty", {1,0,1}, &field_t::fmaty }, { "fmatz", {1,1,0}, &field_t::fmatz }, { "cmat", {1,1,1}, &field_t::cmat } };
static const FComp FC[6] = {
  { "ex", {1,0,0}, &field_t::ex }, { "ey", {0,1,0}, &field_t::ey }, { "ez", {0,0,1}, &field_t::ez },
  { "cbx", {0,1,1}, &field_t::cbx }, { "cby", {1,0,1}, &field_t::cby }, { "cbz", {1,1,0}, &field_t::cbz } };

static int all_in, any_in; // over the cells around a location; -1 unknown
static void around( const int h[3], int i, int j, int k ) {
  all_in = 1; any_in = 0; bool un = false;
  for( int c = h[2] ? k : k - 1; c <= k; c++ ) for( int b = h[1] ? j : j - 1; b <= j; b++ ) for( int a = h[0] ? i : i - 1; a <= i; a++ ) {
    int w = cell_in( a, b, c ); if( w < 0 ) un = true; if( w == 0 ) all_in = 0; if( w == 1 ) any_in = 1;
  }
  if( un ) all_in = any_in = -1;
}

// what an emitter was told to emit from
static std::vector<int32_t> emitted; static int emit_calls, emit_deleted;
static void rec_emit( void *, const int32_t *c, int n ) { emit_calls++; emitted.assign( c, c + n ); }
static void rec_delete( emitter_t *e ) { emit_deleted++; delete_emitter_internal( e ); }
static emitter_t *recorder() { static int prm; return new_emitter_internal( &prm, rec_emit, rec_delete, NULL, NULL, NULL ); }

// ---- injection
struct Inj { double id, x[3], u[3], w, age; int rhob, sp; };
static std::vector<Inj> aged; static std::vector<double> faces[3]; // faces of the ranks
static double wbase;
static int ncheck_after;

static int same( const void *a, const void *b, size_t n ) { return !memcmp( a, b, n ); }

static void setup( vpic_simulation *s ) {} // (placeholder so that the hooks below read in order)

begin_globals { int unused; };

begin_initialization {
  (void)num_cmdline_arguments; (void)cmdline_argument; (void)global; setup( this );
  verbose = 0;
  // ---- the box
  int left = nproc(); for( int a = 0; a < 3; a++ ) GP[a] = 1;
  for( int f = 2; left > 1; ) { if( left % f ) { f++; continue; } GP[ rr.i( 0, 2 ) ] *= f; left /= f; }
  { int r = rank(); for( int a = 0; a < 3; a++ ) { ME[a] = r % GP[a]; r /= GP[a]; } }
  bool exact = rr.chance( 0.5 );
  for( int a = 0; a < 3; a++ ) {
    LN[a] = GP[a] > 1 ? rr.i( 2, 5 ) : rr.i( 1, 6 ); GN[a] = LN[a] * GP[a];
    X0[a] = exact ? rr.i( -3, 3 ) : rr.u( -3, 3 ); D[a] = exact ? ( rr.chance( 0.5 ) ? 0.5 : 1 ) : rr.u( 0.4, 1.5 ); X1[a] = X0[a] + D[a] * GN[a];
  }
  double cv = exact ? 1 : rr.u( 0.5, 2 ), ep = exact ? 1 : rr.u( 0.5, 2 ), t0 = rr.chance( 0.5 ) ? 0 : rr.u( -5, 5 ); int64_t st0 = rr.chance( 0.7 ) ? 0 : rr.i( 1, 1000 );
  DT = rr.u( 0.3, 0.9 ) * courant_length( X1[0] - X0[0], X1[1] - X0[1], X1[2] - X0[2], GN[0], GN[1], GN[2] ) / cv;
  if( !( DT > 0 && DT < 1e3 ) ) DT = 0.4 * std::min( D[0], std::min( D[1], D[2] ) ) / cv; // a single cell
  define_units( cv, ep );
  define_timestep( DT, t0, st0 );
  num_step = (int)st0 + ( opt_mode == "inject" ? 3 : 0 ); clean_div_e_interval = clean_div_b_interval = sync_shared_interval = 0;
  if( grid->cvac != (float)cv || grid->eps0 != (float)ep || grid->dt != (float)DT || grid->t0 != t0 || grid->step != st0 || step() != st0 || time() != t0 + (double)(float)DT * st0 )
    viol( "define", ctx + ": define_units or define_timestep did not set what was asked" );
  int pbc = rr.chance( 0.5 ) ? reflect_particles : absorb_particles;
  kind = rr.i( 0, 2 );
  if( kind == 0 ) define_periodic_grid( X0[0], X0[1], X0[2], X1[0], X1[1], X1[2], GN[0], GN[1], GN[2], GP[0], GP[1], GP[2] );
  if( kind == 1 ) define_absorbing_grid( X0[0], X0[1], X0[2], X1[0], X1[1], X1[2], GN[0], GN[1], GN[2], GP[0], GP[1], GP[2], pbc );
  if( kind == 2 ) define_reflecting_grid( X0[0], X0[1], X0[2], X1[0], X1[1], X1[2], GN[0], GN[1], GN[2], GP[0], GP[1], GP[2] );
  for( int f = 0; f < 6; f++ ) {
    pface[f] = kind == 1 ? pbc : reflect_particles; fface[f] = kind == 1 ? absorb_fields : (int)pec_fields;
    int a = f % 3, b = f < 3 ? BOUNDARY( a == 0 ? -1 : 0, a == 1 ? -1 : 0, a == 2 ? -1 : 0 ) : BOUNDARY( a == 0, a == 1, a == 2 );
    bool edge = f < 3 ? ME[a] == 0 : ME[a] == GP[a] - 1;
    wrap_[a] = kind == 0 || GN[a] == 1; // axes of a single cell are periodic
    if( rr.chance( 0.25 ) && !wrap_[a] ) { // the deck's own choice for this wall
      int v = rr.chance( 0.5 ) ? reflect_particles : absorb_particles;
      { pface[f] = v; if( edge ) set_domain_particle_bc( b, v ); }
      int fb = rr.chance( 0.3 ) ? (int)symmetric_fields : rr.chance( 0.5 ) ? (int)pmc_fields : (int)pec_fields;
      if( kind == 2 && rr.chance( 0.5 ) ) { fface[f] = fb; if( edge ) set_domain_field_bc( b, fb ); if( edge && grid->bc[b] != fb ) viol( "define", ctx + ": set_domain_field_bc did not set the boundary" ); }
    }
    if( edge && ( grid->bc[b] >= 0 ) != ( wrap_[a] != 0 ) ) viol( "define", ctx + ": an outer wall is joined to a rank, or an axis that should be periodic is not" );
  }
  if( (int)px != GP[0] || (int)py != GP[1] || (int)pz != GP[2] ) viol( "define", ctx + ": px, py, pz differ from the topology" );
  if( grid->nx != LN[0] || grid->ny != LN[1] || grid->nz != LN[2] ) viol( "define", ctx + ": the local grid has another size" );
  ctx += fmt( " kind=%d n=%d,%d,%d topo=%d,%d,%d", kind, GN[0], GN[1], GN[2], GP[0], GP[1], GP[2] );
  // ---- materials and species
  std::vector<material_t*> mats; int nm = rr.i( 1, 6 ); static const char *mname[] = { "vac", "glass", "a b", "x", "iron_42", "q" };
  for( int m = 0; m < nm; m++ ) {
    double v[12]; for( int k = 0; k < 12; k++ ) v[k] = rr.u( 0.1, 3 );
    bool iso = rr.chance( 0.4 ); int na = rr.i( 0, 3 ); material_t *o;
    if( iso ) {
      o = na == 0 ? define_material( mname[m], v[0] ) : na == 1 ? define_material( mname[m], v[0], v[3] ) : na == 2 ? define_material( mname[m], v[0], v[3], v[6] ) : define_material( mname[m], v[0], v[3], v[6], v[9] );
      if( na < 1 ) v[3] = 1; if( na < 2 ) v[6] = 0; if( na < 3 ) v[9] = 0;
      for( int k = 0; k < 12; k += 3 ) v[k + 1] = v[k + 2] = v[k];
    } else {
      bool z = na == 0; if( z ) v[9] = v[10] = v[11] = 0;
      o = z ? define_material( mname[m], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8] ) : define_material( mname[m], v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11] );
    }
    const float g[12] = { o->epsx, o->epsy, o->epsz, o->mux, o->muy, o->muz, o->sigmax, o->sigmay, o->sigmaz, o->zetax, o->zetay, o->zetaz };
    for( int k = 0; k < 12; k++ ) if( g[k] != (float)v[k] ) viol( "define", ctx + fmt( ": define_material %s constant %d is %g for %g", mname[m], k, g[k], v[k] ) );
    if( lookup_material( mname[m] ) != o || lookup_material( o->id ) != o || o->id != m ) viol( "define", ctx + fmt( ": material %s not found by name or id", mname[m] ) );
    mats.push_back( o );
  }
  if( lookup_material( "nothing" ) || lookup_material( (material_id)nm ) ) viol( "define", ctx + ": a material that was not defined was found" );
  define_field_array( NULL, 0 );
  int ns = rr.i( 1, 3 ); std::vector<species_t*> sps; static const char *sname[] = { "electron", "ion", "He 2+" };
  for( int s = 0; s < ns; s++ ) {
    double q = opt_mode == "inject" ? ( s & 1 ? 1e-12 : -1e-12 ) * rr.u( 0.5, 2 ) : rr.u( -2, 2 ), m = rr.u( 0.5, 5 ); int np = rr.chance( 0.1 ) ? rr.i( 60000, 150000 ) : rr.i( 500, 2000 ), mv = rr.chance( 0.5 ) ? -1 : 3000, so = rr.i( 0, 40 ), oop = rr.i( 0, 1 );
    species_t *sp = define_species( sname[s], q, m, np, mv, so, oop );
    if( sp->q != (float)q || sp->m != (float)m || sp->max_np != np || sp->sort_interval != so || sp->sort_out_of_place != oop || sp->np || sp->nm || strcmp( sp->name, sname[s] ) || sp->id != s || sp->g != grid )
      viol( "define", ctx + fmt( ": define_species %s did not set what was asked", sname[s] ) );
    if( mv > 0 ? sp->max_nm != mv : sp->max_nm < std::max( 2 * np / 25, 16 * ( MAX_PIPELINE + 1 ) ) ) viol( "define", ctx + fmt( ": species %s has %d movers", sname[s], sp->max_nm ) );
    if( find_species( sname[s] ) != sp || find_species( s ) != sp ) viol( "define", ctx + fmt( ": species %s not found", sname[s] ) );
    sps.push_back( sp );
  }
  if( find_species( "muon" ) || find_species( ns ) ) viol( "define", ctx + ": a species that was not defined was found" );
  count( "definitions_checked" );
  seed_entropy( rr.i( 0, 1000 ) );

  if( opt_mode == "inject" ) {
    // where the ranks meet, as the ranks themselves have it
    for( int a = 0; a < 3; a++ ) {
      float lo = a == 0 ? grid->x0 : a == 1 ? grid->y0 : grid->z0, hi = a == 0 ? grid->x1 : a == 1 ? grid->y1 : grid->z1; int mine[2]; memcpy( mine, &lo, 4 ); memcpy( mine + 1, &hi, 4 );
      std::vector<int> all( 2 * nproc() ); mp_allgather_i( mine, &all[0], 2 );
      faces[a].assign( GP[a] + 1, 0. ); std::vector<char> has( GP[a] + 1, 0 );
      for( int r = 0; r < nproc(); r++ ) {
        int q = a == 0 ? r % GP[0] : a == 1 ? r / GP[0] % GP[1] : r / GP[0] / GP[1];
        for( int e = 0; e < 2; e++ ) { float f; memcpy( &f, &all[2 * r + e], 4 ); if( has[q + e] && faces[a][q + e] != (double)f ) viol( "faces", ctx + fmt( ": ranks disagree where face %d of axis %d is", q + e, a ) ); faces[a][q + e] = f; has[q + e] = 1; }
      }
      if( fabs( faces[a][0] - X0[a] ) > 1e-6 * ( 1 + fabs( X0[a] ) ) || fabs( faces[a][GP[a]] - X1[a] ) > 1e-6 * ( 1 + fabs( X1[a] ) ) ) viol( "faces", ctx + ": the box is not where it was asked" );
    }
    int n = 120;
    std::vector<field_t> f0( grid->nv ); std::vector<accumulator_t> a0( (size_t)accumulator_array->stride );
    for( int k = 0; k < n; k++ ) {
      int s = rr.i( 0, ns - 1 ); species_t *sp = sps[s]; double x[3]; std::string how;
      bool lohi = false;
      for( int a = 0; a < 3; a++ ) {
        int c = rr.i( 0, 11 ); double v; (void)lohi;
        if( c < 5 ) v = X0[a] + ( X1[a] - X0[a] ) * rr.u();
        else if( c == 5 ) v = X0[a] + D[a] * rr.i( 0, GN[a] );
        else if( c == 6 ) v = faces[a][ rr.i( 0, GP[a] ) ];
        else if( c == 7 ) v = nextafter( faces[a][ rr.i( 0, GP[a] ) ], rr.chance( 0.5 ) ? 1e30 : -1e30 );
        else if( c == 8 ) v = nextafterf( (float)faces[a][ rr.i( 0, GP[a] ) ], rr.chance( 0.5 ) ? 1e30f : -1e30f );
        else if( c == 9 ) v = X0[a] + D[a] * ( rr.i( 0, GN[a] - 1 ) + 1e-9 * rr.i( 0, 3 ) + ( rr.chance( 0.5 ) ? 0 : 1 - 2e-9 ) );
        else if( c == 10 ) v = X0[a] + D[a] * ( rr.i( 0, GN[a] - 1 ) + 0.5 );
        else v = rr.chance( 0.7 ) ? X0[a] + ( X1[a] - X0[a] ) * rr.u() : rr.chance( 0.5 ) ? X0[a] - exp( rr.u( -9, 5 ) ) : X1[a] + exp( rr.u( -9, 5 ) );
        x[a] = v; how += fmt( "%d,", c );
      }
      double u[3] = { rr.n(), rr.n(), rr.n() * rr.u( 0, 30 ) }, w = rr.chance( 0.1 ) ? 0 : rr.u( 0.1, 4 ); int rh = rr.i( 0, 1 ); bool dflt = rr.chance( 0.2 );
      int own = 1, open = 1; // inside the box; by this rank
      for( int a = 0; a < 3; a++ ) {
        const std::vector<double> &F = faces[a];
        bool in = x[a] >= F[0] && ( x[a] < F[GP[a]] || ( x[a] == F[GP[a]] && !wrap_[a] ) );
        if( !in ) open = 0;
        if( !( x[a] >= F[ME[a]] && ( x[a] < F[ME[a] + 1] || ( x[a] == F[ME[a] + 1] && ME[a] == GP[a] - 1 ) ) ) ) own = 0;
      }
      own = own && open;
      std::string c1 = ctx + fmt( " particle %d at (%.17g,%.17g,%.17g) [%s] charge=%d", k, x[0], x[1], x[2], how.c_str(), dflt ? 2 : rh );
      memcpy( (void*)&f0[0], field_array->f, grid->nv * sizeof( field_t ) ); memcpy( (void*)&a0[0], accumulator_array->a, accumulator_array->stride * sizeof( accumulator_t ) );
      std::vector<int> np0; for( int q = 0; q < ns; q++ ) np0.push_back( sps[q]->np );
      std::vector<particle_t> keep( sp->p, sp->p + sp->np );
      if( dflt ) { rh = 1; inject_particle( sp, x[0], x[1], x[2], u[0], u[1], u[2], w ); } else inject_particle( sp, x[0], x[1], x[2], u[0], u[1], u[2], w, 0, rh );
      int got = sp->np - np0[s];
      for( int q = 0; q < ns; q++ ) if( q != s && sps[q]->np != np0[q] ) viol( "stored", c1 + ": another species changed" );
      if( keep.size() && !same( &keep[0], sp->p, keep.size() * sizeof( particle_t ) ) ) viol( "stored", c1 + ": particles already there changed" );
      if( sp->nm ) viol( "stored", c1 + ": left a mover behind" );
      if( got != own ) viol( "stored", c1 + fmt( ": stored %d times by rank %d, expected %d", got, rank(), own ) );
      int tot; mp_allsum_i( &got, &tot, 1 );
      if( tot != open ) viol( "stored", c1 + fmt( ": stored %d times over all ranks, the position is %s the box", tot, open ? "inside" : "outside" ) );
      double dq[8] = { 0 }; int nd[8], have = 0;
      if( got == 1 ) {
        const particle_t &p = sp->p[sp->np - 1]; int ci[3], sz = ( LN[0] + 2 ) * ( LN[1] + 2 ); ci[2] = p.i / sz; ci[1] = p.i % sz / ( LN[0] + 2 ); ci[0] = p.i % ( LN[0] + 2 );
        const float o[3] = { p.dx, p.dy, p.dz }; double fr[3];
        for( int a = 0; a < 3; a++ ) {
          double c = ( x[a] - faces[a][ME[a]] ) * LN[a] / ( faces[a][ME[a] + 1] - faces[a][ME[a]] );
          double g = ci[a] - 1 + 0.5 * ( 1 + (double)o[a] ); fr[a] = 0.5 * ( 1 + (double)o[a] );
          if( ci[a] < 1 || ci[a] > LN[a] || !( o[a] >= -1 && o[a] <= 1 ) ) viol( "placed", c1 + fmt( ": axis %d cell %d offset %g", a, ci[a], o[a] ) );
          if( !( fabs( g - c ) < 1.3e-7 ) ) viol( "placed", c1 + fmt( ": axis %d is %g cells off", a, g - c ) );
          if( fabs( c - floor( c + 0.5 ) ) > 1e-11 && ci[a] != (int)floor( c ) + 1 ) viol( "placed", c1 + fmt( ": axis %d in cell %d for cell coordinate %.12g", a, ci[a], c ) );
          if( exact && c == floor( c ) && c < LN[a] && ( ci[a] != (int)c + 1 ) ) viol( "placed", c1 + fmt( ": axis %d face %g belongs to the cell above it, found in %d", a, c, ci[a] ) );
        }
        if( p.ux != (float)u[0] || p.uy != (float)u[1] || p.uz != (float)u[2] || p.w != (float)w ) viol( "placed", c1 + ": momentum or weight differ" );
        for( int b = 0; b < 8; b++ ) {
          double m = -(double)sp->q * p.w / ( (double)grid->dx * grid->dy * grid->dz ); nd[b] = p.i;
          for( int a = 0; a < 3; a++ ) {
            int hi = b >> a & 1, nn = ci[a] + hi; m *= hi ? fr[a] : 1 - fr[a]; nd[b] += hi * ( a == 0 ? 1 : a == 1 ? LN[0] + 2 : sz );
            if( nn == 1 || nn == LN[a] + 1 ) m *= 2; // half of the node's volume is elsewhere
          }
          dq[b] = m;
        }
        have = 1; count( "particles_placed" );
      } else count( "particles_left_out" );
      if( !same( &a0[0], accumulator_array->a, accumulator_array->stride * sizeof( accumulator_t ) ) ) viol( "charge", c1 + ": currents changed" );
      if( have && rh ) {
        double sc = fabs( (double)sp->q * w ) * 8 / ( (double)grid->dx * grid->dy * grid->dz );
        for( int b = 0; b < 8; b++ ) {
          double d = (double)field_array->f[ nd[b] ].rhob - f0[ nd[b] ].rhob;
          // cells one wide may share nodes; tolerance covers what was there before
          if( !( fabs( d - dq[b] ) <= 3e-6 * sc + 2e-7 * fabs( f0[nd[b]].rhob ) ) ) { viol( "charge", c1 + fmt( ": bound charge of node %d changed by %g, expected %g", b, d, dq[b] ) ); break; }
          f0[ nd[b] ].rhob = field_array->f[ nd[b] ].rhob;
        }
        count( "charges_checked" );
      }
      if( !same( &f0[0], field_array->f, grid->nv * sizeof( field_t ) ) ) viol( "charge", c1 + ": fields changed elsewhere" );
      eval( how + fmt( "%d%d%d", own, open, rh ) );
      if( k == 7 ) sample( c1 + fmt( " stored=%d", tot ), 2 );
    }
    // raw injection trusts its caller
    species_t *sp = sps[0]; int np0 = sp->np; float rw[8]; for( int a = 0; a < 8; a++ ) rw[a] = (float)lr.u( -1, 1 ); int cell = voxel( 1 + lr.i( 0, LN[0] - 1 ), 1 + lr.i( 0, LN[1] - 1 ), 1 + lr.i( 0, LN[2] - 1 ) );
    inject_particle_raw( sp, rw[0], rw[1], rw[2], cell, rw[3], rw[4], rw[5], rw[6] );
    const particle_t &p = sp->p[np0];
    if( sp->np != np0 + 1 || p.dx != rw[0] || p.dy != rw[1] || p.dz != rw[2] || p.i != cell || p.ux != rw[3] || p.uy != rw[4] || p.uz != rw[5] || p.w != rw[6] ) viol( "placed", ctx + ": inject_particle_raw stored something else" );
    // start the flights from nothing
    for( int s = 0; s < ns; s++ ) { sps[s]->np = 0; sps[s]->nm = 0; }
    for( int v = 0; v < grid->nv; v++ ) field_array->f[v].rhob = 0;
    num_comm_round = 8;
    return;
  }

  // ---- regions
  for( int c = 0; c < 6; c++ ) for( int k = 0; k < 5; k++ ) Q[c][k] = rr.u( -1, 1 );
  for( int a = 0; a < 3; a++ ) QK[a] = rr.u( 0.2, 1.5 ) / D[a];
  std::vector<particle_bc_t*> pb; pb.push_back( NULL ); pb.push_back( (particle_bc_t*)reflect_particles ); pb.push_back( (particle_bc_t*)absorb_particles );
  int nb = rr.i( 0, 3 ); for( int k = 0; k < nb; k++ ) {
    pb.push_back( define_particle_bc( absorb_tally( species_list, field_array ) ) );
    if( get_particle_bc_id( pb.back() ) != -3 - k ) viol( "bc", ctx + ": unexpected id of a particle boundary" );
  }
  #define PID( o ) get_particle_bc_id( o )
  const int nv = grid->nv; std::vector<int> em[8]; std::vector<double> ef[6]; std::vector<int64_t> en( grid->neighbor, grid->neighbor + 6 * nv ); std::vector<char> um[8], uf[6], ub( 6 * nv, 0 );
  for( int c = 0; c < 8; c++ ) { em[c].resize( nv ); um[c].assign( nv, 0 ); for( int v = 0; v < nv; v++ ) { int m = nm > 1 ? lr.i( 0, nm - 1 ) : 0; field( v ).*MC[c].m = (material_id)m; em[c][v] = m; } }
  for( int c = 0; c < 6; c++ ) { ef[c].resize( nv ); uf[c].assign( nv, 0 ); for( int v = 0; v < nv; v++ ) { float e = (float)lr.u( -5, 5 ); field( v ).*FC[c].m = e; ef[c][v] = e; } }
  std::vector<field_t> ff( nv );
  int ops = rr.i( 3, 9 );
  for( int o = 0; o < ops; o++ ) {
    S = *draw_shape( 0 ); int op = rr.i( 0, 7 ); std::string c1 = ctx + fmt( " op %d/%d %s", op, o, S.str().c_str() ); int64_t checked = 0, in = 0;
    memcpy( (void*)&ff[0], field_array->f, nv * sizeof( field_t ) );
    bool touched_f[6] = { false }, touched_m[8] = { false }, touched_n = false;
    if( op == 0 || op == 1 ) {
      int a = rr.i( -1, nm - 1 ), b = rr.i( -1, nm - 1 ); material_t *va = a < 0 ? NULL : mats[a], *sb = b < 0 ? NULL : mats[b];
      #define DO0( R ) set_region_material( R, va, sb )
      #define DO1( R ) set_point_region_material( R, va )
      if( op == 0 ) { OVER_SHAPES( DO0 ) } else { OVER_SHAPES( DO1 ) }
      for( int c = 0; c < 8; c++ ) {
        const int *h = MC[c].h; touched_m[c] = true;
        for( int k = 1; k <= LN[2] + !h[2]; k++ ) for( int j = 1; j <= LN[1] + !h[1]; j++ ) for( int i = 1; i <= LN[0] + !h[0]; i++ ) {
          int v = voxel( i, j, k );
          if( op == 1 ) { int w = where( loc( 0, i, 0.5 * h[0] ), loc( 1, j, 0.5 * h[1] ), loc( 2, k, 0.5 * h[2] ) ); if( w < 0 ) um[c][v] = 1; else if( w ) { in++; if( a >= 0 ) em[c][v] = a; } }
          else { around( h, i, j, k ); if( all_in < 0 ) um[c][v] = 1; else if( all_in ) { in++; if( a >= 0 ) em[c][v] = a; else if( b >= 0 && c != 7 ) em[c][v] = b; } else if( any_in && b >= 0 ) em[c][v] = b; }
          if( um[c][v] ) { em[c][v] = field( v ).*MC[c].m; continue; }
          checked++;
          if( field( v ).*MC[c].m != em[c][v] ) { viol( "material", c1 + fmt( ": %s of voxel (%d,%d,%d) is material %d, expected %d (interior %d surface %d)", MC[c].n, i, j, k, (int)( field( v ).*MC[c].m ), em[c][v], a, b ) ); em[c][v] = field( v ).*MC[c].m; }
        }
      }
      count( "material_locations", checked );
    } else if( op == 2 || op == 3 ) {
      bool raw = rr.chance( 0.4 );
      #define EQS eqn( 0, x, y, z ), eqn( 1, x, y, z ), eqn( 2, x, y, z ), eqn( 3, x, y, z ), eqn( 4, x, y, z ), eqn( 5, x, y, z )
      #define RAW( c ) Q[c][0] + Q[c][1] * x - Q[c][2] * y + Q[c][3] * z
      #define DO2( R ) set_region_field( R, eqn( 0, x, y, z ), eqn( 1, x, y, z ), eqn( 2, x, y, z ), eqn( 3, x, y, z ), eqn( 4, x, y, z ), eqn( 5, x, y, z ) )
      #define DO3( R ) set_point_region_field( R, eqn( 0, x, y, z ), eqn( 1, x, y, z ), eqn( 2, x, y, z ), eqn( 3, x, y, z ), eqn( 4, x, y, z ), eqn( 5, x, y, z ) )
      #define DO4( R ) set_region_field( R, RAW( 0 ), RAW( 1 ), RAW( 2 ), RAW( 3 ), RAW( 4 ), RAW( 5 ) )
      #define DO5( R ) set_point_region_field( R, RAW( 0 ), RAW( 1 ), RAW( 2 ), RAW( 3 ), RAW( 4 ), RAW( 5 ) )
      if( op == 2 ) { if( raw ) { OVER_SHAPES( DO4 ) } else { OVER_SHAPES( DO2 ) } } else { if( raw ) { OVER_SHAPES( DO5 ) } else { OVER_SHAPES( DO3 ) } }
      for( int c = 0; c < 6; c++ ) {
        const int *h = FC[c].h; touched_f[c] = true;
        for( int k = 1; k <= LN[2] + !h[2]; k++ ) for( int j = 1; j <= LN[1] + !h[1]; j++ ) for( int i = 1; i <= LN[0] + !h[0]; i++ ) {
          int v = voxel( i, j, k ), w; double x = loc( 0, i, 0.5 * h[0] ), y = loc( 1, j, 0.5 * h[1] ), z = loc( 2, k, 0.5 * h[2] );
          double e = ( raw ? RAW( c ) : eqn( c, x, y, z ) ) * ( c > 2 ? (double)grid->cvac : 1 );
          if( op == 3 ) w = where( x, y, z ); else { around( h, i, j, k ); w = any_in; }
          if( w < 0 ) uf[c][v] = 1; else if( w ) { in++; ef[c][v] = e; uf[c][v] = 0; }
          float g = field( v ).*FC[c].m;
          if( uf[c][v] ) { ef[c][v] = g; continue; }
          checked++;
          if( !( fabs( g - ef[c][v] ) < 3e-5 * ( 1 + fabs( e ) ) ) ) { viol( "field", c1 + fmt( ": %s of voxel (%d,%d,%d) is %g, expected %g (%s)", FC[c].n, i, j, k, g, ef[c][v], w ? "inside" : "outside" ) ); }
          ef[c][v] = g;
        }
      }
      count( "field_locations", checked );
    } else if( op == 4 || op == 5 ) {
      particle_bc_t *a = pb[ rr.i( 0, (int)pb.size() - 1 ) ], *b = pb[ rr.i( 0, (int)pb.size() - 1 ) ], *c = pb[ rr.i( 0, (int)pb.size() - 1 ) ];
      #define DO6( R ) set_region_bc( R, a, b, c )
      #define DO7( R ) set_point_region_bc( R, a, b )
      if( op == 4 ) { OVER_SHAPES( DO6 ) } else { OVER_SHAPES( DO7 ) }
      touched_n = true;
      for( int k = 1; k <= LN[2]; k++ ) for( int j = 1; j <= LN[1]; j++ ) for( int i = 1; i <= LN[0]; i++ ) for( int f = 0; f < 6; f++ ) {
        int v = voxel( i, j, k ), q = 6 * v + f, ax = f % 3, n[3] = { i, j, k }; int64_t to = 0; bool un = false;
        if( op == 4 ) {
          n[ax] += f < 3 ? -1 : 1; int rc = cell_in( i, j, k ), rn = cell_in( n[0], n[1], n[2] ); un = rc < 0 || rn < 0;
          to = rc ? ( rn ? PID( a ) : PID( b ) ) : rn ? PID( c ) : 0; if( rc && rn ) in++;
        } else {
          int all = 1, any = 0;
          for( int t = 0; t < 4; t++ ) {
            int m[3] = { i, j, k }; m[ax] += f >= 3; m[( ax + 1 ) % 3] += t & 1; m[( ax + 2 ) % 3] += t >> 1;
            int w = where( loc( 0, m[0], 0 ), loc( 1, m[1], 0 ), loc( 2, m[2], 0 ) ); if( w < 0 ) un = true; if( w ) any = 1; else all = 0;
          }
          if( all ) in++;
          // wholly inside, else cut
          to = all ? ( PID( a ) ? PID( a ) : PID( b ) ) : any ? PID( b ) : 0;
        }
        if( un ) ub[q] = 1; else if( to ) { en[q] = to; ub[q] = 0; }
        if( ub[q] ) { en[q] = grid->neighbor[q]; continue; }
        checked++;
        if( grid->neighbor[q] != en[q] ) { viol( "bc", c1 + fmt( ": face %d of cell (%d,%d,%d) is %lld, expected %lld (asked %lld,%lld,%lld)", f, i, j, k, (long long)grid->neighbor[q], (long long)en[q], (long long)PID( a ), (long long)PID( b ), (long long)PID( c ) ) ); en[q] = grid->neighbor[q]; }
      }
      count( "boundary_faces", checked );
    } else {
      emitter_t *e = recorder(); if( rr.chance( 0.5 ) ) define_emitter( e );
      #define DO8( R ) define_volume_emitter( e, R )
      #define DO9( R ) define_surface_emitter( e, R )
      if( op == 6 ) { OVER_SHAPES( DO8 ) } else { OVER_SHAPES( DO9 ) }
      std::set<int32_t> want, maybe;
      for( int k = 1; k <= LN[2]; k++ ) for( int j = 1; j <= LN[1]; j++ ) for( int i = 1; i <= LN[0]; i++ ) {
        int rc = cell_in( i, j, k );
        if( op == 6 ) { ( rc < 0 ? maybe : want ).insert( COMPONENT_ID( voxel( i, j, k ), BOUNDARY( 0, 0, 0 ) ) ); if( rc == 0 ) want.erase( COMPONENT_ID( voxel( i, j, k ), BOUNDARY( 0, 0, 0 ) ) ); }
        else for( int f = 0; f < 6; f++ ) {
          int n[3] = { i, j, k }, ax = f % 3, sg = f < 3 ? -1 : 1; n[ax] += sg; int rn = cell_in( n[0], n[1], n[2] );
          int32_t id = COMPONENT_ID( voxel( i, j, k ), BOUNDARY( ax == 0 ? sg : 0, ax == 1 ? sg : 0, ax == 2 ? sg : 0 ) );
          if( rc < 0 || rn < 0 ) maybe.insert( id ); else if( !rc && rn ) want.insert( id );
        }
      }
      int before = num_emitter( emitter_list ); emit_calls = 0; emitted.clear(); e->emit( e->params, e->component, e->n_component );
      bool listed = false; { emitter_t *q; LIST_FOR_EACH( q, emitter_list ) if( q == e ) listed = true; }
      if( !listed ) viol( "emitter", c1 + ": the emitter is not in the simulation's list" );
      (void)before; std::multiset<int32_t> got( emitted.begin(), emitted.end() );
      for( std::multiset<int32_t>::iterator it = got.begin(); it != got.end(); ++it ) { if( got.count( *it ) != 1 ) { viol( "emitter", c1 + fmt( ": component %d listed %d times", *it, (int)got.count( *it ) ) ); break; } if( !want.count( *it ) && !maybe.count( *it ) ) { viol( "emitter", c1 + fmt( ": voxel %d component %d is not part of the region", *it >> 5, *it & 31 ) ); break; } }
      for( std::set<int32_t>::iterator it = want.begin(); it != want.end(); ++it ) if( !got.count( *it ) ) { viol( "emitter", c1 + fmt( ": voxel %d component %d is missing", *it >> 5, *it & 31 ) ); break; }
      count( "emitter_components", (int64_t)got.size() ); in = (int64_t)got.size(); checked = want.size();
    }
    // nothing else may have changed
    for( int v = 0; v < nv; v++ ) {
      field_t a = ff[v], b = field( v );
      for( int c = 0; c < 6; c++ ) if( touched_f[c] ) a.*FC[c].m = b.*FC[c].m = 0;
      for( int c = 0; c < 8; c++ ) if( touched_m[c] ) a.*MC[c].m = b.*MC[c].m = 0;
      if( !same( &a, &b, sizeof a ) ) { viol( "elsewhere", c1 + fmt( ": voxel %d changed in quantities that were not asked for", v ) ); break; }
    }
    if( !touched_n ) for( int q = 0; q < 6 * nv; q++ ) if( grid->neighbor[q] != en[q] ) { viol( "elsewhere", c1 + ": boundaries changed" ); break; }
    eval( fmt( "%d %s %lld %lld", op, S.str().c_str(), (long long)in, (long long)checked ) );
    if( o == 1 ) sample( c1 + fmt( " checked=%lld inside=%lld", (long long)checked, (long long)in ), 2 );
  }
  // leave a state the simulation can start from
  for( int v = 0; v < nv; v++ ) for( int c = 0; c < 6; c++ ) field( v ).*FC[c].m = 0;
}

begin_particle_injection {
  if( opt_mode != "inject" || nhook++ ) return;
  aged.clear();
  int ns = num_species( species_list ), n = 80;
  // weights tell the particles apart
  for( int k = 0; k < n; k++ ) {
    Inj q; q.id = k; q.sp = rr.i( 0, ns - 1 ); q.w = 1 + k / 1024.; q.rhob = 1;
    static const double us[] = { 0.01, 0.3, 1, 5, 50 }; double us1 = us[ rr.i( 0, 4 ) ];
    for( int a = 0; a < 3; a++ ) { q.x[a] = rr.chance( 0.3 ) ? faces[a][ rr.i( 0, GP[a] ) ] : X0[a] + ( X1[a] - X0[a] ) * rr.u(); q.u[a] = us1 * rr.n() * ( rr.chance( 0.15 ) ? 0 : 1 ); }
    q.age = rr.chance( 0.1 ) ? 0 : rr.chance( 0.1 ) ? -rr.u() : rr.chance( 0.15 ) ? rr.u( 1, 3 ) : rr.u();
    aged.push_back( q ); species_t *sp = find_species( q.sp );
    inject_particle( sp, q.x[0], q.x[1], q.x[2], q.u[0], q.u[1], q.u[2], q.w, q.age, 1 );
  }
}

begin_diagnostics {
  if( opt_mode != "inject" || nhook != 1 || ncheck_after++ ) return;
  // this is the end of the step in which they were injected
  int n = (int)aged.size(), ns = num_species( species_list ), k; double wmax = 0;
  std::vector<int> cnt( n, 0 ), tot( n ); std::vector<double> pos( 6 * n, 0. ), all( 6 * n );
  for( int s = 0; s < ns; s++ ) {
    species_t *sp = find_species( s );
    for( int i = 0; i < sp->np; i++ ) {
      const particle_t &p = sp->p[i]; k = (int)lrint( ( p.w - 1 ) * 1024. );
      if( k < 0 || k >= n || aged[k].sp != s || p.w != (float)aged[k].w ) { viol( "aged", ctx + fmt( ": species %d holds a particle of weight %g nobody injected", s, p.w ) ); continue; }
      cnt[k]++; int sz = ( LN[0] + 2 ) * ( LN[1] + 2 ), c[3] = { p.i % ( LN[0] + 2 ), p.i % sz / ( LN[0] + 2 ), p.i / sz };
      const float o[3] = { p.dx, p.dy, p.dz }, u[3] = { p.ux, p.uy, p.uz };
      for( int a = 0; a < 3; a++ ) { pos[6 * k + a] = ME[a] * LN[a] + c[a] - 1 + 0.5 * ( 1 + (double)o[a] ); pos[6 * k + 3 + a] = u[a]; }
    }
  }
  mp_allsum_i( &cnt[0], &tot[0], n ); mp_allsum_d( &pos[0], &all[0], 6 * n );
  for( k = 0; k < n; k++ ) {
    const Inj &q = aged[k]; double x[3], u[3], ga = sqrt( 1 + q.u[0]*q.u[0] + q.u[1]*q.u[1] + q.u[2]*q.u[2] ), go[3]; bool open = true, risky = false; int status = 1, nb = 0;
    for( int a = 0; a < 3; a++ ) {
      const std::vector<double> &F = faces[a];
      if( !( q.x[a] >= F[0] && ( q.x[a] < F[GP[a]] || ( q.x[a] == F[GP[a]] && !wrap_[a] ) ) ) ) open = false;
      x[a] = ( q.x[a] - F[0] ) * GN[a] / ( F[GP[a]] - F[0] ); u[a] = q.u[a]; go[a] = q.u[a] / ga * (double)grid->cvac * grid->dt * q.age / D[a];
    }
    // where the first absorbing wall is met decides, so walk from wall to wall
    double tend = 1; double t = 0, dir[3] = { 1, 1, 1 };
    for( int it = 0; it < 200 && open; it++ ) {
      double bt = tend; int ba = -1, bf = -1;
      for( int a = 0; a < 3; a++ ) {
        double s = go[a] * dir[a]; if( s == 0 ) continue;
        double wall = s > 0 ? GN[a] : 0, tt = t + ( wall - x[a] ) / s; if( tt < t ) tt = t;
        if( fabs( tt - tend ) * fabs( s ) < 1e-5 ) risky = true;
        if( ba >= 0 && fabs( tt - bt ) < 1e-6 ) risky = true;
        if( tt < bt ) { bt = tt; ba = a; bf = s > 0 ? a + 3 : a; }
      }
      for( int a = 0; a < 3; a++ ) x[a] += go[a] * dir[a] * ( bt - t );
      t = bt; if( ba < 0 ) break;
      if( wrap_[ba] ) x[ba] = bf >= 3 ? 0 : GN[ba];
      else if( pface[bf] == reflect_particles ) { x[ba] = bf >= 3 ? GN[ba] : 0; dir[ba] = -dir[ba]; u[ba] = -u[ba]; nb++; }
      else { status = 0; break; }
    }
    std::string c1 = ctx + fmt( " aged particle %d at (%.9g,%.9g,%.9g) u=(%g,%g,%g) age=%g", k, q.x[0], q.x[1], q.x[2], q.u[0], q.u[1], q.u[2], q.age );
    if( !open ) status = 0;
    if( rank() == 0 ) {
      if( tot[k] > 1 || ( !risky && tot[k] != status ) ) viol( "aged", c1 + fmt( ": found %d times, expected %d", tot[k], status ) );
      else if( tot[k] == 1 && status && !risky ) {
        for( int a = 0; a < 3; a++ ) {
          double dx = all[6 * k + a] - x[a]; if( wrap_[a] ) dx -= GN[a] * floor( dx / GN[a] + 0.5 );
          if( !( fabs( dx ) < 2e-5 ) ) { viol( "aged", c1 + fmt( ": axis %d is %g cells from where it should be (%g)", a, dx, x[a] ) ); break; }
          if( !( fabs( all[6 * k + 3 + a] - u[a] ) <= 1e-5 * ( 1 + fabs( u[a] ) ) ) ) { viol( "aged", c1 + fmt( ": momentum %d is %g, expected %g", a, all[6 * k + 3 + a], u[a] ) ); break; }
        }
        count( "aged_particles" ); if( nb ) count( "aged_reflections", nb );
      } else if( !status ) count( "aged_left" );
    }
    wmax = std::max( wmax, q.w );
  }
  eval( fmt( "aged %d %d", n, kind ) );
  // Gauss's law held before there was anything, so it must hold now
  if( kind == 1 ) return;
  for( int f = 0; f < 6; f++ ) if( !wrap_[f % 3] && fface[f] != (int)pec_fields ) return;
  field_array->kernel->clear_rhof( field_array );
  species_t *sp; double qm = 0; LIST_FOR_EACH( sp, species_list ) { accumulate_rho_p( field_array, sp ); qm = std::max( qm, fabs( (double)sp->q ) ); }
  field_array->kernel->synchronize_rho( field_array );
  field_array->kernel->compute_div_e_err( field_array );
  double err = field_array->kernel->compute_rms_div_e_err( field_array ), ref = qm * wmax / ( (double)grid->dx * grid->dy * grid->dz );
  count( "gauss_checks" );
  if( !( err < 2e-4 * ref ) && rank() == 0 ) viol( "current", ctx + fmt( ": after aged injection the rms error of Gauss's law is %g for charges of %g", err, ref ) );
}

begin_current_injection {}
begin_field_injection {}
begin_particle_collisions {}

void checkpt( const char *, int ) {}

int main( int argc, char **argv ) {
  parse( argc, argv );
  boot_services( &argc, &argv );
  for( cur_case = opt_first; cur_case < opt_first + opt_cases; cur_case++ ) {
    each_case( cur_case - opt_first );
    rr = Rng( mix( mix( opt_seed, opt_mode == "inject" ? 901 : 902 ), cur_case ) ); lr = Rng( mix( mix( opt_seed, 903 + world_rank ), cur_case ) );
    ctx = fmt( "case %d seed %lld", cur_case, (long long)opt_seed ); nhook = ncheck_after = 0; emit_deleted = 0;
    vpic_simulation *sim = new vpic_simulation();
    sim->initialize( argc, argv );
    if( opt_mode == "inject" ) while( sim->advance() );
    if( opt_mode == "inject" && !ncheck_after ) viol( "aged", ctx + ": the injection hook was not called" );
    delete sim;
    for( size_t k = 0; k < shapes.size(); k++ ) delete shapes[k];
    shapes.clear();
  }
  done( true );
  halt_services();
  return 0;
}
