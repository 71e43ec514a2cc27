// The definitions of a simulation: what is accepted is kept as given (--mode
// keep), what is outside the documented domain ends the run with a diagnosis
// (--mode refuse --req K: one request per process; --valid 1 makes the same
// request with acceptable arguments).
#include "rv.h"
#define IN_emitter
#define IN_boundary
#define IN_collision
#include "src/emitter/emitter_private.h"
#include "src/boundary/boundary_private.h"
#include "src/collision/collision_private.h"
#include "deck/wrapper.h"
#include <sys/stat.h>
using namespace rv;

// the time errors are given to reach the terminal
extern "C" uint32_t __wrap__nanodelay( uint32_t ) { return 0; }

static Rng rr;
static std::string ctx;
static int opt_req = -1, opt_valid = 0, n_req = 0, stage;
#define V ( opt_valid != 0 )

static std::string draw_name( const std::set<std::string> &used ) {
  static const char *odd[] = { "electron", "electron2", "Electron", "e", "E", " e", "e ", "a b", "%s%n%d", "ion/../x", "\xc3\xa9lectron", "\"q\"", "NULL", "0", "-1", "\t", "\n" };
  for( ;; ) {
    std::string s;
    if( rr.chance( 0.4 ) ) s = odd[ rr.i( 0, 16 ) ];
    else if( rr.chance( 0.3 ) && used.size() ) { // close to one that is there
      auto it = used.begin(); std::advance( it, rr.i( 0, (int)used.size() - 1 ) ); s = *it;
      if( rr.chance( 0.5 ) ) s += (char)rr.i( 33, 126 ); else if( s.size() > 1 ) s.resize( s.size() - 1 ); else s[0] ^= 1;
    } else { int n = rr.chance( 0.1 ) ? rr.i( 200, 4000 ) : rr.i( 1, 12 ); for( int k = 0; k < n; k++ ) s += (char)rr.i( 1, 255 ); }
    if( s.size() && !used.count( s ) && s[0] ) return s;
  }
}

static double draw_val() { return rr.chance( 0.15 ) ? 0 : rr.chance( 0.1 ) ? -rr.u( 0, 5 ) : rr.chance( 0.2 ) ? 1 : exp( rr.u( -80, 80 ) ); }

// ---- recorders
static std::vector<int> calls, deleted;
struct Tag { int k; };
static void rec_emit( void *p, const int32_t *c, int n ) { calls.push_back( ((Tag*)p)->k ); for( int k = 0; k < n; k++ ) if( c[k] != 7 * k + ((Tag*)p)->k ) calls.push_back( -1 ); }
static void rec_emit_del( emitter_t *e ) { deleted.push_back( ((Tag*)e->params)->k ); delete_emitter_internal( e ); }
static void rec_coll( void *p ) { calls.push_back( ((Tag*)p)->k ); }
static void rec_coll_del( collision_op_t *c ) { deleted.push_back( ((Tag*)c->params)->k ); delete_collision_op_internal( c ); }
static int rec_pbc( void *p, species_t *, particle_t *, particle_mover_t *, particle_injector_t *, int, int ) { calls.push_back( ((Tag*)p)->k ); return 0; }
static void rec_pbc_del( particle_bc_t *b ) { deleted.push_back( ((Tag*)b->params)->k ); delete_particle_bc_internal( b ); }

static float a_rate( void *, const species_t *, const particle_t * ) { return 0; }
static void a_hit( void *, const species_t *, particle_t *, rng_t * ) {}
static float b_rate( void *, const species_t *, const species_t *, const particle_t *, const particle_t * ) { return 0; }
static void b_hit( void *, const species_t *, const species_t *, particle_t *, particle_t *, rng_t *, int ) {}

struct MRec { material_t *m; std::string name; float v[12]; };
struct SRec { species_t *s; std::string name; float q, m; size_t np, nm; int si, so; };

begin_globals { int x; };

static grid_t *other_grid( int nx, int ny, int nz ) {
  grid_t *g = new_grid(); g->cvac = g->eps0 = 1; g->dt = 0.1;
  partition_periodic_box( g, 0, 0, 0, nx, ny, nz, nx, ny, nz, 1, 1, 1 );
  return g;
}

static void ready() { printf( "\nREADY\n" ); fflush( stdout ); }
static void accepted() { printf( "\nACCEPTED\n" ); fflush( stdout ); _exit( 0 ); }

static bool sel( const char *name ) {
  int k = n_req++;
  if( opt_req == -1 ) { printf( "REQ %d %s\n", k, name ); return false; }
  return k == opt_req;
}
// the request proper is what follows ready()
#define REQ( name, prepare, request ) do { if( sel( name ) ) { prepare; ready(); request; accepted(); } } while(0)

begin_initialization {
  (void)num_cmdline_arguments; (void)cmdline_argument;
  int N[3] = { rr.i( 1, 6 ), rr.i( 1, 6 ), rr.i( 1, 6 ) };
  double neg = -exp( rr.u( -40, 5 ) );
  if( opt_mode == "keep" ) {
    double cv = exp( rr.u( -3, 3 ) ), e0 = exp( rr.u( -3, 3 ) ), dt = exp( rr.u( -8, 0 ) ), t0 = rr.u( -10, 10 ); int64_t s0 = rr.chance( 0.3 ) ? ( 1ll << 33 ) + rr.i( 0, 9 ) : rr.i( 0, 1000 );
    define_units( cv, e0 ); define_timestep( dt, t0, s0 );
    if( grid->cvac != (float)cv || grid->eps0 != (float)e0 || grid->dt != (float)dt || grid->t0 != t0 || grid->step != s0 ) viol( "units", ctx + ": units, time step or first step are not those given" );
    define_periodic_grid( 0, 0, 0, N[0], N[1], N[2], N[0] * world_size, N[1], N[2], world_size, 1, 1 );
    if( grid->cvac != (float)cv || grid->eps0 != (float)e0 || grid->dt != (float)dt || grid->step != s0 ) viol( "units", ctx + ": defining the grid changed the units or the time step" );
    // --- materials
    std::vector<MRec> M; std::set<std::string> used;
    int nm = rr.i( 1, 40 );
    auto check_materials = [&]( const char *when ) {
      if( num_material( material_list ) != (int)M.size() ) viol( "material-count", ctx + fmt( " %s: %d materials, %d were defined", when, num_material( material_list ), (int)M.size() ) );
      for( size_t k = 0; k < M.size(); k++ ) {
        MRec &r = M[k]; material_t *m = r.m;
        float have[12] = { m->epsx, m->epsy, m->epsz, m->mux, m->muy, m->muz, m->sigmax, m->sigmay, m->sigmaz, m->zetax, m->zetay, m->zetaz };
        if( m->id != (int)k || get_material_id( m ) != (int)k ) { viol( "material-id", ctx + fmt( " %s: material number %d has identifier %d", when, (int)k, (int)m->id ) ); break; }
        if( r.name != m->name || memcmp( have, r.v, sizeof have ) ) { viol( "material-values", ctx + fmt( " %s: material %d is not what was defined", when, (int)k ) ); break; }
        if( lookup_material( r.name.c_str() ) != m || lookup_material( (material_id)k ) != m ) { viol( "material-lookup", ctx + fmt( " %s: material %d is not found by its name or identifier", when, (int)k ) ); break; }
        if( object_ptr( object_id( m ) ) != m || !object_id( m ) ) { viol( "registered", ctx + " a material is not registered for checkpoints" ); break; }
        count( "definitions_checked" );
      }
      for( int k = 0; k < 5; k++ ) { std::string s = draw_name( used ); if( lookup_material( s.c_str() ) ) viol( "material-lookup", ctx + ": a material is found by a name that was not defined" ); }
      if( lookup_material( (material_id)M.size() ) || lookup_material( (material_id)-1 ) || lookup_material( (const char*)NULL ) || lookup_material( "" ) ) viol( "material-lookup", ctx + ": a material that was not defined is found" );
      if( get_material_id( NULL ) != -1 ) viol( "material-id", ctx + ": no material has an identifier" );
    };
    for( int k = 0; k < nm; k++ ) {
      MRec r; r.name = draw_name( used ); used.insert( r.name );
      char *buf = strdup( r.name.c_str() ); double v[12]; for( int j = 0; j < 12; j++ ) v[j] = draw_val();
      if( k == 0 ) for( int j = 0; j < 6; j++ ) v[j] = 1;
      int form = rr.i( 0, 3 );
      if( form == 0 ) { r.m = define_material( buf, v[0] ); for( int j = 0; j < 12; j++ ) r.v[j] = j < 3 ? (float)v[0] : j < 6 ? 1 : 0; }
      else if( form == 1 ) { r.m = define_material( buf, v[0], v[1], v[2], v[3] ); for( int j = 0; j < 12; j++ ) r.v[j] = (float)v[j/3]; }
      else { r.m = define_material( buf, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11] ); for( int j = 0; j < 12; j++ ) r.v[j] = (float)v[j]; }
      memset( buf, 'x', strlen( buf ) ); free( buf );
      M.push_back( r );
      eval( fmt( "material %d %d", k, form ) );
      if( rr.chance( 0.1 ) ) check_materials( "midway" );
    }
    check_materials( "after the last" );
    double damp = rr.chance( 0.5 ) ? 0 : rr.u( 0, 0.1 );
    define_field_array( NULL, damp );
    if( field_array->g != grid || interpolator_array->g != grid || accumulator_array->g != grid || hydro_array->g != grid ) viol( "arrays", ctx + ": an array belongs to another grid" );
    for( int v = 0; v < grid->nv; v++ ) { const unsigned char *p = (const unsigned char*)( field_array->f + v ); for( size_t b = 0; b < sizeof( field_t ); b++ ) if( p[b] ) { viol( "arrays", ctx + ": fields are not clear at first" ); v = grid->nv; break; } }
    // --- species
    std::vector<SRec> SP; std::set<std::string> sused;
    int ns = rr.chance( 0.2 ) ? 32 : rr.i( 1, 12 ); bool met = false;
    auto check_species = [&]( const char *when ) {
      if( num_species( species_list ) != (int)SP.size() ) viol( "species-count", ctx + fmt( " %s: %d species, %d were defined", when, num_species( species_list ), (int)SP.size() ) );
      for( size_t k = 0; k < SP.size(); k++ ) {
        SRec &r = SP[k]; species_t *s = r.s;
        if( s->id != (int)k ) { viol( "species-id", ctx + fmt( " %s: species number %d has identifier %d", when, (int)k, (int)s->id ) ); break; }
        if( r.name != s->name || s->q != r.q || s->m != r.m || s->g != grid || s->np != 0 || s->nm != 0 || s->sort_interval != r.si || s->sort_out_of_place != r.so ) { viol( "species-values", ctx + fmt( " %s: species %d is not what was defined", when, (int)k ) ); break; }
        // (exchanges resize the storage later)
        if( !met ) if( (size_t)s->max_np < r.np || (size_t)s->max_nm < r.nm || !s->p || !s->pm || s->max_np < 1 || s->max_nm < 1 ) { viol( "species-room", ctx + fmt( " %s: species %d has room for %d particles and %d movers, %d and %d were asked for", when, (int)k, s->max_np, s->max_nm, (int)r.np, (int)r.nm ) ); break; }
        if( find_species( r.name.c_str() ) != s || find_species( (int32_t)k ) != s ) { viol( "species-lookup", ctx + fmt( " %s: species %d is not found by its name or identifier", when, (int)k ) ); break; }
        if( object_ptr( object_id( s ) ) != s || !object_id( s ) ) { viol( "registered", ctx + " a species is not registered for checkpoints" ); break; }
        count( "definitions_checked" );
      }
      for( int k = 0; k < 5; k++ ) { std::string s = draw_name( sused ); if( find_species( s.c_str() ) ) viol( "species-lookup", ctx + ": a species is found by a name that was not defined" ); }
      if( find_species( (int32_t)SP.size() ) || find_species( -1 ) || find_species( (const char*)NULL ) || find_species( "" ) ) viol( "species-lookup", ctx + ": a species that was not defined is found" );
    };
    for( int k = 0; k < ns; k++ ) {
      SRec r; r.name = draw_name( sused ); sused.insert( r.name );
      double q = rr.chance( 0.2 ) ? 0 : rr.chance( 0.5 ) ? -draw_val() : draw_val(), m = exp( rr.u( -5, 5 ) ), np = rr.chance( 0.1 ) ? 0 : rr.u( 1, 5000 ), nmv = rr.chance( 0.5 ) ? -1 : rr.u( 0, 300 );
      r.q = (float)q; r.m = (float)m; r.np = (size_t)np; r.nm = nmv < 0 ? (size_t)( 2 * np / 25 ) : (size_t)nmv; r.si = rr.i( -3, 50 ); r.so = rr.i( 0, 1 );
      char *buf = strdup( r.name.c_str() );
      r.s = define_species( buf, q, m, np, nmv, r.si, r.so );
      memset( buf, 'x', strlen( buf ) ); free( buf );
      SP.push_back( r );
      eval( fmt( "species %d %d", k, (int)( nmv < 0 ) ) );
      if( rr.chance( 0.2 ) ) check_species( "midway" );
    }
    check_species( "after the last" ); check_materials( "after the species" );
    // --- emitters, boundary conditions, collision operators
    static Tag tags[200]; for( int k = 0; k < 200; k++ ) tags[k].k = k;
    std::vector<int> want; std::vector<emitter_t*> E; int ne = rr.i( 0, 12 );
    calls.clear(); deleted.clear();
    for( int k = 0; k < ne; k++ ) {
      emitter_t *e = new_emitter_internal( tags + k, rec_emit, rec_emit_del, NULL, NULL, NULL );
      if( rr.chance( 0.7 ) ) { int n = rr.i( 1, 40 ); int32_t *c = size_emitter( e, n ); if( !c || ( (size_t)c & 127 ) ) viol( "emitter", ctx + ": the component list is not aligned" ); else for( int j = 0; j < n; j++ ) c[j] = 7 * j + k; }
      E.push_back( e );
      int times = rr.i( 1, 3 );
      for( int j = 0; j < times; j++ ) if( define_emitter( e ) != e ) viol( "emitter", ctx + ": defining an emitter gave another one" );
      if( k && rr.chance( 0.3 ) ) define_emitter( E[ rr.i( 0, k ) ] ); // in the list already: nothing happens
      eval( fmt( "emitter %d %d", k, times ) );
    }
    if( num_emitter( emitter_list ) != ne ) viol( "emitter-count", ctx + fmt( ": %d emitters, %d were defined", num_emitter( emitter_list ), ne ) );
    auto once = [&]( const char *what, int n, std::vector<int> &c ) {
      std::vector<int> s = c; std::sort( s.begin(), s.end() );
      bool ok = (int)s.size() == n; for( int k = 0; ok && k < n; k++ ) ok = s[k] == k;
      if( !ok ) viol( what, ctx + fmt( ": %d of %d were called, or not each once", (int)s.size(), n ) );
      count( "calls_checked", n ); c.clear();
    };
    apply_emitter_list( emitter_list ); once( "emitter-apply", ne, calls );
    delete_emitter_list( emitter_list ); emitter_list = NULL; once( "emitter-delete", ne, deleted );
    std::vector<particle_bc_t*> B; int nb = rr.chance( 0.2 ) ? 32 : rr.i( 0, 10 );
    for( int k = 0; k < nb; k++ ) {
      particle_bc_t *b = new_particle_bc_internal( tags + k, (particle_bc_func_t)rec_pbc, rec_pbc_del, NULL, NULL, NULL );
      if( define_particle_bc( b ) != b ) viol( "boundary", ctx + ": defining a boundary condition gave another one" );
      B.push_back( b ); eval( fmt( "boundary %d", k ) );
    }
    if( num_particle_bc( particle_bc_list ) != nb ) viol( "boundary-count", ctx + fmt( ": %d boundary conditions, %d were defined", num_particle_bc( particle_bc_list ), nb ) );
    std::set<int64_t> ids;
    for( int k = 0; k < nb; k++ ) { ids.insert( get_particle_bc_id( B[k] ) ); if( get_particle_bc_id( B[k] ) > -3 ) viol( "boundary-id", ctx + ": a boundary condition has an identifier in use for something else" ); }
    if( (int)ids.size() != nb ) viol( "boundary-id", ctx + ": two boundary conditions share an identifier" );
    if( get_particle_bc_id( (particle_bc_t*)(size_t)absorb_particles ) != absorb_particles || get_particle_bc_id( (particle_bc_t*)(size_t)reflect_particles ) != reflect_particles ) viol( "boundary-id", ctx + ": the identifier of absorption or reflection is not its own" );
    // a particle of any species that meets a handler meets the one set there
    if( nb && world_size == 1 ) {
      particle_bc_t *fb[6];
      static const int face[6][3] = { {-1,0,0}, {0,-1,0}, {0,0,-1}, {1,0,0}, {0,1,0}, {0,0,1} };
      for( int f = 0; f < 6; f++ ) { fb[f] = B[ rr.i( 0, nb - 1 ) ]; if( f == 0 ) fb[f] = B[nb-1]; set_pbc( grid, BOUNDARY( face[f][0], face[f][1], face[f][2] ), get_particle_bc_id( fb[f] ) ); }
      for( int k = 0; k < 6; k++ ) {
        SRec &r = SP[ k == 0 ? SP.size() - 1 : rr.i( 0, (int)SP.size() - 1 ) ]; species_t *s = r.s; int f = rr.i( 0, 5 );
        if( s->np ) continue; // one at a time
        particle_t p; memset( &p, 0, sizeof p ); p.w = 1; int c[3] = { rr.i( 1, N[0] ), rr.i( 1, N[1] ), rr.i( 1, N[2] ) };
        c[f % 3] = f < 3 ? 1 : N[f % 3];
        p.i = VOXEL( c[0], c[1], c[2], N[0], N[1], N[2] ); ( &p.dx )[f % 3] = f < 3 ? -0.99f : 0.99f;
        s->p[0] = p; s->np = 1;
        particle_mover_t *pm = s->pm; memset( pm, 0, sizeof *pm ); ( &pm->dispx )[f % 3] = f < 3 ? -0.1f : 0.1f; pm->i = 0;
        calls.clear(); met = true;
        s->nm = move_p( s->p, pm, accumulator_array->a, grid, s->q );
        boundary_p( particle_bc_list, species_list, field_array, accumulator_array );
        int want_k = ((Tag*)fb[f]->params)->k;
        if( calls.size() != 1 || calls[0] != want_k || s->np ) viol( "boundary-dispatch", ctx + fmt( ": a particle of species %d of %d at face %d met handler %d, not %d of %d", (int)s->id, ns, f, calls.size() ? calls[0] : -1, want_k, nb ) );
        count( "handlers_met" );
      }
      calls.clear();
    }
    delete_particle_bc_list( particle_bc_list ); particle_bc_list = NULL; once( "boundary-delete", nb, deleted );
    int nc = rr.i( 0, 12 );
    for( int k = 0; k < nc; k++ ) {
      collision_op_t *c = new_collision_op_internal( tags + k, rec_coll, rec_coll_del, NULL, NULL, NULL );
      if( define_collision_op( c ) != c ) viol( "collision", ctx + ": defining a collision operator gave another one" );
      eval( fmt( "collision %d", k ) );
    }
    if( num_collision_op( collision_op_list ) != nc ) viol( "collision-count", ctx + fmt( ": %d collision operators, %d were defined", num_collision_op( collision_op_list ), nc ) );
    apply_collision_op_list( collision_op_list ); once( "collision-apply", nc, calls );
    delete_collision_op_list( collision_op_list ); collision_op_list = NULL; once( "collision-delete", nc, deleted );
    check_species( "at the end" ); check_materials( "at the end" );
    num_step = 1;
    return;
  }

  // ---------------------------------------------------------------- refusals
  double eps = exp( rr.u( -40, 2 ) );
  define_units( 1, 1 ); define_timestep( 0.1 );
  // before there is anything
  REQ( "species before the grid", if( V ) define_periodic_grid( 0, 0, 0, 2, 2, 2, 2, 2, 2, 1, 1, 1 ), define_species( "a", 1, 1, 10, 10, 0, 0 ) );
  REQ( "field array before the grid", define_material( "vacuum", 1 ); if( V ) define_periodic_grid( 0, 0, 0, 2, 2, 2, 2, 2, 2, 1, 1, 1 ), define_field_array() );
  REQ( "field array before the materials", define_periodic_grid( 0, 0, 0, 2, 2, 2, 2, 2, 2, 1, 1, 1 ); if( V ) define_material( "vacuum", 1 ), define_field_array() );
  REQ( "particle before the field array", define_periodic_grid( 0, 0, 0, 2, 2, 2, 2, 2, 2, 1, 1, 1 ); define_material( "vacuum", 1 ); if( V ) define_field_array(); species_t *s = define_species( "a", 1, 1, 10, 10, 0, 0 ), inject_particle( s, 1, 1, 1, 0, 0, 0, 1 ) );
  {
    int a = rr.i( 0, 2 ); int bad = rr.chance( 0.5 ) ? 0 : -rr.i( 1, 100 ), g[3] = { 4, 4, 4 }, p[3] = { 1, 1, 1 };
    int g2[3] = { 4, 4, 4 }, p2[3] = { 1, 1, 1 };
    if( !V ) { g2[a] = bad; p2[a] = rr.chance( 0.3 ) ? rr.i( 2, 9 ) : bad; }
    for( int kind = 0; kind < 3; kind++ ) {
      auto go = [&]( int *n, int *q ) {
        if( kind == 0 ) define_periodic_grid( 0, 0, 0, 1, 1, 1, n[0], n[1], n[2], q[0], q[1], q[2] );
        if( kind == 1 ) define_absorbing_grid( 0, 0, 0, 1, 1, 1, n[0], n[1], n[2], q[0], q[1], q[2], reflect_particles );
        if( kind == 2 ) define_reflecting_grid( 0, 0, 0, 1, 1, 1, n[0], n[1], n[2], q[0], q[1], q[2] );
      };
      REQ( "grid without cells", , go( g2, p ) );
      REQ( "grid over ranks that are not there", , go( g, p2 ) );
    }
    REQ( "grid: two negative rank counts", p2[a] = V ? 1 : -1; p2[( a + 1 ) % 3] = V ? 1 : -1; p2[( a + 2 ) % 3] = 1, define_periodic_grid( 0, 0, 0, 1, 1, 1, 4, 4, 4, p2[0], p2[1], p2[2] ) );
    REQ( "local grid without cells", grid_t *h = new_grid(), size_grid( h, g2[0], g2[1], g2[2] ) );
    REQ( "local grid of no grid", grid_t *h = new_grid(), size_grid( V ? h : NULL, 2, 2, 2 ) );
    REQ( "partition of no grid", grid_t *h = new_grid(), partition_periodic_box( V ? h : NULL, 0, 0, 0, 1, 1, 1, 2, 2, 2, 1, 1, 1 ) );
  }

  if( opt_req == -1 || n_req <= opt_req ) {
    // a complete setting, and another mesh beside it
    define_periodic_grid( 0, 0, 0, N[0], N[1], N[2], N[0], N[1], N[2], 1, 1, 1 );
    material_t *m1 = define_material( "vacuum", 1 ); (void)m1;
    define_material( "glass", 2 );
    define_field_array();
    grid_t *g2 = other_grid( N[0], N[1], N[2] );
    species_t *a = define_species( "a", 1, 1, 100, 4400, 0, 0 ), *b = define_species( "b", -1, 2, 100, 4400, 0, 1 );
    species_t *o = species( "o", 1, 1, 100, 4400, 0, 0, g2 ), *n0 = species( "neutral", 0, 1, 100, 4400, 0, 0, grid ), *w0 = species( "massless", 1, 0, 100, 4400, 0, 0, grid );
    species_t *olist = NULL; append_species( o, &olist );
    field_array_t *ofa = new_standard_field_array( g2, material_list, 0 );
    interpolator_array_t *oia = new_interpolator_array( g2 ); accumulator_array_t *oaa = new_accumulator_array( g2 ); hydro_array_t *oha = new_hydro_array( g2 );
    rng_pool_t *rp = entropy; int np = rp->n_rng; // as many as there are pipelines, or more
    rng_pool_t *small = new_rng_pool( 1, 3, 0 );
    rng_t *rg = rng( 0 );
    static Tag tg = { 0 };
    auto EM = [&]{ return new_emitter_internal( &tg, rec_emit, rec_emit_del, NULL, NULL, NULL ); };
    auto CO = [&]{ return new_collision_op_internal( &tg, rec_coll, rec_coll_del, NULL, NULL, NULL ); };
    auto PB = [&]{ return new_particle_bc_internal( &tg, (particle_bc_func_t)rec_pbc, rec_pbc_del, NULL, NULL, NULL ); };
    (void)np; (void)eps;
    inject_particle( a, 0.5, 0.5, 0.5, .1, .2, .3, 1 );

    // materials
    REQ( "material without a name", , define_material( V ? "x" : "", 1 ) );
    REQ( "material named NULL", , define_material( V ? "x" : NULL, 1 ) );
    REQ( "material twice by name", , define_material( V ? "Vacuum" : "vacuum", 3 ) );
    REQ( "material twice by name, the older", , define_material( V ? "glas" : "glass", 3 ) );
    REQ( "material appended again", material_t *m = material( "new", 1,1,1,1,1,1,0,0,0,0,0,0 ); if( !V ) append_material( m, &material_list ), append_material( m, &material_list ) );
    REQ( "material of another list", material_t *l = NULL; material_t *m = material( "new", 1,1,1,1,1,1,0,0,0,0,0,0 ); if( !V ) { append_material( material( "old", 1,1,1,1,1,1,0,0,0,0,0,0 ), &l ); append_material( m, &l ); }, append_material( m, &material_list ) );
    REQ( "no material", material_t *m = material( "new", 1,1,1,1,1,1,0,0,0,0,0,0 ), append_material( V ? m : NULL, &material_list ) );
    REQ( "material to no list", material_t *m = material( "new", 1,1,1,1,1,1,0,0,0,0,0,0 ), append_material( m, V ? &material_list : NULL ) );
    // species
    REQ( "species without a name", , define_species( V ? "x" : "", 1, 1, 10, 10, 0, 0 ) );
    REQ( "species named NULL", , define_species( V ? "x" : NULL, 1, 1, 10, 10, 0, 0 ) );
    REQ( "species twice by name", , define_species( V ? "A" : "a", 1, 1, 10, 10, 0, 0 ) );
    REQ( "species twice by name, the newer", , define_species( V ? "bb" : "b", 1, 1, 10, 10, 0, 0 ) );
    REQ( "species appended again", species_t *s = species( "s", 1, 1, 1, 1, 0, 0, grid ); if( !V ) append_species( s, &species_list ), append_species( s, &species_list ) );
    REQ( "species of another list", species_t *l = NULL; species_t *s = species( "s", 1, 1, 1, 1, 0, 0, grid ); if( !V ) { append_species( species( "t", 1, 1, 1, 1, 0, 0, grid ), &l ); append_species( s, &l ); }, append_species( s, &species_list ) );
    REQ( "species of another mesh", species_t *s = species( "s", 1, 1, 1, 1, 0, 0, V ? grid : g2 ), append_species( s, &species_list ) );
    REQ( "no species", species_t *s = species( "s", 1, 1, 1, 1, 0, 0, grid ), append_species( V ? s : NULL, &species_list ) );
    REQ( "species to no list", species_t *s = species( "s", 1, 1, 1, 1, 0, 0, grid ), append_species( s, V ? &species_list : NULL ) );
    REQ( "species of no mesh", , species( "s", 1, 1, 1, 1, 0, 0, V ? grid : NULL ) );
    REQ( "species of a mesh without cells", grid_t *h = new_grid(); if( V ) size_grid( h, 1, 1, 1 ), species( "s", 1, 1, 1, 1, 0, 0, h ) );
    REQ( "more species than the exchange has room for", int n = V ? 30 : 31; for( int k = 0; k < n; k++ ) define_species( fmt( "s%d", k ).c_str(), 1, 1, 10, 10, 0, 0 ), boundary_p( particle_bc_list, species_list, field_array, accumulator_array ) );
    REQ( "more boundary conditions than the exchange has room for", int n = V ? 32 : 33; for( int k = 0; k < n; k++ ) define_particle_bc( PB() ), boundary_p( particle_bc_list, species_list, field_array, accumulator_array ) );
    // particles
    REQ( "particle of no species", , inject_particle( V ? a : NULL, .5, .5, .5, 0, 0, 0, 1 ) );
    REQ( "particle of negative weight", , inject_particle( a, .5, .5, .5, 0, 0, 0, V ? ( rr.chance( 0.5 ) ? 0 : eps ) : neg ) );
    REQ( "particle where no room is left", b->np = b->max_np - ( V ? 1 : 0 ); for( int k = 0; k < b->np; k++ ) b->p[k] = a->p[0], inject_particle( b, .5, .5, .5, 0, 0, 0, 1 ) );
    // emitters
    REQ( "no emitter", emitter_t *e = EM(), define_emitter( V ? e : NULL ) );
    REQ( "emitter to no list", emitter_t *e = EM(), append_emitter( e, V ? &emitter_list : NULL ) );
    REQ( "emitter of another list", emitter_t *l = NULL; emitter_t *e = EM(); if( !V ) { append_emitter( EM(), &l ); append_emitter( e, &l ); }, define_emitter( e ) );
    REQ( "emitter sized twice", emitter_t *e = EM(); if( !V ) size_emitter( e, 3 ), size_emitter( e, 2 ) );
    REQ( "emitter of negative size", emitter_t *e = EM(), size_emitter( e, V ? rr.i( 0, 9 ) : -rr.i( 1, 9 ) ) );
    REQ( "no emitter to size", emitter_t *e = EM(), size_emitter( V ? e : NULL, 2 ) );
#   define CL( sp_, ia_, fa_, aa_, rp_, n_, upa, upe, th ) child_langmuir( sp_, ia_, fa_, aa_, rp_, n_, upa, upe, th, CHILD_LANGMUIR )
#   define IA interpolator_array
#   define FA field_array
#   define AA accumulator_array
    REQ( "emission of no species", , CL( V ? a : NULL, IA, FA, AA, rp, 1, 0, 0, 0 ) );
    REQ( "emission without interpolators", , CL( a, V ? IA : NULL, FA, AA, rp, 1, 0, 0, 0 ) );
    REQ( "emission without fields", , CL( a, IA, V ? FA : NULL, AA, rp, 1, 0, 0, 0 ) );
    REQ( "emission without accumulators", , CL( a, IA, FA, V ? AA : NULL, rp, 1, 0, 0, 0 ) );
    REQ( "emission without random numbers", , CL( a, IA, FA, AA, V ? rp : NULL, 1, 0, 0, 0 ) );
    REQ( "emission of a species of another mesh", , CL( V ? a : o, IA, FA, AA, rp, 1, 0, 0, 0 ) );
    REQ( "emission with interpolators of another mesh", , CL( a, V ? IA : oia, FA, AA, rp, 1, 0, 0, 0 ) );
    REQ( "emission with fields of another mesh", , CL( a, IA, V ? FA : ofa, AA, rp, 1, 0, 0, 0 ) );
    REQ( "emission with accumulators of another mesh", , CL( a, IA, FA, V ? AA : oaa, rp, 1, 0, 0, 0 ) );
    REQ( "emission of no particles", , CL( a, IA, FA, AA, rp, V ? 1 : -rr.i( 0, 3 ), 0, 0, 0 ) );
    REQ( "emission at a negative parallel momentum", , CL( a, IA, FA, AA, rp, 1, V ? 0 : neg, 0, 0 ) );
    REQ( "emission at a negative perpendicular momentum", , CL( a, IA, FA, AA, rp, 1, 0, V ? 0 : neg, 0 ) );
    REQ( "emission above a negative field", , CL( a, IA, FA, AA, rp, 1, 0, 0, V ? 0 : neg ) );
    // particle boundary conditions
    REQ( "no boundary condition", particle_bc_t *p = PB(), define_particle_bc( V ? p : NULL ) );
    REQ( "boundary condition to no list", particle_bc_t *p = PB(), append_particle_bc( p, V ? &particle_bc_list : NULL ) );
    REQ( "the only boundary condition again", particle_bc_t *p = PB(); if( !V ) define_particle_bc( p ), define_particle_bc( p ) );
    REQ( "the first of two boundary conditions again", particle_bc_t *p = PB(); if( !V ) define_particle_bc( p ); define_particle_bc( PB() ), define_particle_bc( p ) );
    REQ( "the last of two boundary conditions again", particle_bc_t *p = PB(); define_particle_bc( PB() ); if( !V ) define_particle_bc( p ), define_particle_bc( p ) );
    REQ( "tally of no species", , absorb_tally( V ? species_list : NULL, FA ) );
    REQ( "tally without fields", , absorb_tally( species_list, V ? FA : NULL ) );
    REQ( "tally of no boundary condition", particle_bc_t *p = absorb_tally( species_list, FA ), get_absorb_tally( V ? p : NULL ) );
    REQ( "reflux of no species", , maxwellian_reflux( V ? species_list : NULL, rp ) );
    REQ( "reflux without random numbers", , maxwellian_reflux( species_list, V ? rp : NULL ) );
    particle_bc_t *mr = maxwellian_reflux( species_list, rp );
    REQ( "temperature of no boundary condition", , set_reflux_temp( V ? mr : NULL, a, .1, .1 ) );
    REQ( "temperature of no species", , set_reflux_temp( mr, V ? a : NULL, .1, .1 ) );
    REQ( "negative parallel temperature", , set_reflux_temp( mr, a, V ? 0 : neg, .1 ) );
    REQ( "negative perpendicular temperature", , set_reflux_temp( mr, a, .1, V ? 0 : neg ) );
    REQ( "temperature of a species defined later", species_t *s = define_species( "late", 1, 1, 10, 10, 0, 0 ), set_reflux_temp( mr, V ? b : s, .1, .1 ) );
    {
      auto meet = [&]( particle_bc_t *h, species_t *s ) { // one particle meets the handler
        define_particle_bc( h ); set_pbc( grid, BOUNDARY( 1, 0, 0 ), get_particle_bc_id( h ) );
        particle_t p; memset( &p, 0, sizeof p ); p.w = 1; p.dx = 0.99f; p.i = VOXEL( N[0], 1, 1, N[0], N[1], N[2] ); p.ux = 1; s->p[0] = p; s->np = 1;
        memset( s->pm, 0, sizeof *s->pm ); s->pm->dispx = 0.1f;
        s->nm = move_p( s->p, s->pm, AA->a, grid, s->q );
        ready();
        boundary_p( particle_bc_list, species_list, FA, AA );
      };
      if( sel( "particle of a species defined after its tally" ) ) { particle_bc_t *h = absorb_tally( species_list, FA ); species_t *s = define_species( "late", 1, 1, 10, 10, 0, 0 ); meet( h, V ? b : s ); accepted(); }
      if( sel( "particle of a species defined after its reflux" ) ) { species_t *s = define_species( "late", 1, 1, 10, 10, 0, 0 ); meet( mr, V ? b : s ); accepted(); }
    }
    // collision operators
    rng_pool_t *few = V || N_PIPELINE < 2 ? new_rng_pool( N_PIPELINE, 3, 0 ) : new_rng_pool( rr.i( 1, N_PIPELINE - 1 ), 3, 0 );
    bool can_be_few = N_PIPELINE > 1;
    REQ( "no collision operator", collision_op_t *c = CO(), define_collision_op( V ? c : NULL ) );
    REQ( "collision operator to no list", collision_op_t *c = CO(), append_collision_op( c, V ? &collision_op_list : NULL ) );
    REQ( "the only collision operator again", collision_op_t *c = CO(); if( !V ) define_collision_op( c ), define_collision_op( c ) );
    REQ( "the first of two collision operators again", collision_op_t *c = CO(); if( !V ) define_collision_op( c ); define_collision_op( CO() ), define_collision_op( c ) );
    REQ( "the last of two collision operators again", collision_op_t *c = CO(); define_collision_op( CO() ); if( !V ) define_collision_op( c ), define_collision_op( c ) );
    REQ( "langevin without a species", , langevin( 1, 1, V ? a : NULL, rp, 1 ) );
    REQ( "langevin without random numbers", , langevin( 1, 1, a, V ? rp : NULL, 1 ) );
    if( can_be_few ) REQ( "langevin with too few random number generators", , langevin( 1, 1, a, few, 1 ) ); else n_req++;
    REQ( "langevin at a negative temperature", , langevin( V ? 0 : neg, 1, a, rp, 1 ) );
    REQ( "langevin at a negative rate", , langevin( 1, V ? 0 : neg, a, rp, 1 ) );
    static int unregistered;
#   define UN( name_, r_, h_, p_, s_, rp_ ) unary_collision_model( name_, (unary_rate_constant_func_t)( r_ ), (unary_collision_func_t)( h_ ), p_, s_, rp_, 1 )
    void *R1 = (void*)a_rate, *H1 = (void*)a_hit, *R2 = (void*)b_rate, *H2 = (void*)b_hit;
    REQ( "unary model without a name", , UN( V ? "n" : "", R1, H1, NULL, a, rp ) );
    REQ( "unary model named NULL", , UN( V ? "n" : NULL, R1, H1, NULL, a, rp ) );
    REQ( "unary model without a rate", , UN( "n", V ? R1 : NULL, H1, NULL, a, rp ) );
    REQ( "unary model without a collision", , UN( "n", R1, V ? H1 : NULL, NULL, a, rp ) );
    REQ( "unary model without a species", , UN( "n", R1, H1, NULL, V ? a : NULL, rp ) );
    REQ( "unary model without random numbers", , UN( "n", R1, H1, NULL, a, V ? rp : NULL ) );
    if( can_be_few ) REQ( "unary model with too few random number generators", , UN( "n", R1, H1, NULL, a, few ) ); else n_req++;
    REQ( "unary model with parameters no checkpoint knows", if( V ) register_object( &unregistered, NULL, NULL, NULL ), UN( "n", R1, H1, &unregistered, a, rp ) );
#   define BI( name_, r_, h_, p_, s_, t_, rp_ ) binary_collision_model( name_, (binary_rate_constant_func_t)( r_ ), (binary_collision_func_t)( h_ ), p_, s_, t_, rp_, 1, 1 )
    REQ( "binary model without a name", , BI( V ? "n" : "", R2, H2, NULL, a, b, rp ) );
    REQ( "binary model named NULL", , BI( V ? "n" : NULL, R2, H2, NULL, a, b, rp ) );
    REQ( "binary model without a rate", , BI( "n", V ? R2 : NULL, H2, NULL, a, b, rp ) );
    REQ( "binary model without a collision", , BI( "n", R2, V ? H2 : NULL, NULL, a, b, rp ) );
    REQ( "binary model without a first species", , BI( "n", R2, H2, NULL, V ? a : NULL, b, rp ) );
    REQ( "binary model without a second species", , BI( "n", R2, H2, NULL, a, V ? a : NULL, rp ) );
    REQ( "binary model between meshes", , BI( "n", R2, H2, NULL, a, V ? b : o, rp ) );
    REQ( "binary model without random numbers", , BI( "n", R2, H2, NULL, a, b, V ? rp : NULL ) );
    if( can_be_few ) REQ( "binary model with too few random number generators", , BI( "n", R2, H2, NULL, a, b, few ) ); else n_req++;
    REQ( "binary model with parameters no checkpoint knows", if( V ) register_object( &unregistered, NULL, NULL, NULL ), BI( "n", R2, H2, &unregistered, a, b, rp ) );
    REQ( "takizuka-abe without a name", , takizuka_abe( V ? "n" : "", a, b, rp, 1, 1 ) );
    REQ( "takizuka-abe without a first species", , takizuka_abe( "n", V ? a : NULL, b, rp, 1, 1 ) );
    REQ( "takizuka-abe without a second species", , takizuka_abe( "n", a, V ? b : NULL, rp, 1, 1 ) );
    REQ( "takizuka-abe between meshes", , takizuka_abe( "n", V ? a : o, b, rp, 1, 1 ) );
    REQ( "takizuka-abe without random numbers", , takizuka_abe( "n", a, b, V ? rp : NULL, 1, 1 ) );
    if( can_be_few ) REQ( "takizuka-abe with too few random number generators", , takizuka_abe( "n", a, b, few, 1, 1 ) ); else n_req++;
#   define HF( n_, kT_, m_, r_, s_, rs_ ) hard_sphere_fluid( "n", n_, .1, .2, .3, kT_, m_, r_, s_, rs_, rp, 1 )
    REQ( "hard sphere fluid of negative density", , HF( V ? 0 : neg, 1, 1, 1, a, 1 ) );
    REQ( "hard sphere fluid of negative temperature", , HF( 1, V ? 0 : neg, 1, 1, a, 1 ) );
    REQ( "hard sphere fluid without mass", , HF( 1, 1, V ? eps : 0, 1, a, 1 ) );
    REQ( "hard sphere fluid of negative mass", , HF( 1, 1, V ? eps : neg, 1, a, 1 ) );
    REQ( "hard sphere fluid of negative radius", , HF( 1, 1, 1, V ? 0 : neg, a, 1 ) );
    REQ( "hard sphere fluid without a species", , HF( 1, 1, 1, 1, V ? a : NULL, 1 ) );
    REQ( "hard sphere fluid with a massless species", , HF( 1, 1, 1, 1, V ? a : w0, 1 ) );
    REQ( "hard spheres of negative radius in a fluid", , HF( 1, 1, 1, 1, a, V ? 0 : neg ) );
    REQ( "hard spheres without a first species", , hard_sphere( "n", V ? a : NULL, 1, b, 1, rp, 1, 1 ) );
    REQ( "hard spheres without a second species", , hard_sphere( "n", a, 1, V ? b : NULL, 1, rp, 1, 1 ) );
    REQ( "hard spheres, the first massless", , hard_sphere( "n", V ? a : w0, 1, b, 1, rp, 1, 1 ) );
    REQ( "hard spheres, the second massless", , hard_sphere( "n", a, 1, V ? b : w0, 1, rp, 1, 1 ) );
    REQ( "hard spheres, the first of negative radius", , hard_sphere( "n", a, V ? 0 : neg, b, 1, rp, 1, 1 ) );
    REQ( "hard spheres, the second of negative radius", , hard_sphere( "n", a, 1, b, V ? 0 : neg, rp, 1, 1 ) );
    REQ( "hard spheres between meshes", , hard_sphere( "n", a, 1, V ? b : o, 1, rp, 1, 1 ) );
    REQ( "hard spheres without a name", , hard_sphere( V ? "n" : "", a, 1, b, 1, rp, 1, 1 ) );
#   define LF( n_, kT_, q_, m_, s_, bm_ ) large_angle_coulomb_fluid( "n", n_, .1, .2, .3, kT_, q_, m_, s_, bm_, rp, 1 )
    REQ( "coulomb fluid of negative density", , LF( V ? 0 : neg, 1, 1, 1, a, 1 ) );
    REQ( "coulomb fluid of negative temperature", , LF( 1, V ? 0 : neg, 1, 1, a, 1 ) );
    REQ( "coulomb fluid without charge", , LF( 1, 1, V ? neg : 0, 1, a, 1 ) );
    REQ( "coulomb fluid without mass", , LF( 1, 1, 1, V ? eps : 0, a, 1 ) );
    REQ( "coulomb fluid without a species", , LF( 1, 1, 1, 1, V ? a : NULL, 1 ) );
    REQ( "coulomb fluid with a neutral species", , LF( 1, 1, 1, 1, V ? a : n0, 1 ) );
    REQ( "coulomb fluid with a massless species", , LF( 1, 1, 1, 1, V ? a : w0, 1 ) );
    REQ( "coulomb fluid with a negative cutoff", , LF( 1, 1, 1, 1, a, V ? eps : neg ) );
    REQ( "coulomb without a first species", , large_angle_coulomb( "n", V ? a : NULL, b, 1, rp, 1, 1 ) );
    REQ( "coulomb without a second species", , large_angle_coulomb( "n", a, V ? b : NULL, 1, rp, 1, 1 ) );
    REQ( "coulomb, the first neutral", , large_angle_coulomb( "n", V ? a : n0, b, 1, rp, 1, 1 ) );
    REQ( "coulomb, the second neutral", , large_angle_coulomb( "n", a, V ? b : n0, 1, rp, 1, 1 ) );
    REQ( "coulomb, the first massless", , large_angle_coulomb( "n", V ? a : w0, b, 1, rp, 1, 1 ) );
    REQ( "coulomb, the second massless", , large_angle_coulomb( "n", a, V ? b : w0, 1, rp, 1, 1 ) );
    REQ( "coulomb between meshes", , large_angle_coulomb( "n", a, V ? b : o, 1, rp, 1, 1 ) );
    // boundaries of the mesh
    int badface = rr.chance( 0.3 ) ? 13 : rr.chance( 0.5 ) ? -rr.i( 1, 9 ) : rr.i( 27, 99 );
    REQ( "joining at a face that is not there", , join_grid( grid, V ? BOUNDARY( 1, 0, 0 ) : badface, 0 ) );
    REQ( "joining a rank that is not there", , join_grid( grid, BOUNDARY( 1, 0, 0 ), V ? 0 : rr.chance( 0.5 ) ? -1 : world_size ) );
    REQ( "joining no mesh", , join_grid( V ? grid : NULL, BOUNDARY( 1, 0, 0 ), 0 ) );
    REQ( "field boundary at a face that is not there", , set_fbc( grid, V ? BOUNDARY( 0, 1, 0 ) : badface, absorb_fields ) );
    REQ( "field boundary of no known kind", , set_fbc( grid, BOUNDARY( 0, 1, 0 ), V ? (int)pmc_fields : rr.chance( 0.5 ) ? rr.i( 0, 5 ) : -rr.i( 5, 50 ) ) );
    REQ( "field boundary of no mesh", , set_fbc( V ? grid : NULL, BOUNDARY( 0, 1, 0 ), absorb_fields ) );
    REQ( "particle boundary at a face that is not there", , set_pbc( grid, V ? BOUNDARY( 0, 0, -1 ) : badface, absorb_particles ) );
    REQ( "particle boundary that is no boundary", , set_pbc( grid, BOUNDARY( 0, 0, -1 ), V ? (int)reflect_particles : rr.i( 0, 99 ) ) );
    REQ( "particle boundary of no mesh", , set_pbc( V ? grid : NULL, BOUNDARY( 0, 0, -1 ), absorb_particles ) );
    // arrays and what works on them
    REQ( "fields without a mesh", , new_standard_field_array( V ? grid : NULL, material_list, 0 ) );
    REQ( "fields without materials", , new_standard_field_array( grid, V ? material_list : NULL, 0 ) );
    REQ( "fields of negative damping", , new_standard_field_array( grid, material_list, V ? 0 : neg ) );
    REQ( "interpolators without a mesh", , new_interpolator_array( V ? grid : NULL ) );
    REQ( "accumulators without a mesh", , new_accumulator_array( V ? grid : NULL ) );
    REQ( "hydro without a mesh", , new_hydro_array( V ? grid : NULL ) );
    REQ( "loading no interpolators", , load_interpolator_array( V ? IA : NULL, FA ) );
    REQ( "loading interpolators from no fields", , load_interpolator_array( IA, V ? FA : NULL ) );
    REQ( "loading interpolators from another mesh", , load_interpolator_array( IA, V ? FA : ofa ) );
    REQ( "clearing no accumulators", , clear_accumulator_array( V ? AA : NULL ) );
    REQ( "reducing no accumulators", , reduce_accumulator_array( V ? AA : NULL ) );
    REQ( "unloading no accumulators", , unload_accumulator_array( FA, V ? AA : NULL ) );
    REQ( "unloading accumulators to no fields", , unload_accumulator_array( V ? FA : NULL, AA ) );
    REQ( "unloading accumulators to another mesh", , unload_accumulator_array( V ? FA : ofa, AA ) );
    REQ( "clearing no hydro", , clear_hydro_array( V ? hydro_array : NULL ) );
    REQ( "synchronising no hydro", , synchronize_hydro_array( V ? hydro_array : NULL ) );
    REQ( "hydro of another mesh", , accumulate_hydro_p( V ? hydro_array : oha, a, IA ) );
    REQ( "hydro with interpolators of another mesh", , accumulate_hydro_p( hydro_array, a, V ? IA : oia ) );
    REQ( "hydro of no species", , accumulate_hydro_p( hydro_array, V ? a : NULL, IA ) );
    REQ( "charge of no species", , accumulate_rho_p( FA, V ? a : NULL ) );
    REQ( "charge on another mesh", , accumulate_rho_p( V ? FA : ofa, a ) );
    REQ( "charge on no mesh", , accumulate_rho_p( V ? FA : NULL, a ) );
    REQ( "advancing no species", , advance_p( V ? a : NULL, AA, IA ) );
    REQ( "advancing with accumulators of another mesh", , advance_p( a, V ? AA : oaa, IA ) );
    REQ( "advancing with interpolators of another mesh", , advance_p( a, AA, V ? IA : oia ) );
    REQ( "advancing without accumulators", , advance_p( a, V ? AA : NULL, IA ) );
    REQ( "advancing without interpolators", , advance_p( a, AA, V ? IA : NULL ) );
    REQ( "centering no species", , center_p( V ? a : NULL, IA ) );
    REQ( "centering with interpolators of another mesh", , center_p( a, V ? IA : oia ) );
    REQ( "centering without interpolators", , center_p( a, V ? IA : NULL ) );
    REQ( "uncentering no species", , uncenter_p( V ? a : NULL, IA ) );
    REQ( "uncentering with interpolators of another mesh", , uncenter_p( a, V ? IA : oia ) );
    REQ( "uncentering without interpolators", , uncenter_p( a, V ? IA : NULL ) );
    REQ( "energy of no species", , energy_p( V ? a : NULL, IA ) );
    REQ( "energy with interpolators of another mesh", , energy_p( a, V ? IA : oia ) );
    REQ( "energy without interpolators", , energy_p( a, V ? IA : NULL ) );
    REQ( "sorting no species", , sort_p( V ? a : NULL ) );
    REQ( "exchange with accumulators of another mesh", , boundary_p( NULL, species_list, FA, V ? AA : oaa ) );
    REQ( "exchange with fields of another mesh", , boundary_p( NULL, species_list, V ? FA : ofa, AA ) );
    REQ( "exchange without fields", , boundary_p( NULL, species_list, V ? FA : NULL, AA ) );
    REQ( "exchange without accumulators", , boundary_p( NULL, species_list, FA, V ? AA : NULL ) );
    field_array_t *nofa = V ? FA : NULL; double en[6];
    field_array_t *vfa = NULL; // one material: other kernels
    { material_t *l = NULL; append_material( material( "vacuum", 1,1,1,1,1,1,0,0,0,0,0,0 ), &l ); vfa = new_standard_field_array( grid, l, 0 ); }
    for( int two = 0; two < 2; two++ ) {
      field_advance_kernels_t *K = ( two ? vfa : FA )->kernel; field_array_t *X = two ? ( V ? vfa : NULL ) : nofa, *Y = two ? vfa : FA;
      REQ( "advancing no magnetic field", , K->advance_b( X, 0.5 ) );
      REQ( "advancing no electric field", , K->advance_e( X, 1 ) );
      REQ( "advancing the electric field by part of a step", , K->advance_e( Y, V ? 1 : rr.u( -1, 0.99 ) ) );
      REQ( "energy of no fields", , K->energy_f( en, X ) );
      REQ( "energy of fields to nowhere", , K->energy_f( V ? en : NULL, Y ) );
      REQ( "clearing no current", , K->clear_jf( X ) );
      REQ( "synchronising no current", , K->synchronize_jf( X ) );
      REQ( "clearing no charge", , K->clear_rhof( X ) );
      REQ( "synchronising no charge", , K->synchronize_rho( X ) );
      REQ( "bound charge of no fields", , K->compute_rhob( X ) );
      REQ( "curl of no fields", , K->compute_curl_b( X ) );
      REQ( "synchronising no fields", , K->synchronize_tang_e_norm_b( X ) );
      REQ( "electric divergence of no fields", , K->compute_div_e_err( X ) );
      REQ( "rms electric divergence of no fields", , K->compute_rms_div_e_err( X ) );
      REQ( "cleaning no electric field", , K->clean_div_e( X ) );
      REQ( "magnetic divergence of no fields", , K->compute_div_b_err( X ) );
      REQ( "rms magnetic divergence of no fields", , K->compute_rms_div_b_err( X ) );
      REQ( "cleaning no magnetic field", , K->clean_div_b( X ) );
    }
    // random numbers
    REQ( "pool of no generators", , new_rng_pool( V ? 1 : -rr.i( 0, 3 ), 1, 0 ) );
    REQ( "seeding no pool", , seed_rng_pool( V ? small : NULL, 1, 0 ) );
    REQ( "seeding no generator", , seed_rng( V ? rg : NULL, 1 ) );
    static float fb[8]; static double db[8]; static int ib[8];
    REQ( "filling floats from no generator", , frand_fill( V ? rg : NULL, fb, 1, 8 ) );
    REQ( "filling nowhere with doubles", , drand_fill( rg, V ? db : NULL, 1, 8 ) );
    REQ( "filling nowhere with normals", , drandn_fill( rg, V ? db : NULL, 1, 8 ) );
    REQ( "filling nowhere with normal floats", , frandn_fill( rg, V ? fb : NULL, 1, 8 ) );
    REQ( "filling nowhere with exponentials", , drande_fill( rg, V ? db : NULL, 1, 8 ) );
    REQ( "filling nowhere with exponential floats", , frande_fill( rg, V ? fb : NULL, 1, 8 ) );
    REQ( "filling nowhere with integers", , irand_fill( rg, V ? ib : NULL, 1, 8 ) );
    REQ( "permutation from no generator", , randperm( V ? rg : NULL, ib, 8 ) );
    REQ( "permutation to nowhere", , randperm( rg, V ? ib : NULL, 8 ) );
    REQ( "shuffling nothing", , shuffle( rg, V ? ib : NULL, 4, 4, 8 ) );
    REQ( "shuffling overlapping elements", , shuffle( rg, ib, 4, V ? 4 : rr.i( 1, 3 ), 8 ) );
    // messages
    mp_t *mp = new_mp( 3 ); int port = V ? rr.i( 0, 2 ) : rr.chance( 0.5 ) ? -rr.i( 1, 5 ) : rr.i( 3, 9 );
    static double gs[8];
    REQ( "mailbox without ports", , new_mp( V ? 1 : -rr.i( 0, 3 ) ) );
    REQ( "buffer of a port that is not there", , mp_size_recv_buffer( mp, port, 8 ) );
    REQ( "send buffer of a port that is not there", , mp_size_send_buffer( mp, port, 8 ) );
    REQ( "buffer of no size", , mp_size_recv_buffer( mp, 0, V ? 1 : -rr.i( 0, 9 ) ) );
    REQ( "send buffer of no size", , mp_size_send_buffer( mp, 0, V ? 1 : -rr.i( 0, 9 ) ) );
    REQ( "buffer of no mailbox", , mp_recv_buffer( V ? mp : NULL, 0 ) );
    REQ( "address of a port that is not there", , mp_recv_buffer( mp, port ) );
    REQ( "address of a send port that is not there", , mp_send_buffer( mp, port ) );
    REQ( "sending more than there is", mp_size_send_buffer( mp, 0, 8 ); mp_size_recv_buffer( mp, 1, 4096 ), int cap = 8 * 2; mp_begin_recv( mp, 1, V ? 8 : cap, 0, 5 ); mp_begin_send( mp, 0, V ? 8 : cap + rr.i( 1, 999 ), 0, 5 ) );
    REQ( "receiving more than fits", mp_size_recv_buffer( mp, 0, 8 ), mp_begin_recv( mp, 0, V ? 8 : 17 + rr.i( 0, 999 ), 0, 5 ) );
    REQ( "receiving from a rank that is not there", mp_size_recv_buffer( mp, 0, 8 ), mp_begin_recv( mp, 0, 8, V ? 0 : rr.chance( 0.5 ) ? -1 : world_size, 5 ) );
    REQ( "sending to a rank that is not there", mp_size_send_buffer( mp, 0, 8 ); mp_size_recv_buffer( mp, 0, 8 ); mp_begin_recv( mp, 0, 8, 0, 5 ), mp_begin_send( mp, 0, 8, V ? 0 : rr.chance( 0.5 ) ? -1 : world_size, 5 ) );
    REQ( "receiving another size than sent", mp_size_recv_buffer( mp, 0, 64 ); mp_size_send_buffer( mp, 0, 64 ); mp_begin_recv( mp, 0, V ? 32 : 64, 0, 5 ); mp_begin_send( mp, 0, 32, 0, 5 ); mp_end_send( mp, 0 ), mp_end_recv( mp, 0 ) );
    REQ( "sum over nothing", , mp_allsum_d( gs, gs + 4, V ? 4 : -rr.i( 0, 3 ) ) );
    REQ( "sum onto itself", , mp_allsum_d( gs, gs + ( V ? 4 : rr.i( 0, 3 ) ), 4 ) );
    REQ( "sum of integers to nowhere", , mp_allsum_i( ib, V ? ib + 4 : NULL, 4 ) );
    REQ( "gathering nothing", , mp_allgather_i( V ? ib : NULL, ib + 4, 1 ) );
    // services
    REQ( "object registered twice", static int x; if( !V ) register_object( &x, NULL, NULL, NULL ), register_object( &x, NULL, NULL, NULL ) );
    REQ( "no object registered", static int x, register_object( V ? &x : NULL, NULL, NULL, NULL ) );
    REQ( "object unregistered that was not registered", static int x; if( V ) register_object( &x, NULL, NULL, NULL ), unregister_object( &x ) );
    REQ( "checkpoint to no file", int n = 0, ( V ? (void)n : checkpt_objects( NULL ) ) );
    REQ( "checkpoint where no file can be", , checkpt_objects( ( opt_dir + ( V ? "/fine" : "/none/such/place" ) ).c_str() ) );
    REQ( "more memory than there is", , void *p = NULL; util_malloc( "Out of memory (%lu)", &p, V ? 100 : (size_t)1 << 60 ) );
    REQ( "more aligned memory than there is", , void *p = NULL; util_malloc_aligned( "Out of memory (%lu %lu)", &p, V ? 100 : (size_t)1 << 60, 128 ) );
    REQ( "memory to nowhere", void *p = NULL, util_malloc( "No place (%lu)", V ? &p : NULL, 100 ) );
    // output
    std::string D = opt_dir + "/out", X = opt_dir + "/none/such/place";
    char *ok = strdup( D.c_str() ), *no = strdup( X.c_str() );
    REQ( "energies to no file", , dump_energies( V ? ok : NULL ) );
    REQ( "energies where no file can be", , dump_energies( V ? ok : no ) );
    REQ( "species list to no file", , dump_species( V ? ok : NULL ) );
    REQ( "species list where no file can be", , dump_species( V ? ok : no ) );
    REQ( "material list to no file", , dump_materials( V ? ok : NULL ) );
    REQ( "material list where no file can be", , dump_materials( V ? ok : no ) );
    REQ( "grid to no file", , dump_grid( V ? ok : NULL ) );
    REQ( "grid where no file can be", , dump_grid( V ? ok : no ) );
    REQ( "fields to no file", , dump_fields( V ? ok : NULL ) );
    REQ( "fields where no file can be", , dump_fields( V ? ok : no ) );
    REQ( "hydro to no file", , dump_hydro( "a", V ? ok : NULL ) );
    REQ( "hydro where no file can be", , dump_hydro( "a", V ? ok : no ) );
    REQ( "hydro of an unknown species", , dump_hydro( V ? "a" : "A", ok ) );
    REQ( "hydro of a species without a name", , dump_hydro( V ? "a" : NULL, ok ) );
    REQ( "particles to no file", , dump_particles( "a", V ? ok : NULL ) );
    REQ( "particles where no file can be", , dump_particles( "a", V ? ok : no ) );
    REQ( "particles of an unknown species", , dump_particles( V ? "a" : "aa", ok ) );
    DumpParameters dp; dp.stride_x = dp.stride_y = dp.stride_z = 1; sprintf( dp.baseDir, "%s", opt_dir.substr( 0, 100 ).c_str() ); sprintf( dp.baseFileName, "f" ); dp.format = band; dp.output_variables( all );
    int ax = rr.i( 0, 2 ), stride = V ? N[ax] : rr.chance( 0.2 ) ? 0 : N[ax] + rr.i( 1, 9 ); ( ax == 0 ? dp.stride_x : ax == 1 ? dp.stride_y : dp.stride_z ) = stride;
    REQ( "fields at a stride that does not divide the mesh", , field_dump( dp ) );
    REQ( "hydro at a stride that does not divide the mesh", , hydro_dump( "a", dp ) );
    dp.stride_x = dp.stride_y = dp.stride_z = 1;
    REQ( "strided hydro of an unknown species", , hydro_dump( V ? "a" : "c", dp ) );
    DumpParameters dq = dp; if( !V ) sprintf( dq.baseDir, "/dev/null" );
    REQ( "strided fields where no file can be", , field_dump( dq ) );
    REQ( "strided hydro where no file can be", , hydro_dump( "a", dq ) );
  }
  if( opt_req == -1 ) { printf( "REQS %d\n", n_req ); fflush( stdout ); _exit( 0 ); }
  printf( "NOSUCH\n" ); fflush( stdout ); _exit( 3 );
}

begin_diagnostics {}
begin_particle_injection {}
begin_current_injection {}
begin_field_injection {}
begin_particle_collisions {}
void checkpt( const char *, int ) {}

int main( int argc, char **argv ) {
  for( int k = 1; k + 1 < argc; k++ ) { if( !strcmp( argv[k], "--req" ) ) opt_req = atoi( argv[k+1] ); if( !strcmp( argv[k], "--valid" ) ) opt_valid = atoi( argv[k+1] ); }
  parse( argc, argv );
  boot_services( &argc, &argv );
  for( cur_case = opt_first; cur_case < opt_first + ( opt_mode == "keep" ? opt_cases : 1 ); cur_case++ ) {
    each_case( cur_case - opt_first );
    rr = Rng( mix( mix( opt_seed, opt_mode == "keep" ? 931 : 932 + std::max( opt_req, 0 ) ), cur_case ) );
    ctx = fmt( "case %d seed %lld", cur_case, (long long)opt_seed );
    vpic_simulation *sim = new vpic_simulation();
    sim->initialize( argc, argv );
    if( opt_mode == "keep" ) { while( sim->advance() ); }
    delete sim;
  }
  done( true );
  halt_services();
  return 0;
}
