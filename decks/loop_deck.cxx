// A small simulation that writes down what the run loop asks of it.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>

static const char *l_env( const char *n, const char *d ) { const char *v = getenv( n ); return v ? v : d; }
static void l_log( const std::string &s ) {
  char n[1024]; snprintf( n, sizeof n, "%s/%s.%d.log", l_env( "RV_OUT", "." ), l_env( "RV_TAG", "l" ), world_rank );
  FILE *f = fopen( n, "a" ); if( !f ) return; fprintf( f, "%s\n", s.c_str() ); fclose( f );
}
#define L_HOOK( name ) do { char b[400]; snprintf( b, sizeof b, name " %lld %.17g | %d %.17g %d %d %d %d | %lld", (long long)step(), time(), num_step, quota, checkpt_interval, hydro_interval, field_interval, particle_interval, (long long)( global->count++ ) ); l_log( b ); } while( 0 )

begin_globals { int64_t count; int ck; };

begin_initialization {
  std::string a = "argv"; for( int k = 1; k < num_cmdline_arguments; k++ ) a += std::string( "|" ) + cmdline_argument[k];
  if( cmdline_argument[num_cmdline_arguments] ) a += "|not terminated";
  l_log( a );
  double n = nproc();
  define_units( 1, 1 ); define_timestep( 0.3, atof( l_env( "RV_T0", "0" ) ), atoll( l_env( "RV_STEP0", "0" ) ) );
  define_periodic_grid( 0, 0, 0, 4 * n, 4, 4, 4 * n, 4, 4, n, 1, 1 );
  define_material( "vacuum", 1 ); define_field_array();
  species_t *sp = define_species( "e", -1, 1, 2000, 2000, 3, 1 );
  repeat( 50 ) inject_particle( sp, uniform( rng( 0 ), grid->x0, grid->x1 ), uniform( rng( 0 ), 0, 4 ), uniform( rng( 0 ), 0, 4 ), normal( rng( 0 ), 0, 0.3 ), 0, 0, 0.01, 0, 0 );
  num_step = atoi( l_env( "RV_STEPS", "5" ) ); quota = 3; checkpt_interval = 21; hydro_interval = 22; field_interval = 23; particle_interval = 24;
  verbose = 0; global->ck = atoi( l_env( "RV_CKPT", "-1" ) );
  L_HOOK( "init" );
}
begin_particle_collisions { L_HOOK( "coll" ); }
begin_particle_injection { L_HOOK( "part" ); }
begin_current_injection { L_HOOK( "curr" ); }
begin_field_injection { L_HOOK( "fld" ); }
begin_diagnostics {
  L_HOOK( "diag" );
  if( global->ck >= 0 && step() == global->ck ) { char b[200]; snprintf( b, sizeof b, "%s/ck", l_env( "RV_OUT", "." ) ); l_log( "checkpt" ); checkpt( b, (int)step() ); }
}
