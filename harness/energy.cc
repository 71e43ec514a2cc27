// Complete simulations that keep an energy log: every line of the log against
// the energies of the state it was written from, and the totals of closed
// systems over many steps.
#include "rv.h"
#include "deck/wrapper.h"
using namespace rv;

static Rng rr, lr;
static std::string ctx, logname, lastname;
static int GP[3], ME[3], LN[3], GN[3], kind, ei, steps_n, seen, first_append;
static std::vector<double> drifts;
static std::vector<std::vector<double> > want; // what each line should say, with the step first
static std::vector<double> scheme; // of the fields, as the leapfrog has it
static std::vector<std::string> names; static double the_dt;
static int64_t ST0;

begin_globals { int dummy; };

begin_initialization {
  (void)num_cmdline_arguments; (void)cmdline_argument;
  int left = nproc(); for( int a = 0; a < 3; a++ ) GP[a] = 1;
  for( int f = 2; left > 1; ) { if( left % f ) { f++; continue; } GP[ rr.i( 0, 2 ) ] *= f; left /= f; }
  { int r = rank(); for( int a = 0; a < 3; a++ ) { ME[a] = r % GP[a]; r /= GP[a]; } }
  kind = rr.i( 0, 2 ); // 0 anything, 1 magnetised test particles, 2 plasma
  bool one = rr.chance( 0.04 ); // a single cell
  double vth = rr.u( 0.05, 0.3 ), D[3], X[3], L[3];
  for( int a = 0; a < 3; a++ ) {
    LN[a] = rr.chance( one ? 1 : 0.2 ) && GP[a] == 1 ? 1 : rr.i( 2, 6 ); GN[a] = LN[a] * GP[a];
    D[a] = kind == 2 ? vth * rr.u( 0.6, 1.2 ) : rr.u( 0.5, 1.5 ); X[a] = rr.u( -3, 3 ); L[a] = D[a] * GN[a];
  }
  if( GN[0] * GN[1] * GN[2] == 1 && kind == 2 ) { LN[0] = GN[0] = 4; L[0] = 4 * D[0]; }
  double cl = GN[0] * GN[1] * GN[2] == 1 ? D[0] : courant_length( L[0], L[1], L[2], GN[0], GN[1], GN[2] );
  double cv = kind == 2 ? 1 : rr.u( 0.5, 2 ), ep = kind == 2 ? 1 : rr.u( 0.5, 2 );
  define_units( cv, ep );
  ST0 = rr.chance( 0.7 ) ? 0 : rr.i( 1, 5000 );
  define_timestep( rr.u( 0.5, 0.95 ) * cl / cv, 0, ST0 );
  bool per = rr.chance( 0.5 ); int gk = per ? 0 : kind ? 2 : rr.i( 1, 2 );
  if( gk == 0 ) define_periodic_grid( X[0], X[1], X[2], X[0] + L[0], X[1] + L[1], X[2] + L[2], GN[0], GN[1], GN[2], GP[0], GP[1], GP[2] );
  if( gk == 1 ) define_absorbing_grid( X[0], X[1], X[2], X[0] + L[0], X[1] + L[1], X[2] + L[2], GN[0], GN[1], GN[2], GP[0], GP[1], GP[2], rr.chance( 0.5 ) ? (int)reflect_particles : (int)absorb_particles );
  if( gk == 2 ) define_reflecting_grid( X[0], X[1], X[2], X[0] + L[0], X[1] + L[1], X[2] + L[2], GN[0], GN[1], GN[2], GP[0], GP[1], GP[2] );
  steps_n = kind == 0 ? rr.i( 1, 15 ) : rr.i( 30, 120 ); num_step = (int)ST0 + steps_n; verbose = 0; the_dt = grid->dt;
  ei = rr.i( 1, kind == 0 ? 4 : 20 );
  static const int iv[] = { 0, 0, 3, 10, 25 };
  clean_div_e_interval = iv[ rr.i( 0, 4 ) ]; clean_div_b_interval = iv[ rr.i( 0, 4 ) ]; sync_shared_interval = iv[ rr.i( 0, 4 ) ];
  if( kind == 0 ) clean_div_e_interval = 0;
  define_material( "vacuum", kind ? 1 : rr.u( 1, 3 ) );
  int nm = kind ? 0 : rr.i( 0, 2 );
  material_t *m[2] = { NULL, NULL };
  for( int k = 0; k < nm; k++ ) m[k] = define_material( k ? "m1" : "m0", rr.u( 1, 3 ), rr.u( 1, 3 ), rr.u( 1, 3 ), rr.u( 1, 2 ), rr.u( 1, 2 ), rr.u( 1, 2 ), rr.chance( 0.3 ) ? 0.2 : 0, 0, 0 );
  define_field_array( NULL, kind || rr.chance( 0.5 ) ? 0 : 0.02 );
  if( nm ) { double c0 = X[0] + L[0] * rr.u( 0.2, 0.8 ); set_region_material( x < c0, m[0], m[0] ); }
  if( nm > 1 ) { double c1 = X[1] + L[1] * rr.u( 0.2, 0.8 ); set_region_material( y > c1, m[1], m[1] ); }
  double dV = D[0] * D[1] * D[2]; int cells = LN[0] * LN[1] * LN[2];
  if( kind == 2 ) {
    int ppc = rr.i( 8, 24 ); double mi = rr.chance( 0.5 ) ? 1 : rr.u( 1, 50 ), dr = rr.chance( 0.5 ) ? 0 : rr.u( 0, 2 ) * vth, bq = rr.chance( 0.5 ) ? 0 : 0.5;
    species_t *e = define_species( "electron", -1, 1, 4 * ppc * cells + 1000, 2 * ppc * cells + 1000, iv[ rr.i( 0, 4 ) ], rr.i( 0, 1 ) );
    species_t *q = define_species( "ion", 1, mi, 4 * ppc * cells + 1000, 2 * ppc * cells + 1000, iv[ rr.i( 0, 4 ) ], rr.i( 0, 1 ) );
    for( int n = 0; n < ppc * cells; n++ ) {
      double x = grid->x0 + ( grid->x1 - grid->x0 ) * lr.u( 1e-6, 1 - 1e-6 ), y = grid->y0 + ( grid->y1 - grid->y0 ) * lr.u( 1e-6, 1 - 1e-6 ), z = grid->z0 + ( grid->z1 - grid->z0 ) * lr.u( 1e-6, 1 - 1e-6 );
      inject_particle( e, x, y, z, vth * lr.n() + dr, vth * lr.n(), vth * lr.n(), dV / ppc, 0, 0 );
      inject_particle( q, x, y, z, vth / sqrt( mi ) * lr.n(), vth / sqrt( mi ) * lr.n(), vth / sqrt( mi ) * lr.n(), dV / ppc, 0, 0 );
    }
    double kx = 2 * M_PI / L[0], ky = 2 * M_PI / L[1], kz = 2 * M_PI / L[2], p = rr.u( 0, 6 ), amp = vth * rr.u( 0, 1 );
    if( per ) { set_region_field( everywhere, amp * sin( ky * y + p ), amp * sin( kz * z + p ), amp * sin( kx * x + p ), bq * 0.3, bq + amp * sin( kx * x + 1 ), -bq * 0.6 ); }
  } else {
    int ns = rr.i( 1, 3 ); static const char *nn[] = { "a", "two words", "c%d" };
    if( kind == 0 && rr.chance( 0.1 ) ) ns = 0;
    for( int s = 0; s < ns; s++ ) {
      int np = rr.chance( 0.15 ) ? 0 : rr.i( 1, 300 ); double w = kind == 1 ? 1e-20 : 0.01 * rr.u( 0.1, 3 ), ms = rr.u( 0.3, 5 ), u0 = rr.u( 0.01, 1.5 );
      species_t *sp = define_species( nn[s], rr.chance( 0.2 ) ? 0 : rr.u( -1, 1 ), ms, 4000, 4000, iv[ rr.i( 0, 4 ) ], rr.i( 0, 1 ) );
      for( int n = 0; n < np; n++ ) inject_particle( sp, grid->x0 + ( grid->x1 - grid->x0 ) * lr.u( 1e-6, 1 - 1e-6 ), grid->y0 + ( grid->y1 - grid->y0 ) * lr.u( 1e-6, 1 - 1e-6 ), grid->z0 + ( grid->z1 - grid->z0 ) * lr.u( 1e-6, 1 - 1e-6 ), u0 * lr.n(), u0 * lr.n(), u0 * lr.n(), w * lr.u( 0.5, 1 ), 0, 0 );
    }
    double kx = 2 * M_PI / L[0], ky = 2 * M_PI / L[1], kz = 2 * M_PI / L[2], p = rr.u( 0, 6 ), amp = kind == 1 ? 0 : rr.u( 0.01, 1 ), b0 = rr.u( -2, 2 );
    if( gk == 0 ) { set_region_field( everywhere, amp * sin( ky * y + p ), amp * sin( kz * z + p ), amp * sin( kx * x + p ), b0 + amp * sin( ky * y + p ), 0.3 + amp * sin( kz * z + 1 ), 0.2 + amp * sin( kx * x + p ) ); }
    else if( kind == 0 ) { set_region_field( everywhere, 0, 0, 0, amp * sin( ky * y + p ), 0, amp * sin( kx * x + p ) ); }
  }
  names.clear(); { species_t *sp; LIST_FOR_EACH( sp, species_list ) names.push_back( sp->name ); }
  ctx += fmt( " kind=%d%s n=%d,%d,%d topo=%d,%d,%d steps=%lld+%d every=%d", kind, per ? "p" : "w", GN[0], GN[1], GN[2], GP[0], GP[1], GP[2], (long long)ST0, steps_n, ei );
  want.clear(); scheme.clear(); seen = 0;
}

begin_particle_collisions {}
begin_particle_injection {}
begin_current_injection {}
begin_field_injection {}

begin_diagnostics {
  seen++;
  if( ( step() - ST0 ) % ei ) return;
  const field_t *f = field_array->f; const grid_t *g = grid; const int n[3] = { g->nx, g->ny, g->nz };
  std::vector<double> e( 6 + names.size() ), all( 6 + names.size() );
  for( int c = 0; c < 6; c++ ) {
    int a = c % 3, hi[3]; for( int t = 0; t < 3; t++ ) hi[t] = n[t] + ( c < 3 ? t != a : t == a );
    for( int z = 1; z <= hi[2]; z++ ) for( int y = 1; y <= hi[1]; y++ ) for( int x = 1; x <= hi[0]; x++ ) {
      int q[3] = { x, y, z }; double wt = 1;
      for( int t = 0; t < 3; t++ ) if( ( c < 3 ? t != a : t == a ) && ( q[t] == 1 || q[t] == n[t] + 1 ) ) wt *= 0.5;
      const field_t &F = f[ VOXEL( x, y, z, n[0], n[1], n[2] ) ];
      int id = c < 3 ? ( &F.ematx )[a] : ( &F.fmatx )[a]; material_t *m; LIST_FOR_EACH( m, material_list ) if( m->id == id ) break;
      double u = c < 3 ? ( &F.ex )[a] : ( &F.cbx )[a]; e[c] += wt * u * u * ( c < 3 ? ( &m->epsx )[a] : 1. / ( &m->mux )[a] );
    }
    e[c] *= 0.5 * g->eps0 * g->dV;
  }
  if( kind == 2 ) { // B(n+1/2).B(n-1/2) in place of B(n).B(n)
    std::vector<field_t> keep( f, f + g->nv ); double s = 0, all = 0; field_array->kernel->advance_b( field_array, 0.5 );
    for( int a = 0; a < 3; a++ ) { int hi[3] = { n[0], n[1], n[2] }; hi[a]++;
      for( int z = 1; z <= hi[2]; z++ ) for( int y = 1; y <= hi[1]; y++ ) for( int x = 1; x <= hi[0]; x++ ) {
        int q[3] = { x, y, z }, v = VOXEL( x, y, z, n[0], n[1], n[2] ); double u = ( &keep[v].cbx )[a], d = ( &f[v].cbx )[a] - u; s -= ( q[a] == 1 || q[a] == n[a] + 1 ? 0.5 : 1 ) * d * d;
      } }
    memcpy( (void*)f, &keep[0], keep.size() * sizeof( field_t ) );
    s *= 0.5 * g->eps0 * g->dV; mp_allsum_d( &s, &all, 1 ); scheme.push_back( all );
  }
  species_t *sp; size_t k = 6; LIST_FOR_EACH( sp, species_list ) {
    double s = 0;
    for( int i = 0; i < sp->np; i++ ) {
      const particle_t &p = sp->p[i]; int q[3] = { p.i % ( n[0] + 2 ), p.i / ( n[0] + 2 ) % ( n[1] + 2 ), p.i / ( ( n[0] + 2 ) * ( n[1] + 2 ) ) }; double d[3] = { p.dx, p.dy, p.dz }, v2 = 0;
      for( int a = 0; a < 3; a++ ) {
        int b = ( a + 1 ) % 3, c = ( a + 2 ) % 3; double E = 0;
        for( int t = 0; t < 4; t++ ) { int r[3] = { q[0], q[1], q[2] }; r[b] += t & 1; r[c] += t >> 1; E += 0.25 * ( 1 + ( t & 1 ? 1 : -1 ) * d[b] ) * ( 1 + ( t >> 1 ? 1 : -1 ) * d[c] ) * ( &f[ VOXEL( r[0], r[1], r[2], n[0], n[1], n[2] ) ].ex )[a]; }
        double v = ( &p.ux )[a] + (double)sp->q * g->dt / ( 2. * sp->m * g->cvac ) * E; v2 += v * v;
      }
      s += p.w * v2 / ( 1 + sqrt( 1 + v2 ) );
    }
    e[k++] = s * sp->m * g->cvac * g->cvac;
  }
  mp_allsum_d( &e[0], &all[0], (int)e.size() );
  if( n[1] > 1 && n[2] > 1 ) { // the energy that enters through the left side of the box, at the nodes inside each rank's share of it
    double e0 = 0.7, s[2] = { 0, 0 }, t[2]; size_t m = ( n[1] - 1 ) * ( n[2] - 1 );
    if( !ME[0] ) for( int z = 2; z <= n[2]; z++ ) for( int y = 2; y <= n[1]; y++ ) {
      const field_t &p = f[ VOXEL( 1, y, z, n[0], n[1], n[2] ) ], &q = f[ VOXEL( 2, y, z, n[0], n[1], n[2] ) ];
      double a = q.ey * 0.5 * ( (double)p.cbz + q.cbz ), b = q.ez * 0.5 * ( (double)p.cby + q.cby ); s[0] += a - b; s[1] += fabs( a ) + fabs( b );
    }
    mp_allsum_d( s, t, 2 ); for( int k = 0; k < 2; k++ ) t[k] /= m * GP[1] * GP[2] * ( (double)g->cvac * g->cvac * e0 * e0 );
    for( int k = 0; k < 4; k++ ) { float *d = new float[m]; for( size_t i = 0; i < m; i++ ) ( (volatile float *)d )[i] = 3e7f; delete[] d; } // what memory held before must not matter
    double got = poynting_flux( e0 );
    if( !close( got, t[0], 2e-6 * t[1] + 1e-35 ) ) viol( "flux", ctx + fmt( ": at step %lld the flux through the left side is reported as %.8g, the fields give %.8g", (long long)step(), got, t[0] ) );
    count( "fluxes_compared" );
  }
  all.insert( all.begin(), (double)step() ); want.push_back( all );
  int ap = seen == 1 ? first_append : 1;
  if( ap ) dump_energies( logname.c_str() ); else dump_energies( logname.c_str(), 0 );
  dump_energies( lastname.c_str(), 0 );
}

void checkpt( const char *, int ) {}

// one log: the header if there should be one, then one line per request
static std::vector<std::vector<double> > read_log( const std::string &fn, bool header, const std::vector<std::vector<double> > &w ) {
  std::vector<std::vector<double> > out; std::vector<std::string> l; std::string cur; int ch;
  FILE *fp = fopen( fn.c_str(), "r" ); if( !fp ) { viol( "log", ctx + ": there is no log" ); return out; }
  while( ( ch = fgetc( fp ) ) != EOF ) { if( ch == '\n' ) { l.push_back( cur ); cur = ""; } else cur += (char)ch; } fclose( fp );
  if( !cur.empty() ) viol( "log", ctx + ": the log ends in the middle of a line: " + cur );
  size_t at = 0;
  if( header ) {
    std::string h = "% step ex ey ez bx by bz"; for( size_t k = 0; k < names.size(); k++ ) h += " \"" + names[k] + "\"";
    if( l.size() < 3 || l[0] != "% Layout" || l[1] != h || l[2].substr( 0, 13 ) != "% timestep = " || !close( atof( l[2].c_str() + 13 ), the_dt, 1e-6 * the_dt ) ) viol( "log-header", ctx + ": the log starts with " + ( l.size() > 1 ? l[0] + " / " + l[1] : std::string( "nothing" ) ) + ( l.size() > 2 ? " / " + l[2] : std::string() ) + ", expected " + h );
    at = 3;
  }
  if( l.size() != at + w.size() ) { viol( "log-lines", ctx + fmt( ": the log has %d lines of energies, %d were asked for", (int)l.size() - (int)at, (int)w.size() ) ); return out; }
  for( size_t k = 0; k < w.size(); k++ ) {
    std::vector<double> v; const char *s = l[at + k].c_str(); char *e; for( ;; ) { double d = strtod( s, &e ); if( e == s ) break; v.push_back( d ); s = e; }
    if( *s || v.size() != w[k].size() || v[0] != w[k][0] ) { viol( "log-lines", ctx + fmt( ": line %d reads \"%s\", expected step %.0f and %d energies", (int)k, l[at + k].c_str(), w[k][0], (int)w[k].size() - 1 ) ); continue; }
    double sc = 0; for( size_t c = 1; c < v.size(); c++ ) sc = std::max( sc, fabs( w[k][c] ) ); (void)sc;
    for( size_t c = 1; c < v.size(); c++ ) if( !close( v[c], w[k][c], 6e-6 * fabs( w[k][c] ) + 1e-35 ) ) viol( c < 7 ? "field-energy" : "species-energy", ctx + fmt( ": at step %.0f the log has %.7g for column %d, the state has %.9g", v[0], v[c], (int)c, w[k][c] ) );
    count( "energies_compared", (int64_t)v.size() - 1 ); out.push_back( v );
  }
  return out;
}

static void run_case( int argc, char **argv ) {
  logname = opt_dir + fmt( "/log.%lld.%d", (long long)opt_seed, cur_case ); lastname = logname + ".last"; first_append = rr.i( 0, 1 );
  bool old = rr.chance( 0.5 );
  if( world_rank == 0 ) { if( old ) { FILE *f = fopen( logname.c_str(), "w" ); if( f && !first_append ) fputs( "from before\n", f ); if( f ) fclose( f ); } else unlink( logname.c_str() ); }
  mp_barrier();
  vpic_simulation *sim = new vpic_simulation(); sim->initialize( argc, argv );
  while( sim->advance() ) {}
  sim->finalize(); delete sim;
  if( seen != steps_n + 1 ) viol( "log", ctx + fmt( ": %d diagnostics in %d steps", seen, steps_n ) );
  if( world_rank == 0 ) {
    std::vector<std::vector<double> > v = read_log( logname, !first_append, want );
    if( want.size() ) read_log( lastname, true, std::vector<std::vector<double> >( 1, want.back() ) );
    unlink( logname.c_str() ); unlink( lastname.c_str() );
    if( kind == 1 ) for( size_t k = 1; k < want.size(); k++ ) for( size_t c = 7; c < want[k].size(); c++ ) {
      double d = fabs( want[k][c] / want[0][c] - 1 ); if( want[0][c] == 0 ) d = fabs( want[k][c] );
      if( !( d < 4e-7 * ( 10 + ( want[k][0] - ST0 ) ) ) ) viol( "gyration", ctx + fmt( ": after %.0f steps in a constant magnetic field the energy of species %s went from %.9g to %.9g", want[k][0] - ST0, names[c - 7].c_str(), want[0][c], want[k][c] ) );
      count( "gyration_energies" );
    }
    if( kind == 2 ) {
      double t0 = 0, k0 = 0, w = 0, x = 0; for( size_t k = 0; k < want.size(); k++ ) {
        double t = 0, en = 0; for( size_t c = 1; c < want[k].size(); c++ ) ( c < 7 ? t : en ) += want[k][c]; t += en + scheme[k]; if( !k ) { t0 = t; k0 = en; }
        w = std::max( w, fabs( t - t0 ) ); x = std::max( x, fabs( en - k0 ) );
        if( !( fabs( t - t0 ) < 0.04 * k0 ) ) viol( "plasma", ctx + fmt( ": the total energy of a closed plasma went from %.8g to %.8g in %.0f steps", t0, t, want[k][0] - ST0 ) );
        count( "plasma_energies" );
      }
      drifts.push_back( w / k0 ); if( getenv( "RV_CAL" ) ) printf( "CAL %g %g\n", w / k0, x / k0 );
      sample( ctx + fmt( ": total energy changed by %.2g of the kinetic energy while %.2g was exchanged", w / k0, x / k0 ), 6 );
    }
    eval( ctx );
  }
}

int main( int argc, char **argv ) {
  parse( argc, argv );
  boot_services( &argc, &argv );
  for( cur_case = opt_first; cur_case < opt_first + opt_cases; cur_case++ ) {
    each_case( cur_case - opt_first );
    rr = Rng( mix( mix( opt_seed, 961 ), cur_case ) ); lr = Rng( mix( mix( opt_seed, 963 + world_rank ), cur_case ) );
    ctx = fmt( "case %d seed %lld", cur_case, (long long)opt_seed );
    run_case( argc, argv );
  }
  if( drifts.size() >= 12 ) { // half of the runs do much better than the bound on one
    std::sort( drifts.begin(), drifts.end() ); double m = drifts[ drifts.size() / 2 ];
    if( !( m < 2e-3 ) ) viol( "plasma", fmt( "the total energy of %d closed plasmas typically changed by %g of the kinetic energy", (int)drifts.size(), m ) );
    sample( fmt( "%d closed plasmas: the total energy changed by %.2g of the kinetic energy in half of them, %.2g at most", (int)drifts.size(), m, drifts.back() ), 100 );
  }
  done( true );
  halt_services();
  return 0;
}
