#include <mpi.h>
// Random streams: reproducibility, the raw generator, intervals, distributions,
// fills, pools across ranks, permutations and shuffles.
#include "rv.h"
using namespace rv;

// ---- an independent SFMT-11213 (Saito and Matsumoto), 32-bit portable form
struct Model {
  static const int N = 11213 / 128 + 1, M = 68;
  uint32_t s[ N * 4 ]; int k;
  static void shl( uint32_t *o, const uint32_t *a, int bytes ) { unsigned char b[16], c[16]; memcpy( b, a, 16 ); for( int q = 0; q < 16; q++ ) c[q] = q >= bytes ? b[ q - bytes ] : 0; memcpy( o, c, 16 ); }
  static void shr( uint32_t *o, const uint32_t *a, int bytes ) { unsigned char b[16], c[16]; memcpy( b, a, 16 ); for( int q = 0; q < 16; q++ ) c[q] = q + bytes < 16 ? b[ q + bytes ] : 0; memcpy( o, c, 16 ); }
  Model( int seed ) {
    s[0] = (uint32_t)seed;
    for( int q = 1; q < 4 * N; q++ ) s[q] = 1812433253u * ( s[ q - 1 ] ^ ( s[ q - 1 ] >> 30 ) ) + q;
    const uint32_t par[4] = { 1u, 0u, 0xe8148000u, 0xd0c7afa3u };
    int bits = 0; for( int q = 0; q < 4; q++ ) bits += __builtin_popcount( s[q] & par[q] );
    if( bits % 2 == 0 ) s[0] ^= 1;
    k = 4 * N;
  }
  uint32_t next() {
    if( k >= 4 * N ) {
      static const uint32_t mask[4] = { 0xeffff7fbu, 0xffffffefu, 0xdfdfbfffu, 0x7fffdbfdu };
      for( int n = 0; n < N; n++ ) {
        uint32_t x[4], y[4], r[4], *a = s + 4 * n, *b = s + 4 * ( ( n + M ) % N ), *c = s + 4 * ( ( n + N - 2 ) % N ), *d = s + 4 * ( ( n + N - 1 ) % N );
        shl( x, a, 3 ); shr( y, c, 3 );
        for( int q = 0; q < 4; q++ ) r[q] = a[q] ^ x[q] ^ ( ( b[q] >> 7 ) & mask[q] ) ^ y[q] ^ ( d[q] << 14 );
        memcpy( a, r, 16 );
      }
      k = 0;
    }
    return s[ k++ ];
  }
};

static Rng R;
static int some_seed() { static const int sp[] = { 0, 1, -1, 2, 0x7fffffff, -0x7fffffff - 1, 1234, 77 }; return R.chance( 0.3 ) ? sp[ R.i( 0, 7 ) ] : (int)R.next(); }

// ---- every single variate as raw bytes
#define ALL( _ ) _( char, crand ) _( unsigned char, ucrand ) _( short, hrand ) _( unsigned short, uhrand ) _( int, irand ) _( unsigned int, uirand ) _( long, lrand ) _( unsigned long, ulrand ) \
  _( int8_t, i8rand ) _( uint8_t, u8rand ) _( int16_t, i16rand ) _( uint16_t, u16rand ) _( int32_t, i32rand ) _( uint32_t, u32rand ) _( int64_t, i64rand ) _( uint64_t, u64rand ) \
  _( float, frand ) _( float, frand_c0 ) _( float, frand_c1 ) _( float, frand_c ) _( double, drand ) _( double, drand_c0 ) _( double, drand_c1 ) _( double, drand_c ) \
  _( float, frandn ) _( double, drandn ) _( float, frande ) _( double, drande )
enum {
#define _( t, f ) K_##f,
  ALL( _ )
#undef _
  N_KIND };
static const char *kname[] = {
#define _( t, f ) #f,
  ALL( _ )
#undef _
};
static uint64_t draw( int k, rng_t *r ) {
  uint64_t o = 0;
  switch( k ) {
#define _( t, f ) case K_##f: { t v = f( r ); memcpy( &o, &v, sizeof v ); break; }
  ALL( _ )
#undef _
  }
  return o;
}
static size_t ksize( int k ) {
  switch( k ) {
#define _( t, f ) case K_##f: return sizeof( t );
  ALL( _ )
#undef _
  }
  return 0;
}
static void kfill( int k, rng_t *r, void *p, size_t st, size_t n ) {
  switch( k ) {
#define _( t, f ) case K_##f: { void *q = f##_fill( r, (t *)p, st, n ); if( q != p ) viol( "fill", fmt( "%s_fill returned another pointer", #f ) ); break; }
  ALL( _ )
#undef _
  }
}

static void one_stream() {
  int seed = some_seed();
  // raw 32-bit stream against the model
  rng_t *a = new_rng( seed ), *b = new_rng( (int)R.next() );
  Model m( seed );
  int n = R.i( 1, 3000 );
  for( int k = 0; k < n; k++ ) {
    uint32_t x = u32rand( a ), y = m.next();
    if( x != y ) { viol( "stream", fmt( "seed %d: 32-bit draw %d is %08x, SFMT-11213 gives %08x", seed, k, x, y ) ); break; }
  }
  count( "raw_draws", n );
  // homogeneous draws of the other integers take the same bits in order
  static const int ik[] = { K_u8rand, K_u16rand, K_u64rand, K_i8rand, K_i16rand, K_i32rand, K_i64rand, K_crand, K_ucrand, K_hrand, K_uhrand, K_irand, K_uirand, K_lrand, K_ulrand };
  { int kk = ik[ R.i( 0, 14 ) ]; size_t w = ksize( kk ); seed_rng( a, seed ); Model q( seed ); unsigned char buf[8]; size_t have = 0; uint32_t v = 0;
    bool sg = kk == K_i8rand || kk == K_i16rand || kk == K_i32rand || kk == K_i64rand || kk == K_crand || kk == K_hrand || kk == K_irand || kk == K_lrand;
    for( int k = 0; k < 600; k++ ) {
      for( size_t c = 0; c < w; c++ ) { if( !have ) v = q.next(), have = 4; buf[c] = v & 255; v >>= 8; have--; }
      uint64_t want = 0; memcpy( &want, buf, w ); if( sg ) want >>= 1;
      uint64_t got = draw( kk, a );
      if( got != want ) { viol( "stream", fmt( "seed %d: %s draw %d is %llx, expected %llx", seed, kname[kk], k, (unsigned long long)got, (unsigned long long)want ) ); break; }
    } }
  // a history of mixed draws, replayed after reseeding and by another generator
  std::vector<int> h( R.i( 1, 1500 ) ); for( size_t k = 0; k < h.size(); k++ ) h[k] = R.i( 0, N_KIND - 1 );
  for( int k = R.i( 0, 50 ); k; k-- ) draw( R.i( 0, N_KIND - 1 ), b );
  if( seed_rng( a, seed ) != a ) viol( "reproducible", "seed_rng returned something else" );
  std::vector<uint64_t> x; for( size_t k = 0; k < h.size(); k++ ) x.push_back( draw( h[k], a ) );
  seed_rng( b, seed );
  for( size_t k = 0; k < h.size(); k++ ) { uint64_t y = draw( h[k], b ); if( x[k] != y ) { viol( "reproducible", fmt( "seed %d: draw %d (%s) of a mixed history gives %llx and %llx", seed, (int)k, kname[ h[k] ], (unsigned long long)x[k], (unsigned long long)y ) ); break; } }
  // bulk fills are repeated single draws and touch only their elements
  for( int t = 0; t < 3; t++ ) {
    int kk = R.i( 0, N_KIND - 1 ); size_t w = ksize( kk ), st = R.i( 1, 5 ), cnt = R.i( 0, 1 ) ? R.i( 0, 40 ) : R.i( 0, 800 );
    std::vector<unsigned char> buf( w * ( st * cnt + 4 ) + 64 ), ref;
    for( size_t c = 0; c < buf.size(); c++ ) buf[c] = (unsigned char)R.next();
    ref = buf;
    size_t off = ( 8 - ( (uintptr_t)&buf[0] & 7 ) ) & 7;
    kfill( kk, a, &buf[off], st, cnt );
    for( size_t c = 0; c < cnt; c++ ) { uint64_t v = draw( kk, b ); memcpy( &ref[ off + c * st * w ], &v, w ); }
    if( buf != ref ) { size_t c = 0; while( buf[c] == ref[c] ) c++; viol( "fill", fmt( "%s_fill of %d elements, stride %d: byte %d (element %d) is not what single draws give", kname[kk], (int)cnt, (int)st, (int)c, (int)( ( c - off ) / w ) ) ); }
    if( draw( K_u64rand, a ) != draw( K_u64rand, b ) ) viol( "fill", fmt( "%s_fill of %d elements leaves the generator elsewhere than single draws", kname[kk], (int)cnt ) );
    count( "fills" );
  }
  delete_rng( a ); delete_rng( b );
  eval( fmt( "stream %d", seed ) );
}

// ---- distributions
static void chi( const char *what, const std::vector<double> &obs, const std::vector<double> &ex ) {
  double s = 0; int dof = -1; double po = 0, pe = 0;
  for( size_t k = 0; k < obs.size(); k++ ) { po += obs[k], pe += ex[k]; if( pe >= 8 || ( k + 1 == obs.size() && pe > 0 ) ) { s += ( po - pe ) * ( po - pe ) / pe; dof++; po = pe = 0; } }
  if( dof < 1 ) dof = 1;
  // Wilson-Hilferty deviate; 7 sigma
  double z = ( pow( s / dof, 1. / 3 ) - ( 1 - 2. / ( 9 * dof ) ) ) / sqrt( 2. / ( 9 * dof ) );
  count( "chi_square_tests" );
  if( z > 7 || ( z < -7 && dof > 10 ) || std::isnan( z ) ) viol( "distribution", fmt( "%s: chi-square %g for %d degrees of freedom (%g sigma)", what, s, dof, z ) );
}
static double Phi( double x ) { return 0.5 * erfc( -x / sqrt( 2. ) ); }

template<class T> static void uniform_variant( const char *name, T (*f)( rng_t * ), T *(*fill)( rng_t *, T *, size_t, size_t ), rng_t *r, int64_t n, bool zero, bool one, bool open ) {
  const int B = 1024, L = 256; const double lat = sizeof( T ) == 4 ? 16777216. : 9007199254740992.;
  std::vector<double> h( B ), low( L ), pair( 64 * 64 ), ru( 40 ); double prev = -1; int64_t up = 0, n0 = 0, n1 = 0; double mean = 0;
  std::vector<T> x( 1 << 16 );
  int64_t k = 0; int bad = 0;
  while( k < n && !bad ) {
    fill( r, &x[0], 1, x.size() );
    for( size_t q = 0; q < x.size(); q++, k++ ) {
      T v = x[q];
      if( v == 0 ) n0++; if( v == 1 ) n1++;
      if( !( v >= 0 && v <= 1 ) || ( v == 0 && !zero ) || ( v == 1 && !one ) ) { viol( "interval", fmt( "%s gave %.17g", name, (double)v ) ); bad = 1; break; }
      double l = (double)v * lat; // an integer: odd in the open case
      if( l != floor( l ) || ( open && fmod( l, 2. ) != 1 ) ) { viol( "interval", fmt( "%s gave %.17g, off its lattice", name, (double)v ) ); bad = 1; break; }
      int b = (int)( v * B ); if( b > B - 1 ) b = B - 1; h[b]++;
      if( !zero && !open ) l -= 1; // (0,1]
      if( zero && one ) ; else low[ (int)fmod( open ? ( l - 1 ) / 2 : l, (double)L ) ]++;
      if( k & 1 ) pair[ (int)( prev * 63.9999999 ) * 64 + (int)( (double)v * 63.9999999 ) ]++;
      prev = v; mean += v; (void)up;
    }
  }
  if( bad ) return;
  std::vector<double> e( B, (double)k / B ); chi( fmt( "%s, %d bins", name, B ).c_str(), h, e );
  if( !( zero && one ) ) { std::vector<double> e2( L, (double)k / L ); chi( fmt( "%s, lowest bits", name ).c_str(), low, e2 ); }
  std::vector<double> e3( 4096, k / 2 / 4096. ); chi( fmt( "%s, successive pairs", name ).c_str(), pair, e3 );
  double sd = ( mean / k - 0.5 ) * sqrt( 12. * k ); if( fabs( sd ) > 7 ) viol( "distribution", fmt( "%s: mean off by %g sigma", name, sd ) );
  // single draws too
  for( int q = 0; q < 200000; q++ ) { T v = f( r ); if( !( v >= 0 && v <= 1 ) || ( v == 0 && !zero ) || ( v == 1 && !one ) ) { viol( "interval", fmt( "%s gave %.17g", name, (double)v ) ); break; } }
  count( "uniform_draws", k ); count( "zeros_seen", n0 ); count( "ones_seen", n1 );
  eval( fmt( "%s", name ) );
}

template<class T> static void tail_hist( const char *name, T *(*fill)( rng_t *, T *, size_t, size_t ), rng_t *r, int64_t n, bool normal ) {
  std::vector<double> edge; // dense in the centre and through the tail
  if( normal ) { for( double v = -6; v <= 6.0001; v += 0.02 ) edge.push_back( v ); } else for( double v = 0; v < 20; v += 0.02 ) edge.push_back( v );
  int B = (int)edge.size() + 1; std::vector<double> h( B ), e( B ), sg( 64 ); std::vector<T> x( 1 << 16 ); int64_t k = 0; double m1 = 0, m2 = 0, m4 = 0, c = 0, p = 0;
  while( k < n ) {
    fill( r, &x[0], 1, x.size() );
    for( size_t q = 0; q < x.size(); q++, k++ ) {
      double v = x[q];
      if( !( v == v ) || std::isinf( v ) || ( !normal && v < 0 ) ) { viol( "interval", fmt( "%s gave %g", name, v ) ); return; }
      int b = (int)ceil( ( v - edge[0] ) / 0.02 ); if( b < 0 ) b = 0; if( b > B - 1 ) b = B - 1;
      // settle rounding at the edges
      while( b > 0 && v <= edge[b - 1] ) b--; while( b < B - 1 && v > edge[b] ) b++;
      h[b]++; m1 += v; m2 += v * v; m4 += v * v * v * v; c += p * v; p = v;
    }
  }
  for( int b = 0; b < B; b++ ) {
    double lo = b ? edge[b - 1] : normal ? -1e9 : -1, hi = b < B - 1 ? edge[b] : 1e9;
    // differences of the small side to keep the tails exact
    e[b] = k * ( normal ? ( lo >= 0 ? Phi( -lo ) - Phi( -hi ) : Phi( hi ) - Phi( lo ) ) : exp( -std::max( lo, 0. ) ) - exp( -std::max( hi, 0. ) ) );
  }
  chi( fmt( "%s, %d bins", name, B ).c_str(), h, e );
  double N = (double)k, ex1 = normal ? 0 : 1, ex2 = normal ? 1 : 2, ex4 = normal ? 3 : 24, v1 = 1, v2 = normal ? 2 : 20, v4 = normal ? 96 : 40320 - 576.;
  if( fabs( m1 / N - ex1 ) > 7 * sqrt( v1 / N ) || fabs( m2 / N - ex2 ) > 7 * sqrt( v2 / N ) || fabs( m4 / N - ex4 ) > 9 * sqrt( v4 / N ) ) viol( "distribution", fmt( "%s: moments %g %g %g", name, m1 / N, m2 / N, m4 / N ) );
  if( normal && fabs( c / N ) > 7 / sqrt( N ) ) viol( "distribution", fmt( "%s: successive draws are correlated (%g)", name, c / N ) );
  count( "shaped_draws", k );
  eval( name );
}

template<class T> static void int_hist( const char *name, T (*f)( rng_t * ), rng_t *r, int bits, bool sg ) {
  // every bit fair, top and bottom bytes uniform, never negative
  int64_t n = 400000; int use = bits - ( sg ? 1 : 0 ); std::vector<double> bit( use ), hi( 128 ), lo( 128 );
  for( int64_t k = 0; k < n; k++ ) {
    T v = f( r );
    if( sg && v < 0 ) { viol( "interval", fmt( "%s gave %lld", name, (long long)v ) ); return; }
    uint64_t u = (uint64_t)v; if( bits < 64 ) u &= ( 1ull << bits ) - 1;
    for( int b = 0; b < use; b++ ) bit[b] += ( u >> b ) & 1;
    hi[ ( u >> ( use - 7 ) ) & 127 ]++, lo[ u & 127 ]++;
  }
  for( int b = 0; b < use; b++ ) if( fabs( bit[b] - n / 2. ) > 7 * sqrt( n / 4. ) ) viol( "distribution", fmt( "%s: bit %d is set in %g of %lld draws", name, b, bit[b], (long long)n ) );
  std::vector<double> e( 128, n / 128. ); chi( name, hi, e ); chi( name, lo, e );
  eval( name );
}

static void dist() {
  rng_t *r = new_rng( (int)mix( opt_seed, 5 ) );
  int64_t n = (int64_t)opt_cases * 1000000;
  uniform_variant<float>( "frand", frand, frand_fill, r, 8 * n, false, false, true );
  uniform_variant<float>( "frand_c0", frand_c0, frand_c0_fill, r, 8 * n, true, false, false );
  uniform_variant<float>( "frand_c1", frand_c1, frand_c1_fill, r, 8 * n, false, true, false );
  uniform_variant<float>( "frand_c", frand_c, frand_c_fill, r, 8 * n, true, true, false );
  uniform_variant<double>( "drand", drand, drand_fill, r, n, false, false, true );
  uniform_variant<double>( "drand_c0", drand_c0, drand_c0_fill, r, n, true, false, false );
  uniform_variant<double>( "drand_c1", drand_c1, drand_c1_fill, r, n, false, true, false );
  uniform_variant<double>( "drand_c", drand_c, drand_c_fill, r, n, true, true, false );
  tail_hist<float>( "frandn", frandn_fill, r, 4 * n, true );
  tail_hist<double>( "drandn", drandn_fill, r, 4 * n, true );
  tail_hist<float>( "frande", frande_fill, r, 2 * n, false );
  tail_hist<double>( "drande", drande_fill, r, 2 * n, false );
  int_hist<char>( "crand", crand, r, 8, true ); int_hist<unsigned char>( "ucrand", ucrand, r, 8, false ); int_hist<short>( "hrand", hrand, r, 16, true ); int_hist<unsigned short>( "uhrand", uhrand, r, 16, false );
  int_hist<int>( "irand", irand, r, 32, true ); int_hist<unsigned int>( "uirand", uirand, r, 32, false ); int_hist<long>( "lrand", lrand, r, 64, true ); int_hist<unsigned long>( "ulrand", ulrand, r, 64, false );
  int_hist<int8_t>( "i8rand", i8rand, r, 8, true ); int_hist<uint8_t>( "u8rand", u8rand, r, 8, false ); int_hist<int16_t>( "i16rand", i16rand, r, 16, true ); int_hist<uint16_t>( "u16rand", u16rand, r, 16, false );
  int_hist<int32_t>( "i32rand", i32rand, r, 32, true ); int_hist<uint32_t>( "u32rand", u32rand, r, 32, false ); int_hist<int64_t>( "i64rand", i64rand, r, 64, true ); int_hist<uint64_t>( "u64rand", u64rand, r, 64, false );
  delete_rng( r );
}

// ---- permutations and shuffles
static const size_t szs[] = { 1, 2, 4, 8, 3, 5, 6, 12, 16, 7, 32 };
static void shuffle_once( rng_t *r, int n, size_t sz, size_t st, std::vector<int> &p ) {
  std::vector<uint64_t> store( ( st * n + 64 ) / 8 + 2 ); unsigned char *b = (unsigned char *)&store[0];
  std::vector<unsigned char> ref( st * n + 64 );
  for( size_t k = 0; k < ref.size(); k++ ) ref[k] = b[k] = (unsigned char)R.next();
  std::map<std::string,int> of; // contents of each element are made distinct
  for( int k = 0; k < n; k++ ) { for( size_t c = 0; c < sz; c++ ) b[ k * st + c ] = (unsigned char)( sz == 1 ? k : c == 0 ? k & 255 : c == 1 ? k >> 8 : 37 * k + c ); of[ std::string( (char *)b + k * st, sz ) ] = k; }
  if( shuffle( r, b, sz, st, n ) != b ) viol( "shuffle", "another pointer returned" );
  p.assign( n, -1 ); std::vector<int> seen( n );
  for( int k = 0; k < n; k++ ) {
    std::map<std::string,int>::iterator it = of.find( std::string( (char *)b + k * st, sz ) );
    if( it == of.end() || seen[ it->second ]++ ) { viol( "shuffle", fmt( "%d elements of %d bytes, stride %d: position %d holds %s", n, (int)sz, (int)st, k, it == of.end() ? "no element that was there" : "an element twice" ) ); p.clear(); return; }
    p[k] = it->second;
  }
  for( size_t k = 0; k < ref.size(); k++ ) if( ( k >= st * n || k % st >= sz ) && b[k] != ref[k] ) { viol( "shuffle", fmt( "%d elements of %d bytes, stride %d: byte %d between elements changed", n, (int)sz, (int)st, (int)k ) ); p.clear(); return; }
}
static void perm() {
  rng_t *r = new_rng( (int)mix( opt_seed, 9 ) );
  int rep = opt_cases;
  for( int n = 1; n <= 6; n++ ) for( int kind = 0; kind < 12; kind++ ) {
    int f = 1; for( int k = 2; k <= n; k++ ) f *= k;
    std::vector<double> h( f ), e; int T = std::max( 400, 25 * f ) * rep;
    std::vector<int> p( n + 2 );
    size_t sz = kind ? szs[ kind - 1 ] : 0, st = kind ? ( R.i( 0, 2 ) ? sz * R.i( 1, 3 ) : sz <= 8 && !( sz & ( sz - 1 ) ) ? sz * 2 : sz + R.i( 1, 9 ) ) : 0;
    for( int t = 0; t < T; t++ ) {
      if( kind == 0 ) {
        p.assign( n + 2, -7 );
        if( randperm( r, &p[0], n ) != &p[0] ) viol( "permutation", "another pointer returned" );
        int s = 0; for( int k = 0; k < n; k++ ) if( p[k] >= 0 && p[k] < n ) s |= 1 << p[k];
        if( s != ( 1 << n ) - 1 || p[n] != -7 || p[n + 1] != -7 ) { viol( "permutation", fmt( "randperm(%d) is not a permutation of 0..n-1", n ) ); return; }
      } else { shuffle_once( r, n, sz, st, p ); if( p.empty() ) return; }
      int id = 0; for( int k = 0; k < n; k++ ) { int c = 0; for( int q = k + 1; q < n; q++ ) c += p[q] < p[k]; id = id * ( n - k ) + c; }
      h[id]++;
    }
    count( "permutations", T );
    e.assign( f, (double)T / f );
    if( n > 1 ) chi( kind ? fmt( "shuffle of %d elements of %d bytes, stride %d: orders", n, (int)sz, (int)st ).c_str() : fmt( "randperm(%d): orders", n ).c_str(), h, e );
    eval( fmt( "perm %d %d %d", n, (int)sz, (int)st ) );
  }
  // larger ones: where each element ends up, and its neighbour
  static const int big[] = { 7, 8, 9, 11, 16, 23, 32, 37, 64, 100 };
  for( int b = 0; b < 10; b++ ) for( int kind = 0; kind < 2; kind++ ) {
    int n = big[b], T = 60 * n * rep; std::vector<double> h( n * n ), nb( n ), e; std::vector<int> p( n );
    size_t sz = szs[ R.i( 0, 10 ) ], st = sz * R.i( 1, 2 );
    for( int t = 0; t < T; t++ ) {
      if( kind == 0 ) { randperm( r, &p[0], n ); std::vector<char> s( n ); for( int k = 0; k < n; k++ ) if( p[k] < 0 || p[k] >= n || s[ p[k] ]++ ) { viol( "permutation", fmt( "randperm(%d) is not a permutation", n ) ); return; } }
      else { shuffle_once( r, n, sz, st, p ); if( p.empty() ) return; }
      for( int k = 0; k < n; k++ ) h[ k * n + p[k] ]++;
      nb[ ( p[1] - p[0] + n ) % n ]++;
    }
    e.assign( n * n, (double)T / n ); chi( fmt( "%s %d: positions", kind ? "shuffle" : "randperm", n ).c_str(), h, e );
    nb.erase( nb.begin() ); e.assign( n - 1, (double)T / ( n - 1 ) ); chi( fmt( "%s %d: neighbours", kind ? "shuffle" : "randperm", n ).c_str(), nb, e );
    count( "permutations", T );
    eval( fmt( "bigperm %d %d", n, kind ) );
  }
  for( int k = 0; k < 40; k++ ) { int n = R.i( 1000, 70000 ); std::vector<int> p( n + 1, -3 ); randperm( r, &p[0], n ); std::vector<char> s( n ); bool ok = p[n] == -3; for( int q = 0; q < n; q++ ) if( p[q] < 0 || p[q] >= n || s[ p[q] ]++ ) ok = false; if( !ok ) viol( "permutation", fmt( "randperm(%d)", n ) ); if( n < 20000 ) { std::vector<int> o; shuffle_once( r, n, 4, 4, o ); } eval( fmt( "huge %d", n ) ); }
  int dummy = 5; if( randperm( r, &dummy, 0 ) != &dummy || dummy != 5 ) viol( "permutation", "randperm(0) wrote" );
  delete_rng( r );
}

// ---- pools over ranks
static void pools() {
  Rng S( mix( opt_seed, 3 ) ); // the same on every rank
  for( int t = 0; t < opt_cases; t++ ) {
    cur_case = t;
    int n = S.i( 1, 9 ), seed = S.chance( 0.3 ) ? 0 : S.i( -3000, 3000 ), D = 200;
    rng_pool_t *l = new_rng_pool( n, 0, 0 ), *s = new_rng_pool( n, 5, 1 );
    for( int k = 0; k < n; k++ ) for( int q = R.i( 0, 9 ); q; q-- ) draw( R.i( 0, N_KIND - 1 ), l->rng[k] );
    if( seed_rng_pool( l, seed, 0 ) != l || seed_rng_pool( s, seed, 1 ) != s ) viol( "pool", "another pointer returned" );
    if( l->n_rng != n || s->n_rng != n ) viol( "pool", "size of the pool changed" );
    rng_pool_t *l2 = new_rng_pool( n, seed, 0 ), *s2 = new_rng_pool( n, seed, 1 );
    std::vector<int> mine, all( (size_t)2 * n * D * 2 * world_size );
    for( int w = 0; w < 2; w++ ) for( int k = 0; k < n; k++ ) for( int q = 0; q < D; q++ ) {
      uint64_t v = u64rand( ( w ? s : l )->rng[k] ), v2 = u64rand( ( w ? s2 : l2 )->rng[k] );
      if( v != v2 ) { viol( "pool", fmt( "seed %d member %d of %d: seeding again differs from a new pool", seed, k, n ) ); q = D - 1; }
      int h[2]; memcpy( h, &v, 8 ); mine.push_back( h[0] ), mine.push_back( h[1] );
    }
    while( (int)mine.size() < 4 * n * D ) mine.push_back( 0 );
    mp_allgather_i( &mine[0], &all[0], (int)mine.size() );
    // every local member of every rank, and one copy of the synchronised ones, has its own stream
    std::map<uint64_t,int> seen; int per = 2 * n * D;
    for( int rk = 0; rk < world_size; rk++ ) for( int k = 0; k < 2 * n; k++ ) for( int q = 0; q < D; q++ ) {
      uint64_t v; memcpy( &v, &all[ 2 * ( (size_t)rk * per + (size_t)k * D + q ) ], 8 );
      if( k >= n ) { // synchronised: equal everywhere
        uint64_t v0; memcpy( &v0, &all[ 2 * ( (size_t)k * D + q ) ], 8 );
        if( v != v0 ) { viol( "pool-sync", fmt( "seed %d member %d of the synchronised pool differs between rank 0 and %d", seed, k - n, rk ) ); q = D; continue; }
        if( rk ) continue;
      }
      int who = k >= n ? -1 - k : rk * 1000 + k;
      std::map<uint64_t,int>::iterator it = seen.find( v );
      if( it != seen.end() ) { viol( "pool-overlap", fmt( "seed %d: generators %d and %d (1000 rank + member, negative: synchronised) of pools of %d give the same value", seed, it->second, who, n ) ); k = 2 * n; break; }
      seen[v] = who;
    }
    // no linear relation between neighbouring members
    for( int k = 0; k + 1 < n; k++ ) { double c = 0; int N = 4000; for( int q = 0; q < N; q++ ) c += ( drand( l->rng[k] ) - 0.5 ) * ( drand( l->rng[k + 1] ) - 0.5 ) * 12; if( fabs( c / sqrt( (double)N ) ) > 7 ) viol( "pool-overlap", fmt( "seed %d: members %d and %d are correlated (%g sigma)", seed, k, k + 1, c / sqrt( (double)N ) ) ); }
    delete_rng_pool( l ); delete_rng_pool( s ); delete_rng_pool( l2 ); delete_rng_pool( s2 );
    count( "streams_compared", 2 * n * world_size );
    eval( fmt( "pool %d %d %d", n, seed, world_size ) );
  }
  delete_rng_pool( NULL ); delete_rng( NULL );
}

// ---- continuation: the second process resumes what the first checkpointed
struct saved { rng_t *r[16]; rng_pool_t *p; int n; };
extern "C" void checkpt_saved( const saved *s ) { CHECKPT( s, 1 ); for( int k = 0; k < s->n; k++ ) CHECKPT_PTR( s->r[k] ); CHECKPT_PTR( s->p ); }
static saved *restored;
extern "C" saved *restore_saved( void ) { saved *s; RESTORE( s ); for( int k = 0; k < s->n; k++ ) RESTORE_PTR( s->r[k] ); RESTORE_PTR( s->p ); restored = s; return s; }
static void tell( saved *s ) {
  Rng T( mix( opt_seed, 21 ) );
  for( int k = 0; k < s->n + s->p->n_rng; k++ ) {
    rng_t *r = k < s->n ? s->r[k] : s->p->rng[ k - s->n ];
    std::string o; uint64_t h = 1469598103934665603ull;
    for( int q = 0; q < 4000; q++ ) { uint64_t v = draw( T.i( 0, N_KIND - 1 ), r ); for( int c = 0; c < 8; c++ ) h = ( h ^ ( ( v >> ( 8 * c ) ) & 255 ) ) * 0x100000001b3ull; if( q < 3 || q == 100 || q == 3999 ) o += fmt( " %llx", (unsigned long long)h ); }
    emit( fmt( "\"t\":\"stream\",\"k\":%d,\"h\":\"%s\"", k, o.c_str() ) );
  }
}

int main( int argc, char **argv ) {
  parse( argc, argv );
  boot_services( &argc, &argv );
  R = Rng( mix( opt_seed, opt_mode.size() ? opt_mode[0] : 0 ) + (uint64_t)world_rank );
  if( opt_mode == "dist" ) dist();
  else if( opt_mode == "perm" ) perm();
  else if( opt_mode == "pools" ) pools();
  else if( opt_mode == "save" || opt_mode == "resume" ) {
    std::string f = fmt( "%s/st.%d", opt_dir.c_str(), world_rank );
    if( opt_mode == "save" ) {
      saved *s; MALLOC( s, 1 ); memset( s, 0, sizeof *s ); s->n = R.i( 1, 16 ); s->p = new_rng_pool( R.i( 1, 4 ), R.i( 0, 99 ), 0 );
      for( int k = 0; k < s->n; k++ ) { s->r[k] = new_rng( some_seed() ); for( int q = R.i( 0, 1 ) ? R.i( 0, 3000 ) : R.i( 0, 3 ); q; q-- ) draw( R.i( 0, N_KIND - 1 ), s->r[k] ); }
      for( int k = 0; k < s->p->n_rng; k++ ) for( int q = R.i( 0, 999 ); q; q-- ) draw( R.i( 0, N_KIND - 1 ), s->p->rng[k] );
      REGISTER_OBJECT( s, checkpt_saved, restore_saved, NULL );
      checkpt_objects( f.c_str() );
      tell( s );
    } else { restore_objects( f.c_str() ); mp_barrier(); reanimate_objects(); tell( restored ); }
    eval( fmt( "resume %lld", (long long)opt_seed ) );
    done( true );
    fflush( stdout ); mp_barrier(); MPI_Finalize(); _exit( 0 ); // the registered objects stay behind
  } else if( opt_mode == "print" ) { // for comparison between builds
    for( int k = 0; k < opt_cases; k++ ) { int seed = k ? some_seed() : 0; saved s; s.n = 1; s.r[0] = new_rng( seed ); s.p = new_rng_pool( 1, seed & 1023, 0 ); tell( &s ); eval( fmt( "print %d", seed ) ); delete_rng( s.r[0] ); delete_rng_pool( s.p ); }
  } else for( int k = 0; k < opt_cases; k++ ) { cur_case = k; one_stream(); }
  sample( fmt( "%s: %lld cases", opt_mode.c_str(), (long long)n_eval ) );
  done( true );
  halt_services();
  return 0;
}
