// Support for monitored workloads: seeded generation, observation counters and
// the "@@ {json}" report lines the driver reads.
#ifndef rv_h
#define rv_h
#include "src/vpic/vpic.h"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <unistd.h>
#include <time.h>

#ifdef RV_RES
#include "res.h"
#endif
namespace rv {

struct Rng { // splitmix64
  uint64_t s;
  Rng( uint64_t seed = 1 ) : s( seed ) {}
  uint64_t next() {
    uint64_t z = ( s += 0x9e3779b97f4a7c15ull );
    z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
    return z ^ ( z >> 31 );
  }
  double u() { return ( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
  double u( double a, double b ) { return a + ( b - a ) * u(); }
  int i( int a, int b ) { return a + (int)( next() % (uint64_t)( b - a + 1 ) ); } // inclusive
  bool chance( double p ) { return u() < p; }
  double n() { double a = u() + 1e-300, b = u(); return sqrt( -2 * log( a ) ) * cos( 6.283185307179586 * b ); }
};

inline uint64_t mix( uint64_t a, uint64_t b ) { Rng r( a * 0x100000001b3ull ^ ( b + 0x9e3779b97f4a7c15ull ) ); r.next(); return r.next(); }

static int64_t opt_seed = 1;
static int opt_cases = 1;
static int opt_first = 0;
static std::string opt_mode, opt_dir;
static int n_viol = 0, max_viol = 25;
static int64_t n_eval = 0;
static std::set<std::string> sigs;
static std::map<std::string,int64_t> counters;
static int n_sample = 0;
static int cur_case = -1;

inline std::string esc( const std::string &s ) {
  std::string o;
  for( size_t k = 0; k < s.size(); k++ ) {
    char c = s[k];
    if( c == '"' || c == '\\' ) { o += '\\'; o += c; }
    else if( c == '\n' ) o += "\\n";
    else if( (unsigned char)c < 32 || (unsigned char)c > 126 ) o += '?';
    else o += c;
  }
  return o;
}

inline std::string fmt( const char *f, ... ) {
  char b[2048];
  va_list ap; va_start( ap, f ); vsnprintf( b, sizeof b, f, ap ); va_end( ap );
  return b;
}

inline void emit( const std::string &body ) {
  std::string l = "\n@@ {" + body + "}\n";
  fflush( stdout );
  size_t off = 0;
  while( off < l.size() ) {
    ssize_t w = ::write( 1, l.data() + off, l.size() - off );
    if( w <= 0 ) break;
    off += (size_t)w;
  }
}

inline void viol( const std::string &key, const std::string &msg ) {
  n_viol++;
  if( n_viol <= max_viol )
    emit( "\"t\":\"viol\",\"key\":\"" + esc( key ) + "\",\"msg\":\"" + esc( msg ) + fmt( "\",\"case\":%d,\"rank\":%d", cur_case, world_rank ) );
}

inline void sample( const std::string &s, int cap = 3 ) {
  if( n_sample++ < cap ) emit( "\"t\":\"sample\",\"s\":\"" + esc( s ) + "\"" );
}

inline void count( const char *k, int64_t n = 1 ) { counters[k] += n; }
inline void eval( const std::string &sig ) { n_eval++; sigs.insert( sig ); }

inline void parse( int &argc, char **&argv ) {
  int o = 1;
  for( int k = 1; k < argc; k++ ) {
    std::string a = argv[k];
    if( a == "--seed" && k + 1 < argc ) opt_seed = atoll( argv[++k] );
    else if( a == "--cases" && k + 1 < argc ) opt_cases = atoi( argv[++k] );
    else if( a == "--first" && k + 1 < argc ) opt_first = atoi( argv[++k] );
    else if( a == "--mode" && k + 1 < argc ) opt_mode = argv[++k];
    else if( a == "--dir" && k + 1 < argc ) opt_dir = argv[++k];
    else argv[o++] = argv[k];
  }
  argc = o;
  argv[o] = NULL;
}

inline void done( bool all_ranks = false ) {
  std::string s = fmt( "\"t\":\"stat\",\"evals\":%lld,\"distinct\":%lld", (long long)n_eval, (long long)sigs.size() );
  for( std::map<std::string,int64_t>::iterator it = counters.begin(); it != counters.end(); ++it )
    s += fmt( ",\"%s\":%lld", it->first.c_str(), (long long)it->second );
  emit( s );
  emit( "\"t\":\"done\"" );
}

// |got-want| <= tol, NaN aware
inline bool close( double got, double want, double tol ) {
  if( std::isnan( got ) || std::isnan( want ) ) return false;
  return fabs( got - want ) <= tol;
}

// at the start of each case: what the cases before it left behind
#ifdef RV_RES
static inline void each_case( long k ) { const char *m = rv_res_case( k ); if( m ) viol( "left-behind", m ); count( "cases_settled" ); }
#else
static inline void each_case( long ) {}
#endif
} // namespace rv
#endif
