// Lane-by-lane differential monitor of the vector classes: every operation on
// hostile and random operands against the scalar operation on that lane.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unistd.h>
#include <cstdarg>
#ifndef ALIGNED
#define ALIGNED(n)
#endif
#include "src/util/v4/v4.h"
#include "src/util/v8/v8.h"
#include "src/util/v16/v16.h"
static int world_rank = 0;
#define rv_h_no_vpic
static uint64_t S;
static uint64_t nxt() { uint64_t z = ( S += 0x9e3779b97f4a7c15ull ); z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull; z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull; return z ^ ( z >> 31 ); }
static double ud() { return ( nxt() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
static int ri( int a, int b ) { return a + (int)( nxt() % (uint64_t)( b - a + 1 ) ); }
static std::map<std::string,int64_t> ops; static int64_t nlane = 0; static int nviol = 0; static std::set<std::string> seen;
static std::string fmt( const char *f, ... ) { char b[900]; va_list ap; va_start( ap, f ); vsnprintf( b, sizeof b, f, ap ); va_end( ap ); return b; }
static void viol( const std::string &op, const std::string &m ) {
  nviol++;
  if( seen.insert( op ).second || nviol < 4 ) { printf( "\n@@ {\"t\":\"viol\",\"key\":\"%s\",\"msg\":\"%s\",\"case\":0}\n", op.c_str(), m.c_str() ); fflush( stdout ); }
}
union W { float f; int i; uint32_t u; };
static uint32_t bits( float f ) { W w; w.f = f; return w.u; }
static bool same( float a, float b ) { return bits( a ) == bits( b ) || ( a != a && b != b ); }

// exact lane check
#define CKF( name, got, want, a_, b_ ) do { nlane++; ops[name]++; float g_ = (got), w_ = (float)(want); if( !same( g_, w_ ) ) viol( name, fmt( "%s lane %d: got %.9g (%08x), scalar gives %.9g (%08x); operands %.9g (%08x) %.9g (%08x)", name, k, g_, bits(g_), w_, bits(w_), (double)(a_), bits(a_), (double)(b_), bits(b_) ) ); } while(0)
#define CKI( name, got, want, a_, b_ ) do { nlane++; ops[name]++; int g_ = (got), w_ = (want); if( g_ != w_ ) viol( name, fmt( "%s lane %d: got %d, scalar gives %d; operands %.9g %.9g", name, k, g_, w_, (double)(a_), (double)(b_) ) ); } while(0)
#define CKT( name, got, want, rel, abs_, a_ ) do { nlane++; ops[name]++; double got_ = (got), want_ = (want); if( !( fabs( got_ - want_ ) <= (rel) * fabs( want_ ) + (abs_) ) ) viol( name, fmt( "%s lane %d: got %.9g, scalar gives %.9g; operand %.9g", name, k, got_, want_, (double)(a_) ) ); } while(0)

static float hostf() {
  static const float h[] = { 0.f, -0.f, 1.f, -1.f, 2.f, -2.f, 0.5f, 1e-30f, -1e-30f, 1e30f, -1e30f, 3.4e38f, 1.17549435e-38f, 16777216.f, 16777217.f, -0.99999994f, 1.00000012f, 3.14159274f, 1e-6f, -7.25f };
  double c = ud();
  if( c < 0.3 ) return h[ ri( 0, 19 ) ];
  if( c < 0.8 ) return (float)( ( ud() * 2 - 1 ) * 10 );
  W w; do { w.u = (uint32_t)nxt(); } while( ( ( w.u >> 23 ) & 255 ) < 40 || ( ( w.u >> 23 ) & 255 ) > 215 );
  return w.f;
}
static int hosti() {
  static const int h[] = { 0, 1, -1, 2, -2, 7, 255, 256, -256, 65535, 1 << 20, 0x3fffffff, -0x3fffffff, 12345 };
  return ud() < 0.4 ? h[ ri( 0, 13 ) ] : (int)( nxt() & 0x3fffffff ) - 0x1fffffff;
}

#define P4(a) (a)[0],(a)[1],(a)[2],(a)[3]
#define P4o(a,o) (a)[(o)+0],(a)[(o)+1],(a)[(o)+2],(a)[(o)+3]
#define P8(a) P4(a),P4o(a,4)
#define P16(a) P8(a),P4o(a,8),P4o(a,12)
#define P2(a) (a)[0],(a)[1]
#define P3(a) (a)[0],(a)[1],(a)[2]
#define P1(a) (a)[0]

#ifdef V4_ACCELERATION
#define N 4
#define VB v4::v4
#define VI v4::v4int
#define VF v4::v4float
#define PN P4
#define NM(x) x##_4x1
#define FN run4
#define NS v4
#include "vec_body.h"
#undef N
#undef VB
#undef VI
#undef VF
#undef PN
#undef NM
#undef FN
#undef NS
#endif
#ifdef V8_ACCELERATION
#define N 8
#define VB v8::v8
#define VI v8::v8int
#define VF v8::v8float
#define PN P8
#define NM(x) x##_8x1
#define FN run8
#define NS v8
#include "vec_body.h"
#undef N
#undef VB
#undef VI
#undef VF
#undef PN
#undef NM
#undef FN
#undef NS
#endif
#ifdef V16_ACCELERATION
#define N 16
#define VB v16::v16
#define VI v16::v16int
#define VF v16::v16float
#define PN P16
#define NM(x) x##_16x1
#define FN run16
#define NS v16
#include "vec_body.h"
#undef N
#undef VB
#undef VI
#undef VF
#undef PN
#undef NM
#undef FN
#undef NS
#endif

int main( int argc, char **argv ) {
  int64_t seed = 1; int cases = 100;
  for( int k = 1; k + 1 < argc; k++ ) { if( !strcmp( argv[k], "--seed" ) ) seed = atoll( argv[k+1] ); if( !strcmp( argv[k], "--cases" ) ) cases = atoi( argv[k+1] ); }
  int widths = 0;
#ifdef V4_ACCELERATION
  S = seed * 1000003 + 4; widths++; for( int c = 0; c < cases; c++ ) run4();
#endif
#ifdef V8_ACCELERATION
  S = seed * 1000003 + 8; widths++; for( int c = 0; c < cases; c++ ) run8();
#endif
#ifdef V16_ACCELERATION
  S = seed * 1000003 + 16; widths++; for( int c = 0; c < cases; c++ ) run16();
#endif
  if( !widths ) { printf( "no vector class in this build\n" ); return 3; }
  printf( "\n@@ {\"t\":\"sample\",\"s\":\"%d widths, %d distinct operations, e.g. %s x%lld\"}\n", widths, (int)ops.size(), ops.begin()->first.c_str(), (long long)ops.begin()->second );
  printf( "\n@@ {\"t\":\"stat\",\"evals\":%lld,\"distinct\":%d,\"lanes_compared\":%lld}\n@@ {\"t\":\"done\"}\n", (long long)cases * widths, (int)ops.size() * widths, (long long)nlane );
  return 0;
}
