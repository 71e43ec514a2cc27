// Injected scheduling delays: when RV_DELAY is set, calls of the threading
// primitives are randomly delayed before and after (seeded by RV_DELAY).
#ifndef rv_delay_h
#define rv_delay_h
#if defined(__has_feature)
#if __has_feature(thread_sanitizer) || __has_feature(address_sanitizer)
#define RV_SANITIZED
#endif
#endif
#if defined(__SANITIZE_THREAD__) || defined(__SANITIZE_ADDRESS__)
#define RV_SANITIZED
#endif
#ifndef RV_SANITIZED
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>

static uint64_t rv_delay_seed() {
  static const char *v = getenv( "RV_DELAY" );
  static uint64_t s = v ? strtoull( v, 0, 10 ) + 1 : 0;
  return s;
}
static __thread uint64_t rv_delay_state;
static volatile long rv_delays;
static void rv_delay_point() {
  uint64_t s = rv_delay_seed(); if( !s ) return;
  if( !rv_delay_state ) rv_delay_state = s * 0x9e3779b97f4a7c15ull ^ (uint64_t)(uintptr_t)pthread_self();
  uint64_t z = ( rv_delay_state += 0x9e3779b97f4a7c15ull );
  z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull; z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull; z ^= z >> 31;
  int k = z & 63;
  if( k < 12 ) { for( volatile int i = 0; i < (int)( ( z >> 8 ) % 3000 ); i++ ) {} }
  else if( k < 16 ) sched_yield();
  else if( k == 17 ) usleep( ( z >> 8 ) % 120 );
  else return;
  __atomic_fetch_add( &rv_delays, 1, __ATOMIC_RELAXED );
}
#define RV_WRAP( ver, ret, name, decl, call )                         \
  extern "C" ret name decl {                                          \
    typedef ret (*fn_t) decl;                                         \
    static fn_t fn = 0;                                               \
    fn_t f = __atomic_load_n( &fn, __ATOMIC_RELAXED );                \
    if( !f ) { f = (fn_t)dlvsym( RTLD_NEXT, #name, ver ); if( !f ) f = (fn_t)dlsym( RTLD_NEXT, #name ); __atomic_store_n( &fn, f, __ATOMIC_RELAXED ); } \
    rv_delay_point(); ret r = f call; rv_delay_point(); return r;     \
  }
RV_WRAP( "GLIBC_2.3.2", int, pthread_cond_wait, ( pthread_cond_t *c, pthread_mutex_t *m ), ( c, m ) )
RV_WRAP( "GLIBC_2.3.2", int, pthread_cond_signal, ( pthread_cond_t *c ), ( c ) )
RV_WRAP( "GLIBC_2.2.5", int, pthread_mutex_unlock, ( pthread_mutex_t *m ), ( m ) )
#endif
#endif
