// Message passing and collectives against what was posted.
#include "rv_part.h"
#include <sys/mman.h>
#include <fcntl.h>
using namespace rv;

static unsigned char pat( uint64_t s, int64_t k ) { uint64_t h = ( s + (uint64_t)( k >> 3 ) ) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; return (unsigned char)( h >> ( 8 * ( k & 7 ) ) ); }
static void fill( unsigned char *p, int n, uint64_t s ) { for( int k = 0; k < n; k++ ) p[k] = pat( s, k ); }
static int differs( const unsigned char *p, int n, uint64_t s ) { for( int k = 0; k < n; k++ ) if( p[k] != pat( s, k ) ) return k; return -1; }
static void nap( Rng &r ) { if( r.chance( 0.15 ) ) usleep( r.i( 0, 3 ) ? r.i( 0, 80 ) : r.i( 0, 1500 ) ); }

struct Shared { volatile int in, out, enter[64], leave[64]; volatile int inside, seq; };
static Shared *sh; // seen by all ranks
static void share() {
  std::string f = opt_dir + "/shared";
  int fd = open( f.c_str(), O_RDWR | O_CREAT, 0600 );
  if( fd < 0 || ftruncate( fd, sizeof( Shared ) ) ) _exit( 77 );
  sh = (Shared*)mmap( 0, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 );
  close( fd );
  MPI_Barrier( MPI_COMM_WORLD );
}
static void wipe() { MPI_Barrier( MPI_COMM_WORLD ); if( world_rank == 0 ) memset( (void*)sh, 0, sizeof *sh ); MPI_Barrier( MPI_COMM_WORLD ); }

struct Link { int s, sp, d, dp, tag; };
static int draw_size( Rng &r ) {
  static const int sz[] = { 1, 1, 2, 3, 7, 8, 16, 127, 128, 129, 1000, 4095, 4096, 4097, 12345, 65536, 65537, 200000 };
  return r.chance( 0.01 ) ? r.i( 1 << 20, 1 << 23 ) : r.chance( 0.3 ) ? r.i( 1, 3000 ) : sz[ r.i( 0, 17 ) ];
}

// what a rank knows of its own buffers
struct Mirror { std::vector<unsigned char> v; };

static void exchange( Rng &r, mp_t *mp, int np, const std::vector<Link> &L, int rounds, std::vector<Mirror> &rm, const std::string &ctx ) {
  int me = world_rank, growmode = r.i( 0, 2 ); // 0 any, 1 growing, 2 shrinking
  uint64_t s0 = r.next();
  std::vector<int> last( L.size(), 0 );
  Rng own( mix( s0, me + 1000 ) );
  for( int it = 0; it < rounds; it++ ) {
    struct Op { int kind, l; }; std::vector<Op> ops, ends; std::vector<int> size( L.size() );
    std::vector<char> use( L.size() );
    for( size_t k = 0; k < L.size(); k++ ) {
      size[k] = draw_size( r ); use[k] = r.chance( 0.85 );
      if( growmode == 1 ) size[k] = std::max( size[k] % 5000 + 1, last[k] + r.i( 0, 40 ) );
      if( growmode == 2 ) size[k] = std::max( 1, ( last[k] ? last[k] : size[k] ) - r.i( 0, 500 ) );
      if( use[k] ) last[k] = size[k];
      if( !use[k] ) continue;
      Op o; o.l = (int)k;
      if( L[k].s == me ) { o.kind = 0; ops.push_back( o ); }
      if( L[k].d == me ) { o.kind = 1; ops.push_back( o ); }
    }
    for( size_t k = ops.size(); k > 1; k-- ) std::swap( ops[k-1], ops[ own.i( 0, (int)k - 1 ) ] );
    for( size_t k = 0; k < ops.size(); k++ ) {
      const Link &l = L[ ops[k].l ]; int n = size[ ops[k].l ]; uint64_t key = mix( s0, it * 1000 + ops[k].l );
      nap( own );
      if( ops[k].kind == 0 ) {
        if( own.chance( 0.3 ) ) { // written in instalments, the buffer growing under what is in it
          int h = own.i( 1, n ); mp_size_send_buffer( mp, l.sp, h );
          fill( (unsigned char*)mp_send_buffer( mp, l.sp ), h, key + 1 );
          std::vector<unsigned char> was( (unsigned char*)mp_send_buffer( mp, l.sp ), (unsigned char*)mp_send_buffer( mp, l.sp ) + h );
          mp_size_send_buffer( mp, l.sp, n );
          if( memcmp( mp_send_buffer( mp, l.sp ), &was[0], h ) ) viol( "resize", fmt( "sizing the send buffer of port %d for %d bytes changed the %d bytes in it %s", l.sp, n, h, ctx.c_str() ) );
          count( "instalments" );
        }
        mp_size_send_buffer( mp, l.sp, n );
        unsigned char *b = (unsigned char*)mp_send_buffer( mp, l.sp );
        if( !b || ( (size_t)b & 127 ) ) viol( "buffer", fmt( "send buffer of port %d is at %p %s", l.sp, b, ctx.c_str() ) );
        fill( b, n, key );
        mp_begin_send( mp, l.sp, n, l.d, l.tag );
      } else {
        int had = (int)rm[l.dp].v.size();
        mp_size_recv_buffer( mp, l.dp, n );
        unsigned char *b = (unsigned char*)mp_recv_buffer( mp, l.dp );
        if( !b || ( (size_t)b & 127 ) ) viol( "buffer", fmt( "receive buffer of port %d is at %p %s", l.dp, b, ctx.c_str() ) );
        if( had && memcmp( b, &rm[l.dp].v[0], had ) ) viol( "resize", fmt( "sizing the buffer of port %d for %d bytes changed the %d bytes in it %s", l.dp, n, had, ctx.c_str() ) );
        mp_begin_recv( mp, l.dp, n, l.s, l.tag );
      }
    }
    ends = ops;
    for( size_t k = ends.size(); k > 1; k-- ) std::swap( ends[k-1], ends[ own.i( 0, (int)k - 1 ) ] );
    for( size_t k = 0; k < ends.size(); k++ ) {
      const Link &l = L[ ends[k].l ]; int n = size[ ends[k].l ]; uint64_t key = mix( s0, it * 1000 + ends[k].l ); int at;
      nap( own );
      if( ends[k].kind == 0 ) {
        mp_end_send( mp, l.sp );
        if( ( at = differs( (unsigned char*)mp_send_buffer( mp, l.sp ), n, key ) ) >= 0 ) viol( "send-buffer", fmt( "byte %d of %d in the send buffer of port %d changed %s", at, n, l.sp, ctx.c_str() ) );
      } else {
        mp_end_recv( mp, l.dp );
        unsigned char *b = (unsigned char*)mp_recv_buffer( mp, l.dp );
        if( ( at = differs( b, n, key ) ) >= 0 ) viol( "delivery", fmt( "round %d: byte %d of %d sent from rank %d port %d to rank %d port %d differs %s", it, at, n, l.s, l.sp, l.d, l.dp, ctx.c_str() ) );
        std::vector<unsigned char> &v = rm[l.dp].v; if( (int)v.size() < n ) v.resize( n );
        for( int q = 0; q < n; q++ ) v[q] = pat( key, q );
        count( "messages" ); count( "bytes", n );
      }
    }
    for( int p = 0; p < np; p++ ) if( rm[p].v.size() ) {
      if( memcmp( mp_recv_buffer( mp, p ), &rm[p].v[0], rm[p].v.size() ) ) viol( "independence", fmt( "round %d: the buffer of port %d no longer holds its last message %s", it, p, ctx.c_str() ) );
    }
  }
}
static std::vector<Link> draw_links( Rng &r, int np, int n ) {
  std::set<int> su, du; std::set<std::vector<int> > tu; std::vector<Link> L;
  for( int k = 0; k < n; k++ ) {
    Link l = { r.i( 0, world_size - 1 ), r.i( 0, np - 1 ), r.i( 0, world_size - 1 ), r.i( 0, np - 1 ), r.i( 0, 3 ) ? r.i( 0, 30 ) : r.i( 0, 30000 ) };
    std::vector<int> t; t.push_back( l.s ); t.push_back( l.d ); t.push_back( l.tag );
    if( su.count( l.s * 1000 + l.sp ) || du.count( l.d * 1000 + l.dp ) || tu.count( t ) ) continue;
    su.insert( l.s * 1000 + l.sp ); du.insert( l.d * 1000 + l.dp ); tu.insert( t ); L.push_back( l );
  }
  return L;
}
static void ports( Rng &r ) {
  int np = r.i( 1, 3 ) == 1 ? r.i( 1, 60 ) : r.i( 1, 27 );
  std::vector<Link> L = draw_links( r, np, r.i( 1, 10 + 4 * world_size ) );
  std::string ctx = fmt( "case %d seed %lld ranks=%d ports=%d links=%d", cur_case, (long long)opt_seed, world_size, np, (int)L.size() );
  mp_t *mp = new_mp( np ); std::vector<Mirror> rm( np );
  exchange( r, mp, np, L, r.i( 1, 6 ), rm, ctx );
  eval( fmt( "ports %d %d %d", world_size, np, (int)L.size() ) );
  if( world_rank == 0 ) sample( ctx );
  delete_mp( mp );
}

static void gridports( Rng &r ) {
  int P[3]; draw_topology( r, P );
  grid_t *g = new_grid(); int n[3] = { r.i( 1, 4 ), r.i( 1, 4 ), r.i( 1, 4 ) };
  partition_periodic_box( g, 0,0,0, 1,1,1, n[0]*P[0], n[1]*P[1], n[2]*P[2], P[0], P[1], P[2] );
  int p[3] = { world_rank % P[0], world_rank / P[0] % P[1], world_rank / P[0] / P[1] };
  bool edges = r.chance( 0.5 ), open[3]; for( int a = 0; a < 3; a++ ) open[a] = r.chance( 0.4 );
  int peer[27];
  for( int k = 0; k < 27; k++ ) {
    int q[3], dir[3] = { k % 3 - 1, k / 3 % 3 - 1, k / 9 - 1 }, m = abs( dir[0] ) + abs( dir[1] ) + abs( dir[2] ); bool out = false;
    for( int a = 0; a < 3; a++ ) { q[a] = p[a] + dir[a]; if( ( q[a] < 0 || q[a] >= P[a] ) && open[a] ) out = true; q[a] = ( q[a] + P[a] ) % P[a]; }
    peer[k] = m == 0 || out || ( m > 1 && !edges ) ? -1 : q[0] + P[0] * ( q[1] + P[1] * q[2] );
    if( m == 0 ) continue;
    if( m > 1 && peer[k] >= 0 ) join_grid( g, k, peer[k] );
    if( m == 1 && out ) set_fbc( g, k, world_rank & 1 ? pec_fields : absorb_fields );
  }
  Rng own( mix( r.next(), world_rank ) ); int rounds = r.i( 1, 5 ); uint64_t s0 = r.next();
  std::string ctx = fmt( "case %d seed %lld ranks=%dx%dx%d edges=%d open=%d%d%d", cur_case, (long long)opt_seed, P[0], P[1], P[2], edges, open[0], open[1], open[2] );
  for( int it = 0; it < rounds; it++ ) {
    int size[27]; for( int k = 0; k < 27; k++ ) size[k] = draw_size( r ); // by direction of travel
    // receive of a message travelling along direction k comes from the rank at -k
    std::vector<int> o; for( int k = 0; k < 54; k++ ) if( k % 27 != 13 ) o.push_back( k );
    std::vector<int> e = o;
    for( size_t k = o.size(); k > 1; k-- ) { std::swap( o[k-1], o[ own.i( 0, (int)k - 1 ) ] ); std::swap( e[k-1], e[ own.i( 0, (int)k - 1 ) ] ); }
    for( size_t q = 0; q < o.size(); q++ ) {
      int k = o[q] % 27, d[3] = { k % 3 - 1, k / 3 % 3 - 1, k / 9 - 1 }; nap( own );
      if( o[q] < 27 ) begin_recv_port( d[0], d[1], d[2], size[k], g );
      else {
        void *b = size_send_port( d[0], d[1], d[2], size[k], g );
        if( ( b != NULL ) != ( peer[k] >= 0 ) ) viol( "port", fmt( "direction %d: buffer %p although the neighbour is %d %s", k, b, peer[k], ctx.c_str() ) );
        if( b ) fill( (unsigned char*)b, size[k], mix( s0, ( it * 100 + k ) * 100 + world_rank ) );
        begin_send_port( d[0], d[1], d[2], size[k], g );
      }
    }
    for( size_t q = 0; q < e.size(); q++ ) {
      int k = e[q] % 27, d[3] = { k % 3 - 1, k / 3 % 3 - 1, k / 9 - 1 }; nap( own );
      if( e[q] >= 27 ) { end_send_port( d[0], d[1], d[2], g ); continue; }
      void *b = end_recv_port( d[0], d[1], d[2], g ); int from = peer[ 26 - k ], at;
      if( ( b != NULL ) != ( from >= 0 ) ) { viol( "port", fmt( "direction %d: received %p although the neighbour is %d %s", k, b, from, ctx.c_str() ) ); continue; }
      if( b && ( at = differs( (unsigned char*)b, size[k], mix( s0, ( it * 100 + k ) * 100 + from ) ) ) >= 0 ) viol( "delivery", fmt( "round %d: byte %d of %d from rank %d along direction %d differs %s", it, at, size[k], from, k, ctx.c_str() ) );
      if( b ) { count( "messages" ); count( "bytes", size[k] ); }
    }
  }
  eval( fmt( "grid %dx%dx%d %d %d%d%d", P[0], P[1], P[2], edges, open[0], open[1], open[2] ) );
  delete_grid( g );
}

static void collectives( Rng &r ) {
  int W = world_size, n = r.i( 0, 3 ) ? r.i( 1, 9 ) : r.i( 1, 3000 );
  std::string ctx = fmt( "case %d seed %lld ranks=%d n=%d", cur_case, (long long)opt_seed, W, n );
  uint64_t s = r.next(); bool exact = r.chance( 0.5 ); Rng own( mix( s, world_rank ) );
  nap( own );
  { std::vector<double> a( n ), b( n, -7 ), all( (size_t)n * W );
    for( int k = 0; k < n; k++ ) a[k] = exact ? own.i( -1000000, 1000000 ) : own.u( -1, 1 ) * pow( 10., own.i( -8, 8 ) );
    std::vector<double> a0 = a;
    mp_allsum_d( &a[0], &b[0], n ); nap( own );
    MPI_Allgather( &a0[0], n, MPI_DOUBLE, &all[0], n, MPI_DOUBLE, MPI_COMM_WORLD );
    std::vector<double> allb( (size_t)n * W ); MPI_Allgather( &b[0], n, MPI_DOUBLE, &allb[0], n, MPI_DOUBLE, MPI_COMM_WORLD );
    for( int k = 0; k < n; k++ ) {
      long double t = 0, m = 0; for( int q = 0; q < W; q++ ) { t += all[ (size_t)q*n+k ]; m += fabsl( all[ (size_t)q*n+k ] ); }
      if( !close( b[k], (double)t, exact ? 0 : (double)( 4e-16 * W * m ) ) ) { viol( "allsum", fmt( "sum %d is %.17g, expected %.17Lg %s", k, b[k], t, ctx.c_str() ) ); break; }
      for( int q = 0; q < W; q++ ) if( allb[ (size_t)q*n+k ] != b[k] ) { viol( "allsum", fmt( "rank %d has %.17g, rank %d %.17g %s", q, allb[ (size_t)q*n+k ], world_rank, b[k], ctx.c_str() ) ); break; }
    }
    if( memcmp( &a[0], &a0[0], n * sizeof( double ) ) ) viol( "allsum", "the summands were changed " + ctx );
    count( "sums", n );
  }
  { std::vector<int> a( n ), b( n + 1, -7 ), all( (size_t)n * W );
    for( int k = 0; k < n; k++ ) a[k] = own.i( -20000000, 20000000 );
    mp_allsum_i( &a[0], &b[0], n ); nap( own );
    MPI_Allgather( &a[0], n, MPI_INT, &all[0], n, MPI_INT, MPI_COMM_WORLD );
    for( int k = 0; k < n; k++ ) { int t = 0; for( int q = 0; q < W; q++ ) t += all[ (size_t)q*n+k ]; if( b[k] != t ) { viol( "allsum", fmt( "integer sum %d is %d, expected %d %s", k, b[k], t, ctx.c_str() ) ); break; } }
    if( b[n] != -7 ) viol( "allsum", "wrote past the end " + ctx );
    count( "sums", n );
  }
  { std::vector<int> a( n ), b( (size_t)n * W + 1, -7 );
    for( int k = 0; k < n; k++ ) a[k] = (int)mix( s ^ world_rank, k );
    mp_allgather_i( &a[0], &b[0], n ); nap( own );
    for( int q = 0; q < W; q++ ) for( int k = 0; k < n; k++ ) if( b[ (size_t)q*n+k ] != (int)mix( s ^ q, k ) ) { viol( "allgather", fmt( "int %d of rank %d is wrong %s", k, q, ctx.c_str() ) ); q = W; break; }
    if( b[ (size_t)n*W ] != -7 ) viol( "allgather", "wrote past the end " + ctx );
    count( "gathers" );
  }
  { std::vector<int64_t> a( n ), b( (size_t)n * W + 1, -7 );
    for( int k = 0; k < n; k++ ) a[k] = (int64_t)mix( s ^ world_rank, k );
    mp_allgather_i64( &a[0], &b[0], n ); nap( own );
    for( int q = 0; q < W; q++ ) for( int k = 0; k < n; k++ ) if( b[ (size_t)q*n+k ] != (int64_t)mix( s ^ q, k ) ) { viol( "allgather", fmt( "int64 %d of rank %d is %lld %s", k, q, (long long)b[ (size_t)q*n+k ], ctx.c_str() ) ); q = W; break; }
    if( b[ (size_t)n*W ] != -7 ) viol( "allgather", "wrote past the end " + ctx );
    count( "gathers" );
  }
  { std::vector<unsigned char> a( n ), b( (size_t)n * W + 1, 77 );
    for( int k = 0; k < n; k++ ) a[k] = (unsigned char)mix( s ^ world_rank, k );
    mp_gather_uc( &a[0], world_rank == 0 || own.chance( 0.5 ) ? &b[0] : NULL, n ); nap( own );
    if( world_rank == 0 ) for( int q = 0; q < W; q++ ) for( int k = 0; k < n; k++ ) if( b[ (size_t)q*n+k ] != (unsigned char)mix( s ^ q, k ) ) { viol( "gather", fmt( "byte %d of rank %d is wrong %s", k, q, ctx.c_str() ) ); q = W; break; }
    if( b[ (size_t)n*W ] != 77 ) viol( "gather", "wrote past the end " + ctx );
    count( "gathers" );
  }
  if( W > 1 ) { // a chain of blocking sends, in order
    int a = r.i( 0, W - 1 ), b; do b = r.i( 0, W - 1 ); while( b == a ); int m = r.i( 1, 12 );
    for( int q = 0; q < m; q++ ) {
      int len = r.i( 1, 400 ); std::vector<int> v( len + 1, -7 );
      if( world_rank == a ) { for( int k = 0; k < len; k++ ) v[k] = (int)mix( s + q, k ); nap( own ); mp_send_i( &v[0], len, b ); }
      if( world_rank == b ) { nap( own ); mp_recv_i( &v[0], len, a ); for( int k = 0; k < len; k++ ) if( v[k] != (int)mix( s + q, k ) ) { viol( "send", fmt( "message %d: int %d differs %s", q, k, ctx.c_str() ) ); break; } if( v[len] != -7 ) viol( "send", "wrote past the end " + ctx ); count( "messages" ); }
    }
  }
  // no rank leaves a barrier before all have come
  wipe();
  for( int q = 0; q < 3; q++ ) {
    nap( own ); __sync_fetch_and_add( &sh->in, 1 );
    mp_barrier();
    int c = sh->in; if( c < W * ( q + 1 ) ) viol( "barrier", fmt( "rank %d left barrier %d when %d of %d had come %s", world_rank, q, c - W * q, W, ctx.c_str() ) );
    count( "barriers" );
    MPI_Barrier( MPI_COMM_WORLD );
  }
  eval( fmt( "coll %d %d %d", W, n, exact ) );
}

static void turnstile( Rng &r ) {
  int W = world_size, n = r.i( 1, W + 1 ); Rng own( mix( r.next(), world_rank ) );
  std::string ctx = fmt( "case %d seed %lld ranks=%d turnstile(%d)", cur_case, (long long)opt_seed, W, n );
  wipe();
  int times = 0;
  nap( own );
  BEGIN_TURNSTILE( n ) {
    int in = __sync_add_and_fetch( &sh->inside, 1 ); sh->enter[world_rank] = __sync_add_and_fetch( &sh->seq, 1 );
    if( in > n ) viol( "turnstile", fmt( "%d ranks are inside at once %s", in, ctx.c_str() ) );
    times++; usleep( own.i( 0, 300 ) );
    __sync_add_and_fetch( &sh->inside, -1 ); sh->leave[world_rank] = __sync_add_and_fetch( &sh->seq, 1 );
  } END_TURNSTILE;
  MPI_Barrier( MPI_COMM_WORLD );
  if( times != 1 ) viol( "turnstile", fmt( "rank %d passed %d times %s", world_rank, times, ctx.c_str() ) );
  if( world_rank == 0 ) for( int k = n; k < W; k++ ) if( sh->enter[k] < sh->leave[k-n] ) viol( "turnstile", fmt( "rank %d entered before rank %d left %s", k, k - n, ctx.c_str() ) );
  count( "turnstiles" );
  eval( fmt( "turnstile %d %d", W, n ) );
}

// a message hub restored in another process still holds its messages and works
struct hub { mp_t *mp; int np; };
static hub *back;
extern "C" void checkpt_hub( const hub *h ) { CHECKPT( h, 1 ); CHECKPT_PTR( h->mp ); }
extern "C" hub *restore_hub( void ) { hub *h; RESTORE( h ); RESTORE_PTR( h->mp ); back = h; return h; }
static void resume() {
  Rng r( mix( opt_seed, 3 ) ); int np = r.i( 1, 27 );
  std::vector<Link> L = draw_links( r, np, r.i( 1, 30 ) ); int rounds = r.i( 1, 3 );
  std::string ctx = fmt( "seed %lld ranks=%d resumed hub", (long long)opt_seed, world_size ), f = fmt( "%s/hub.%d", opt_dir.c_str(), world_rank );
  std::vector<Mirror> rm( np );
  hub *h; MALLOC( h, 1 ); h->np = np; h->mp = new_mp( np );
  REGISTER_OBJECT( h, checkpt_hub, restore_hub, NULL );
  Rng r2 = r;
  exchange( r, h->mp, np, L, rounds, rm, ctx );
  if( opt_mode == "save" ) checkpt_objects( f.c_str() );
  else {
    restore_objects( f.c_str() ); mp_barrier(); reanimate_objects();
    for( int p = 0; p < np; p++ ) if( rm[p].v.size() ) {
      void *b = mp_recv_buffer( back->mp, p );
      if( !b || ( (size_t)b & 127 ) || memcmp( b, &rm[p].v[0], rm[p].v.size() ) ) viol( "restored", fmt( "the buffer of port %d lost its message %s", p, ctx.c_str() ) );
    }
    exchange( r, back->mp, np, L, 3, rm, ctx );
    count( "hubs_restored" );
  }
  eval( fmt( "resume %lld", (long long)opt_seed ) );
  done( true );
  fflush( stdout ); mp_barrier(); MPI_Finalize(); _exit( 0 );
}

// requests that cannot be honoured
static void reject() {
  int k = (int)( opt_seed % 16 ), np = 5; mp_t *mp = new_mp( np ); int v[4] = { 0, 0, 0, 0 }, o[4];
  mp_size_send_buffer( mp, 1, 100 ); mp_size_recv_buffer( mp, 1, 100 );
  emit( fmt( "\"t\":\"asked\",\"k\":%d", k ) );
  switch( k ) {
  case 0: mp_size_send_buffer( mp, np, 10 ); break;
  case 1: mp_size_recv_buffer( mp, np, 10 ); break;
  case 2: mp_size_send_buffer( mp, -1, 10 ); break;
  case 3: mp_begin_send( mp, 1, 1000, 0, 0 ); break;
  case 4: mp_begin_recv( mp, 1, 1000, 0, 0 ); break;
  case 5: mp_begin_send( mp, 1, 10, world_size, 0 ); break;
  case 6: mp_begin_recv( mp, 1, 10, -1, 0 ); break;
  case 7: mp_recv_buffer( mp, np ); break;
  case 8: mp_begin_send( mp, 2, 10, 0, 0 ); break; // never sized
  case 9: mp_begin_recv( mp, 1, 50, world_rank, 3 ); mp_begin_send( mp, 1, 20, world_rank, 3 ); mp_end_recv( mp, 1 ); break; // sizes differ
  case 10: mp_allsum_i( v, o, 0 ); break;
  case 11: mp_size_recv_buffer( mp, 1, 0 ); break;
  // a little more than was asked for: refused, or there is room for it
  case 12: case 13: {
    mp_size_send_buffer( mp, 1, 1000 ); mp_size_recv_buffer( mp, 1, 1000 );
    int n = k == 12 ? 1500 : 2400; mp_size_send_buffer( mp, 0, n ); char *b = (char*)mp_send_buffer( mp, 0 ); for( int q = 0; q < n; q++ ) b[q] = (char)( q * 7 );
    mp_begin_recv( mp, 1, n, world_rank, 3 ); mp_begin_send( mp, 0, n, world_rank, 3 ); mp_end_recv( mp, 1 ); mp_end_send( mp, 0 );
    b = (char*)mp_recv_buffer( mp, 1 ); for( int q = 0; q < n; q++ ) if( b[q] != (char)( q * 7 ) ) { emit( "\"t\":\"accepted\"" ); break; }
    emit( "\"t\":\"had_room\"" ); fflush( stdout ); MPI_Finalize(); _exit( 0 );
  }
  case 14: case 15: {
    mp_size_send_buffer( mp, 1, 1000 ); mp_size_recv_buffer( mp, 1, 1000 );
    int n = k == 14 ? 1500 : 2400; mp_size_recv_buffer( mp, 0, n );
    mp_begin_recv( mp, 0, n, world_rank, 3 ); mp_begin_send( mp, 1, n, world_rank, 3 ); mp_end_recv( mp, 0 ); mp_end_send( mp, 1 );
    volatile char s = 0; char *b = (char*)mp_send_buffer( mp, 1 ); for( int q = 0; q < n; q++ ) s += b[q];
    emit( "\"t\":\"had_room\"" ); fflush( stdout ); MPI_Finalize(); _exit( 0 );
  }
  }
  emit( "\"t\":\"accepted\"" );
  fflush( stdout ); MPI_Finalize(); _exit( 0 );
}

int main( int argc, char **argv ) {
  parse( argc, argv );
  boot_services( &argc, &argv );
  int wr, ws; MPI_Comm_rank( MPI_COMM_WORLD, &wr ); MPI_Comm_size( MPI_COMM_WORLD, &ws );
  if( wr != world_rank || ws != world_size ) viol( "world", fmt( "rank %d of %d is told %d of %d", wr, ws, world_rank, world_size ) );
  if( opt_mode == "save" || opt_mode == "resume" ) resume();
  if( opt_mode == "reject" ) reject();
  if( opt_mode == "huge" ) { // sizes near the top of the range an int can ask for; the pages are never touched but for the ends
    mp_t *mp = new_mp( 2 ); Rng r( mix( opt_seed, 5 ) );
    int n = r.i( 1500000000, 1900000000 );
    mp_size_recv_buffer( mp, 1, n ); char *b = (char*)mp_recv_buffer( mp, 1 );
    if( !b ) viol( "buffer", fmt( "no buffer of %d bytes", n ) ); else { b[0] = 1; b[n-1] = 2; eval( "huge" ); count( "huge_buffers" ); }
    mp_size_send_buffer( mp, 0, n ); b = (char*)mp_send_buffer( mp, 0 );
    if( !b ) viol( "buffer", fmt( "no buffer of %d bytes", n ) ); else { b[0] = 1; b[n-1] = 2; count( "huge_buffers" ); }
    delete_mp( mp ); done( true ); halt_services(); return 0;
  }
  share();
  for( cur_case = opt_first; cur_case < opt_first + opt_cases; cur_case++ ) {
    each_case( cur_case - opt_first );
    Rng r( mix( opt_seed, cur_case ) );
    double k = r.u();
    if( k < 0.4 ) ports( r ); else if( k < 0.65 ) gridports( r ); else if( k < 0.85 ) collectives( r ); else turnstile( r );
  }
  done( true );
  halt_services();
  return 0;
}
