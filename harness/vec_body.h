// instantiated once per width (macros N VB VI VF PN NM FN NS)
static void FN() {
  using namespace NS;
  const int NN = N;
  float A[N] __attribute__((aligned(64))), B[N] __attribute__((aligned(64))), C[N] __attribute__((aligned(64)));
  int I[N] __attribute__((aligned(64))), J[N] __attribute__((aligned(64))), M[N] __attribute__((aligned(64)));
  int O[N+16] __attribute__((aligned(64))), Q[N] __attribute__((aligned(64)));
  for( int k = 0; k < N; k++ ) { A[k] = hostf(); B[k] = ud() < 0.15 ? A[k] : hostf(); C[k] = hostf(); I[k] = hosti(); J[k] = ud() < 0.15 ? I[k] : hosti(); M[k] = ud() < 0.5 ? -1 : 0; }
  int allsame = ri( 0, 5 ); if( allsame == 0 ) for( int k = 0; k < N; k++ ) M[k] = 0; if( allsame == 1 ) for( int k = 0; k < N; k++ ) M[k] = -1;
  if( ud() < 0.3 ) { int z = ri( 0, N - 1 ); for( int k = 0; k < N; k++ ) M[k] = k == z ? -1 : 0; } else if( ud() < 0.3 ) { int z = ri( 0, N - 1 ); for( int k = 0; k < N; k++ ) M[k] = k == z ? 0 : -1; }
  VF a, b, c; VI i, j, m; VB t;
  NM(load)( A, a ); NM(load)( B, b ); NM(load)( C, c ); NM(load)( I, i ); NM(load)( J, j ); NM(load)( M, m );
  #define FA( v ) NM(store)( v, O )
  #define OF( k ) ( ( (float *)O )[k] )
  #define BOTH( e, w ) { FA( e ); for( int k = 0; k < N; k++ ) w; }
  // load, store, stream, access, constructors, copies
  for( int k = 0; k < N + 16; k++ ) O[k] = 0x5a5a5a5a;
  NM(store)( a, O ); for( int k = 0; k < N; k++ ) CKF( "load/store", OF(k), A[k], A[k], 0 );
  for( int k = N; k < N + 16; k++ ) if( O[k] != 0x5a5a5a5a ) viol( "store-overrun", "store wrote past its end" );
  for( int k = 0; k < N + 16; k++ ) O[k] = 0x5a5a5a5a;
  NM(stream)( a, O ); for( int k = 0; k < N; k++ ) CKF( "stream", OF(k), A[k], A[k], 0 );
  for( int k = N; k < N + 16; k++ ) if( O[k] != 0x5a5a5a5a ) viol( "stream-overrun", "stream wrote past its end" );
  for( int k = 0; k < N; k++ ) { CKF( "access()", a( k ), A[k], A[k], 0 ); CKI( "iaccess()", i( k ), I[k], I[k], 0 ); CKF( "access[]", a[k], A[k], A[k], 0 ); CKI( "iaccess[]", i[k], I[k], I[k], 0 ); }
  { VF x = a; int z = ri( 0, N - 1 ); x[z] = 42; FA( x ); for( int k = 0; k < N; k++ ) CKF( "set lane", OF(k), k == z ? 42.f : A[k], A[k], 0 ); }
  { VI x = i; int z = ri( 0, N - 1 ); x[z] = 42; FA( x ); for( int k = 0; k < N; k++ ) CKI( "set int lane", O[k], k == z ? 42 : I[k], I[k], 0 ); }
  BOTH( VF( A[0] ), CKF( "float from scalar", OF(k), A[0], A[0], 0 ) )
  BOTH( VI( I[0] ), CKI( "int from scalar", O[k], I[0], I[0], 0 ) )
  BOTH( VF( PN( A ) ), CKF( "float from scalars", OF(k), A[k], A[k], 0 ) )
  BOTH( VI( PN( I ) ), CKI( "int from scalars", O[k], I[k], I[k], 0 ) )
  { VF x( a ); VI y( i ); VB z( a ); VF x2( z ); VI y2( (VB)i ); BOTH( x, CKF( "copy", OF(k), A[k], A[k], 0 ) ) BOTH( y, CKI( "icopy", O[k], I[k], I[k], 0 ) ) BOTH( x2, CKF( "mixed copy", OF(k), A[k], A[k], 0 ) ) BOTH( y2, CKI( "mixed icopy", O[k], I[k], I[k], 0 ) ) }
  { VF x; x = a; BOTH( x, CKF( "assign", OF(k), A[k], A[k], 0 ) ) VI y; y = i; BOTH( y, CKI( "iassign", O[k], I[k], I[k], 0 ) ) VB z; z = a; BOTH( z, CKF( "base assign", OF(k), A[k], A[k], 0 ) ) }
  for( int k = 0; k < N; k++ ) O[k] = 1; NM(clear)( O ); for( int k = 0; k < N; k++ ) CKI( "clear", O[k], 0, 0, 0 );
  NM(copy)( O, A ); for( int k = 0; k < N; k++ ) CKF( "copy mem", OF(k), A[k], A[k], 0 );
  for( int k = 0; k < N; k++ ) { O[k] = I[k]; Q[k] = J[k]; } NM(swap)( O, Q ); for( int k = 0; k < N; k++ ) { CKI( "swap mem", O[k], J[k], I[k], J[k] ); CKI( "swap mem 2", Q[k], I[k], I[k], J[k] ); }
  { VF x = a, y = b; swap( x, y ); FA( x ); for( int k = 0; k < N; k++ ) CKF( "swap", OF(k), B[k], A[k], B[k] ); FA( y ); for( int k = 0; k < N; k++ ) CKF( "swap 2", OF(k), A[k], A[k], B[k] ); }
  // any, all
  { int an = 0, al = 1; for( int k = 0; k < N; k++ ) { if( M[k] ) an = 1; else al = 0; } int k = 0; CKI( "any", any( m ) ? 1 : 0, an, 0, 0 ); CKI( "all", all( m ) ? 1 : 0, al, 0, 0 ); }
  // selection and bits
  #define FI( x ) ( ( (int *)( x ) ) )
  BOTH( czero( m, a ), CKI( "czero", O[k], FI(A)[k] & ~M[k], A[k], 0 ) )
  BOTH( notczero( m, a ), CKI( "notczero", O[k], FI(A)[k] & M[k], A[k], 0 ) )
  BOTH( merge( m, a, b ), CKI( "merge", O[k], M[k] ? FI(A)[k] : FI(B)[k], A[k], B[k] ) )
  BOTH( clear_bits( i, a ), CKI( "clear_bits", O[k], FI(A)[k] & ~I[k], A[k], I[k] ) )
  BOTH( set_bits( i, a ), CKI( "set_bits", O[k], FI(A)[k] | I[k], A[k], I[k] ) )
  BOTH( toggle_bits( i, a ), CKI( "toggle_bits", O[k], FI(A)[k] ^ I[k], A[k], I[k] ) )
  // float arithmetic
  BOTH( +a, CKF( "+x", OF(k), A[k], A[k], 0 ) )
  BOTH( -a, CKF( "-x", OF(k) + 0.f, -A[k] + 0.f, A[k], 0 ) )
  BOTH( a + b, CKF( "x+y", OF(k), A[k] + B[k], A[k], B[k] ) )
  BOTH( a - b, CKF( "x-y", OF(k), A[k] - B[k], A[k], B[k] ) )
  BOTH( a * b, CKF( "x*y", OF(k), A[k] * B[k], A[k], B[k] ) )
  BOTH( a / b, CKF( "x/y", OF(k), A[k] / B[k], A[k], B[k] ) )
  { VF x = a; x += b; BOTH( x, CKF( "x+=y", OF(k), A[k] + B[k], A[k], B[k] ) ) x = a; x -= b; BOTH( x, CKF( "x-=y", OF(k), A[k] - B[k], A[k], B[k] ) ) x = a; x *= b; BOTH( x, CKF( "x*=y", OF(k), A[k] * B[k], A[k], B[k] ) ) x = a; x /= b; BOTH( x, CKF( "x/=y", OF(k), A[k] / B[k], A[k], B[k] ) ) }
  { VF x = a, r; r = ++x; BOTH( r, CKF( "++x", OF(k), A[k] + 1, A[k], 0 ) ) BOTH( x, CKF( "++x side", OF(k), A[k] + 1, A[k], 0 ) ) x = a; r = --x; BOTH( r, CKF( "--x", OF(k), A[k] - 1, A[k], 0 ) ) BOTH( x, CKF( "--x side", OF(k), A[k] - 1, A[k], 0 ) )
    x = a; r = x++; BOTH( r, CKF( "x++", OF(k), A[k], A[k], 0 ) ) BOTH( x, CKF( "x++ side", OF(k), A[k] + 1, A[k], 0 ) ) x = a; r = x--; BOTH( r, CKF( "x--", OF(k), A[k], A[k], 0 ) ) BOTH( x, CKF( "x-- side", OF(k), A[k] - 1, A[k], 0 ) ) }
  // fused forms: fused or not, one rounding of slack
  #define FM( name, e, w ) { VF r = e; FA( r ); for( int k = 0; k < N; k++ ) { double p = (double)A[k] * B[k], w_ = w; if( fabs( p ) < 1e37 && fabs( w_ ) < 1e37 && fabs( p ) > 1e-36 ) CKT( name, OF(k), w_, 1.3e-7, 1.3e-7 * fabs( p ), A[k] ); } }
  FM( "fma", fma( a, b, c ), p + C[k] ) FM( "fms", fms( a, b, c ), p - C[k] ) FM( "fnms", fnms( a, b, c ), C[k] - p )
  // comparisons and logic
  #define CMP( op ) BOTH( ( a op b ), CKI( "x" #op "y", O[k], -( A[k] op B[k] ), A[k], B[k] ) ) BOTH( ( i op j ), CKI( "i" #op "j", O[k], -( I[k] op J[k] ), I[k], J[k] ) )
  CMP( < ) CMP( > ) CMP( == ) CMP( != ) CMP( <= ) CMP( >= ) CMP( && ) CMP( || )
  BOTH( !a, CKI( "!x", O[k], -( !A[k] ), A[k], 0 ) )
  BOTH( !i, CKI( "!i", O[k], -( !I[k] ), I[k], 0 ) )
  // integers
  BOTH( +i, CKI( "+i", O[k], I[k], I[k], 0 ) ) BOTH( -i, CKI( "-i", O[k], -I[k], I[k], 0 ) ) BOTH( ~i, CKI( "~i", O[k], ~I[k], I[k], 0 ) )
  BOTH( abs( i ), CKI( "abs", O[k], I[k] < 0 ? -I[k] : I[k], I[k], 0 ) )
  BOTH( i + j, CKI( "i+j", O[k], I[k] + J[k], I[k], J[k] ) ) BOTH( i - j, CKI( "i-j", O[k], I[k] - J[k], I[k], J[k] ) )
  BOTH( ( i ^ j ), CKI( "i^j", O[k], I[k] ^ J[k], I[k], J[k] ) ) BOTH( ( i & j ), CKI( "i&j", O[k], I[k] & J[k], I[k], J[k] ) ) BOTH( ( i | j ), CKI( "i|j", O[k], I[k] | J[k], I[k], J[k] ) )
  { int SI[N] __attribute__((aligned(64))), SJ[N] __attribute__((aligned(64))), SH[N] __attribute__((aligned(64))); VI si, sj, sh;
    for( int k = 0; k < N; k++ ) { SI[k] = I[k] % 32768; SJ[k] = J[k] % 32768; if( !SJ[k] ) SJ[k] = 3; SH[k] = ri( 0, 15 ); }
    NM(load)( SI, si ); NM(load)( SJ, sj ); NM(load)( SH, sh );
    BOTH( si * sj, CKI( "i*j", O[k], SI[k] * SJ[k], SI[k], SJ[k] ) ) BOTH( i / sj, CKI( "i/j", O[k], I[k] / SJ[k], I[k], SJ[k] ) ) BOTH( i % sj, CKI( "i%j", O[k], I[k] % SJ[k], I[k], SJ[k] ) )
    BOTH( abs( si ) << sh, CKI( "i<<j", O[k], abs( SI[k] ) << SH[k], SI[k], SH[k] ) ) BOTH( i >> sh, CKI( "i>>j", O[k], I[k] >> SH[k], I[k], SH[k] ) )
    VI x = i; x += j; BOTH( x, CKI( "i+=j", O[k], I[k] + J[k], I[k], J[k] ) ) x = i; x -= j; BOTH( x, CKI( "i-=j", O[k], I[k] - J[k], I[k], J[k] ) ) x = si; x *= sj; BOTH( x, CKI( "i*=j", O[k], SI[k] * SJ[k], SI[k], SJ[k] ) )
    x = i; x /= sj; BOTH( x, CKI( "i/=j", O[k], I[k] / SJ[k], I[k], SJ[k] ) ) x = i; x %= sj; BOTH( x, CKI( "i%=j", O[k], I[k] % SJ[k], I[k], SJ[k] ) ) x = i; x ^= j; BOTH( x, CKI( "i^=j", O[k], I[k] ^ J[k], I[k], J[k] ) )
    x = i; x &= j; BOTH( x, CKI( "i&=j", O[k], I[k] & J[k], I[k], J[k] ) ) x = i; x |= j; BOTH( x, CKI( "i|=j", O[k], I[k] | J[k], I[k], J[k] ) ) x = abs( si ); x <<= sh; BOTH( x, CKI( "i<<=j", O[k], abs( SI[k] ) << SH[k], SI[k], SH[k] ) ) x = i; x >>= sh; BOTH( x, CKI( "i>>=j", O[k], I[k] >> SH[k], I[k], SH[k] ) )
    VI r; x = i; r = ++x; BOTH( r, CKI( "++i", O[k], I[k] + 1, I[k], 0 ) ) BOTH( x, CKI( "++i side", O[k], I[k] + 1, I[k], 0 ) ) x = i; r = --x; BOTH( r, CKI( "--i", O[k], I[k] - 1, I[k], 0 ) ) BOTH( x, CKI( "--i side", O[k], I[k] - 1, I[k], 0 ) )
    x = i; r = x++; BOTH( r, CKI( "i++", O[k], I[k], I[k], 0 ) ) BOTH( x, CKI( "i++ side", O[k], I[k] + 1, I[k], 0 ) ) x = i; r = x--; BOTH( r, CKI( "i--", O[k], I[k], I[k], 0 ) ) BOTH( x, CKI( "i-- side", O[k], I[k] - 1, I[k], 0 ) )
  }
  // estimates and functions
  { float Pz[N] __attribute__((aligned(64))), U[N] __attribute__((aligned(64))); VF p, u;
    for( int k = 0; k < N; k++ ) { Pz[k] = (float)exp( ( ud() * 2 - 1 ) * ( ud() < 0.5 ? 2 : 30 ) ); U[k] = (float)( ud() * 1.98 - 0.99 ); }
    NM(load)( Pz, p ); NM(load)( U, u );
    float R[N] __attribute__((aligned(64))); VF q; for( int k = 0; k < N; k++ ) R[k] = ud() < 0.5 ? -Pz[k] : Pz[k]; NM(load)( R, q );
    BOTH( rsqrt_approx( p ), CKT( "rsqrt_approx", OF(k), 1 / ::sqrt( (double)Pz[k] ), 4e-4, 0, Pz[k] ) )
    BOTH( rsqrt( p ), CKT( "rsqrt", OF(k), 1 / ::sqrt( (double)Pz[k] ), 1.2e-6, 0, Pz[k] ) )
    BOTH( rcp_approx( q ), CKT( "rcp_approx", OF(k), 1 / (double)R[k], 4e-4, 0, R[k] ) )
    BOTH( rcp( q ), CKT( "rcp", OF(k), 1 / (double)R[k], 1.2e-6, 0, R[k] ) )
    BOTH( sqrt( p ), CKT( "sqrt", OF(k), ::sqrt( (double)Pz[k] ), 1.3e-7, 0, Pz[k] ) )
    BOTH( fabs( a ), CKF( "fabs", OF(k), (float)::fabs( A[k] ), A[k], 0 ) )
    BOTH( copysign( a, b ), CKF( "copysign", OF(k), ::copysignf( A[k], B[k] ), A[k], B[k] ) )
    #define FUN( fn, v, V, lo ) BOTH( fn( v ), CKT( #fn, OF(k), ::fn( (double)V[k] ), 4e-7, lo, V[k] ) )
    FUN( acos, u, U, 1e-7 ) FUN( asin, u, U, 1e-7 ) FUN( atan, u, U, 1e-7 ) FUN( cos, u, U, 1e-7 ) FUN( sin, u, U, 1e-7 ) FUN( tan, u, U, 1e-7 ) FUN( exp, u, U, 0 )
    FUN( cosh, u, U, 0 ) FUN( sinh, u, U, 1e-7 ) FUN( tanh, u, U, 1e-7 ) FUN( log, p, Pz, 1e-7 ) FUN( log10, p, Pz, 1e-7 ) FUN( ceil, c, C, 0 ) FUN( floor, c, C, 0 )
    { VF x = atan2( u, q ); BOTH( x, CKT( "atan2", OF(k), ::atan2( (double)U[k], (double)R[k] ), 4e-7, 1e-30, U[k] ) ) }
    { VF x = pow( exp( u ), u ); float E_[N]; for( int k = 0; k < N; k++ ) E_[k] = (float)::exp( (double)U[k] ); BOTH( x, CKT( "pow", OF(k), ::pow( (double)E_[k], (double)U[k] ), 1e-6, 0, U[k] ) ) }
    { VF sc = u * VF( 100.f ), pp = VF( 3.25f ); float X[N] __attribute__((aligned(64))); NM(store)( sc, X ); BOTH( fmod( sc, pp ), CKT( "fmod", OF(k), ::fmod( (double)X[k], 3.25 ), 4e-7, 1e-6, X[k] ) ) }
  }
  { float X[N+16] __attribute__((aligned(64))); for( int k = 0; k < N; k++ ) X[k] = C[k]; NM(increment)( X, a ); for( int k = 0; k < N; k++ ) CKF( "increment", X[k], C[k] + A[k], C[k], A[k] );
    for( int k = 0; k < N; k++ ) X[k] = C[k]; NM(decrement)( X, a ); for( int k = 0; k < N; k++ ) CKF( "decrement", X[k], C[k] - A[k], C[k], A[k] );
    for( int k = 0; k < N; k++ ) X[k] = C[k]; NM(scale)( X, a ); for( int k = 0; k < N; k++ ) CKF( "scale", X[k], C[k] * A[k], C[k], A[k] ); }
#if N == 4
  BOTH( splat<0>( a ), CKF( "splat", OF(k), A[0], A[0], 0 ) ) BOTH( splat<1>( a ), CKF( "splat", OF(k), A[1], A[1], 0 ) ) BOTH( splat<2>( a ), CKF( "splat", OF(k), A[2], A[2], 0 ) ) BOTH( splat<3>( a ), CKF( "splat", OF(k), A[3], A[3], 0 ) )
  #define SHUF( w, x, y, z ) { const int s_[4] = { w, x, y, z }; t = shuffle<w,x,y,z>( a ); FA( t ); for( int k = 0; k < 4; k++ ) CKF( "shuffle", OF(k), A[s_[k]], A[k], 0 ); }
  SHUF( 0,1,2,3 ) SHUF( 3,2,1,0 ) SHUF( 1,2,0,3 ) SHUF( 2,0,1,3 ) SHUF( 0,1,2,2 ) SHUF( 1,1,3,3 ) SHUF( 2,3,0,1 ) SHUF( 0,0,0,0 ) SHUF( 3,0,2,1 ) SHUF( 1,3,1,2 )
  { float x = (float)( ud() * 2 - 1 ), y = (float)( ud() * 2 - 1 ), z = (float)( ud() * 2 - 1 ); VF wl( x, y, z, 7 ), wh; trilinear( wl, wh ); float L[4] __attribute__((aligned(16))), H[4] __attribute__((aligned(16))); store_4x1( wl, L ); store_4x1( wh, H );
    for( int k = 0; k < 4; k++ ) { double w_ = ( k & 1 ? 1. + x : 1. - x ) * ( k & 2 ? 1. + y : 1. - y ); CKT( "trilinear", L[k], w_ * ( 1. - z ), 5e-7, 1e-10, x ); CKT( "trilinear", H[k], w_ * ( 1. + z ), 5e-7, 1e-10, x ); } }
#elif N == 8
  BOTH( splat<0>( a ), CKF( "splat", OF(k), A[0], A[0], 0 ) ) BOTH( splat<3>( a ), CKF( "splat", OF(k), A[3], A[3], 0 ) ) BOTH( splat<4>( a ), CKF( "splat", OF(k), A[4], A[4], 0 ) ) BOTH( splat<7>( a ), CKF( "splat", OF(k), A[7], A[7], 0 ) )
  #define SHUF8( q,r,s,u,w,x,y,z ) { const int s_[8] = { q,r,s,u,w,x,y,z }; t = shuffle<q,r,s,u,w,x,y,z>( a ); FA( t ); for( int k = 0; k < 8; k++ ) CKF( "shuffle", OF(k), A[s_[k]], A[k], 0 ); }
  SHUF8( 0,1,2,3,4,5,6,7 ) SHUF8( 1,2,3,0,5,6,7,4 ) SHUF8( 3,2,1,0,7,6,5,4 ) SHUF8( 7,6,5,4,3,2,1,0 ) SHUF8( 0,0,4,4,1,5,2,6 )
#else
  BOTH( splat<0>( a ), CKF( "splat", OF(k), A[0], A[0], 0 ) ) BOTH( splat<5>( a ), CKF( "splat", OF(k), A[5], A[5], 0 ) ) BOTH( splat<10>( a ), CKF( "splat", OF(k), A[10], A[10], 0 ) ) BOTH( splat<15>( a ), CKF( "splat", OF(k), A[15], A[15], 0 ) )
  { t = shuffle<1,2,3,0,5,6,7,4,9,10,11,8,13,14,15,12>( a ); const int s_[16] = { 1,2,3,0,5,6,7,4,9,10,11,8,13,14,15,12 }; FA( t ); for( int k = 0; k < 16; k++ ) CKF( "shuffle", OF(k), A[s_[k]], A[k], 0 ); }
  { t = shuffle<15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0>( a ); FA( t ); for( int k = 0; k < 16; k++ ) CKF( "shuffle", OF(k), A[15-k], A[k], 0 ); }
#endif
  // transposes
  { VB x[N]; int T[N][N]; for( int r = 0; r < N; r++ ) { for( int k = 0; k < N; k++ ) Q[k] = T[r][k] = (int)nxt(); NM(load)( Q, x[r] ); }
    transpose( PN( x ) );
    for( int r = 0; r < N; r++ ) { FA( x[r] ); for( int k = 0; k < N; k++ ) CKI( "transpose", O[k], T[k][r], r, k ); } }
  // gathers and scatters of records: width m, minimal documented alignment
  { static int buf[64*N+256] __attribute__((aligned(128))); int shadow[64*N+256]; int *pt[N]; VB x[16]; const int BN = 64*N+256;
    #define FILL() for( int k = 0; k < BN; k++ ) shadow[k] = buf[k] = (int)nxt();
    // slots of distinct records, in random order; al = alignment in ints
    #define SLOTS( al, width ) { int perm[N]; for( int k = 0; k < N; k++ ) perm[k] = k; for( int k = N - 1; k > 0; k-- ) { int z = ri( 0, k ), y = perm[k]; perm[k] = perm[z]; perm[z] = y; } \
      int step = ( (width) + (al) - 1 ) / (al) * (al) + (al) * ri( 0, 2 ), off = (al) * ri( 0, 3 ); for( int k = 0; k < N; k++ ) pt[k] = buf + off + perm[k] * step; }
    #define LD( name, call, al, mm ) { FILL() SLOTS( al, mm ) call; for( int r = 0; r < mm; r++ ) { FA( x[r] ); for( int k = 0; k < NN; k++ ) CKI( name, O[k], pt[k][r], r, k ); } if( memcmp( buf, shadow, sizeof shadow ) ) viol( name, name " wrote memory" ); }
    #define ST( name, call, al, mm ) { FILL() SLOTS( al, mm ) int V_[16][N]; for( int r = 0; r < mm; r++ ) { for( int k = 0; k < NN; k++ ) Q[k] = V_[r][k] = (int)nxt(); NM(load)( Q, x[r] ); } call; \
      for( int k = 0; k < NN; k++ ) for( int r = 0; r < mm; r++ ) shadow[ pt[k] - buf + r ] = V_[r][k]; \
      for( int k = 0; k < NN; k++ ) for( int r = 0; r < mm; r++ ) CKI( name, pt[k][r], V_[r][k], r, k ); \
      if( memcmp( buf, shadow, sizeof shadow ) ) viol( name "-other-memory", name " wrote outside its records" ); }
    #define PT PN( pt )
#if N == 4
    LD( "load_4x1_tr", load_4x1_tr( PT, P1(x) ), 1, 1 ) LD( "load_4x2_tr", load_4x2_tr( PT, P2(x) ), 2, 2 ) LD( "load_4x3_tr", load_4x3_tr( PT, P3(x) ), 4, 3 ) LD( "load_4x4_tr", load_4x4_tr( PT, P4(x) ), 4, 4 )
    ST( "store_4x1_tr", store_4x1_tr( P1(x), PT ), 1, 1 ) ST( "store_4x2_tr", store_4x2_tr( P2(x), PT ), 2, 2 ) ST( "store_4x3_tr", store_4x3_tr( P3(x), PT ), 4, 3 ) ST( "store_4x4_tr", store_4x4_tr( P4(x), PT ), 4, 4 )
#elif N == 8
    LD( "load_8x1_tr", load_8x1_tr( PT, P1(x) ), 1, 1 ) LD( "load_8x2_tr", load_8x2_tr( PT, P2(x) ), 2, 2 ) LD( "load_8x3_tr", load_8x3_tr( PT, P3(x) ), 4, 3 ) LD( "load_8x4_tr", load_8x4_tr( PT, P4(x) ), 4, 4 ) LD( "load_8x8_tr", load_8x8_tr( PT, P8(x) ), 8, 8 )
    ST( "store_8x1_tr", store_8x1_tr( P1(x), PT ), 1, 1 ) ST( "store_8x2_tr", store_8x2_tr( P2(x), PT ), 2, 2 ) ST( "store_8x3_tr", store_8x3_tr( P3(x), PT ), 4, 3 ) ST( "store_8x4_tr", store_8x4_tr( P4(x), PT ), 4, 4 ) ST( "store_8x8_tr", store_8x8_tr( P8(x), PT ), 8, 8 )
#else
    LD( "load_16x1_tr", load_16x1_tr( PT, P1(x) ), 1, 1 ) LD( "load_16x2_tr", load_16x2_tr( PT, P2(x) ), 2, 2 ) LD( "load_16x3_tr", load_16x3_tr( PT, P3(x) ), 16, 3 ) LD( "load_16x4_tr", load_16x4_tr( PT, P4(x) ), 16, 4 ) LD( "load_16x8_tr", load_16x8_tr( PT, P8(x) ), 16, 8 ) LD( "load_16x16_tr", load_16x16_tr( PT, P16(x) ), 16, 16 )
    ST( "store_16x1_tr", store_16x1_tr( P1(x), PT ), 1, 1 ) ST( "store_16x2_tr", store_16x2_tr( P2(x), PT ), 2, 2 ) ST( "store_16x3_tr", store_16x3_tr( P3(x), PT ), 16, 3 ) ST( "store_16x4_tr", store_16x4_tr( P4(x), PT ), 16, 4 ) ST( "store_16x8_tr", store_16x8_tr( P8(x), PT ), 16, 8 ) ST( "store_16x16_tr", store_16x16_tr( P16(x), PT ), 16, 16 )
    // packed particle forms: eight records of 16 hold 16 particles of 8 words
    FILL() SLOTS( 16, 16 ) load_16x8_tr_p( P8( pt ), P8( x ) ); for( int r = 0; r < 8; r++ ) { FA( x[r] ); for( int k = 0; k < N; k++ ) CKI( "load_16x8_tr_p", O[k], pt[k/2][ 8*(k%2) + r ], r, k ); }
    FILL() SLOTS( 16, 16 ) { int V_[16][N]; for( int r = 0; r < 8; r++ ) { for( int k = 0; k < N; k++ ) Q[k] = V_[r][k] = (int)nxt(); NM(load)( Q, x[r] ); } store_16x8_tr_p( P8( x ), P8( pt ) ); for( int r = 0; r < 8; r++ ) for( int k = 0; k < N; k++ ) { shadow[ pt[k/2] - buf + 8*(k%2) + r ] = V_[r][k]; CKI( "store_16x8_tr_p", pt[k/2][ 8*(k%2) + r ], V_[r][k], r, k ); } if( memcmp( buf, shadow, sizeof shadow ) ) viol( "store_16x8_tr_p-other-memory", "wrote outside its records" ); }
    FILL() SLOTS( 16, 16 ) load_16x16_tr_p( PT, P16( x ) ); for( int r = 0; r < 16; r++ ) { FA( x[r] ); for( int k = 0; k < N; k++ ) CKI( "load_16x16_tr_p", O[k], pt[ k/2 + ( r / 8 ) * 8 ][ 8*(k%2) + r % 8 ], r, k ); }
    FILL() SLOTS( 16, 16 ) { int V_[16][N]; for( int r = 0; r < 16; r++ ) { for( int k = 0; k < N; k++ ) Q[k] = V_[r][k] = (int)nxt(); NM(load)( Q, x[r] ); } store_16x16_tr_p( P16( x ), PT ); for( int r = 0; r < 16; r++ ) for( int k = 0; k < N; k++ ) { int *q_ = pt[ k/2 + ( r / 8 ) * 8 ] + 8*(k%2) + r % 8; shadow[ q_ - buf ] = V_[r][k]; CKI( "store_16x16_tr_p", *q_, V_[r][k], r, k ); } if( memcmp( buf, shadow, sizeof shadow ) ) viol( "store_16x16_tr_p-other-memory", "wrote outside its records" ); }
#endif
    #undef FILL
    #undef SLOTS
    #undef LD
    #undef ST
    #undef PT
  }
  #undef FA
  #undef OF
  #undef BOTH
  #undef FI
  #undef FM
  #undef CMP
  #undef FUN
  #undef SHUF
  #undef SHUF8
}
