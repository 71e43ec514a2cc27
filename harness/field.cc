// Field solver against an independent double-precision global reference.
#include "rv_grid.h"
using namespace rv;

enum { EX, EY, EZ, BX, BY, BZ, TX, TY, TZ, JX, JY, JZ, RF, RB, DE, DB, NC };
static const char *cname[NC] = { "ex","ey","ez","cbx","cby","cbz","tcax","tcay","tcaz","jfx","jfy","jfz","rhof","rhob","div_e_err","div_b_err" };
enum { PEC = anti_symmetric_fields, SYM = symmetric_fields, PMC = pmc_fields, ABS = absorb_fields };

static inline float & comp( field_t &f, int c ) {
  switch( c ) {
  case EX: return f.ex; case EY: return f.ey; case EZ: return f.ez;
  case BX: return f.cbx; case BY: return f.cby; case BZ: return f.cbz;
  case TX: return f.tcax; case TY: return f.tcay; case TZ: return f.tcaz;
  case JX: return f.jfx; case JY: return f.jfy; case JZ: return f.jfz;
  case RF: return f.rhof; case RB: return f.rhob; case DE: return f.div_e_err; default: return f.div_b_err;
  }
}

struct Mat { double eps[3], mu[3], sig[3], decay[3], drive[3], rmu[3], nonc; };

struct Ref {
  Box b;
  double damp;
  int M;                       // number of materials
  std::vector<Mat> mat;
  std::vector<double> v[NC];
  std::vector<int> em[3], fm[3], nm;
  double rd[3], P[3], cdt;
  int S[3];
  void init( const Box &bb ) {
    b = bb;
    S[0] = 1; S[1] = b.N[0] + 2; S[2] = S[1] * ( b.N[1] + 2 );
    size_t nv = (size_t)S[2] * ( b.N[2] + 2 );
    for( int c = 0; c < NC; c++ ) v[c].assign( nv, 0 );
    for( int a = 0; a < 3; a++ ) { em[a].assign( nv, 0 ); fm[a].assign( nv, 0 ); }
    nm.assign( nv, 0 );
  }
  int at( int x, int y, int z ) const { return x + S[1] * y + S[2] * z; }
  int at3( const int q[3] ) const { return q[0] + S[1] * q[1] + S[2] * q[2]; }

  template<class F> void loop( int xl, int xh, int yl, int yh, int zl, int zh, F f ) {
    for( int z = zl; z <= zh; z++ ) for( int y = yl; y <= yh; y++ ) for( int x = xl; x <= xh; x++ ) { int q[3] = { x, y, z }; f( q ); }
  }
  // index ranges of owned items of component c
  void range( int c, int lo[3], int hi[3] ) const {
    for( int a = 0; a < 3; a++ ) { lo[a] = 1; hi[a] = b.N[a] + 1; }
    if( c <= EZ || ( c >= TX && c <= JZ ) ) hi[ c % 3 ] = b.N[ c % 3 ];
    else if( c <= BZ ) { hi[ ( c + 1 ) % 3 ] = b.N[ ( c + 1 ) % 3 ]; hi[ ( c + 2 ) % 3 ] = b.N[ ( c + 2 ) % 3 ]; }
    else if( c == DB ) for( int a = 0; a < 3; a++ ) hi[a] = b.N[a];
  }
  template<class F> void owned( int c, F f ) {
    int lo[3], hi[3]; range( c, lo, hi );
    loop( lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], f );
  }
  // owned items of component c on plane q[a]==pl
  template<class F> void plane( int c, int a, int pl, F f ) {
    int lo[3], hi[3]; range( c, lo, hi );
    lo[a] = hi[a] = pl;
    loop( lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], f );
  }
  double mx( int c ) { double m = 0; owned( c, [&]( int *q ) { m = std::max( m, fabs( v[c][ at3( q ) ] ) ); } ); return m; }
  double mx3( int c ) { return std::max( mx( c ), std::max( mx( c + 1 ), mx( c + 2 ) ) ); }

  // ---- boundary handling ----
  // ghosts of one component across axis a; src: component value to copy
  void ghost_tang_b() {
    // absorbing ghosts use pre-update interior values; periodic and mirror ones
    // are plain copies. All six faces are independent of each other.
    for( int f = 0; f < 6; f++ ) {
      int a = f % 3, Y = ( a + 1 ) % 3, Z = ( a + 2 ) % 3, lowside = f < 3;
      int gh = lowside ? 0 : b.N[a] + 1, in = lowside ? 1 : b.N[a], face = lowside ? 1 : b.N[a] + 1, bc = b.fbc[f];
      for( int t = 0; t < 2; t++ ) {
        int T = t ? Z : Y, O = t ? Y : Z, c = BX + T; // c: tangential component along T, other axis O
        plane( c, a, gh, [&]( int *q ) {
          int qi[3] = { q[0], q[1], q[2] }; qi[a] = in;
          double &dst = v[c][ at3( q ) ];
          if( bc == 0 ) { qi[a] = lowside ? b.N[a] : 1; dst = v[c][ at3( qi ) ]; }
          else if( bc == PEC ) dst = v[c][ at3( qi ) ];
          else if( bc == SYM || bc == PMC ) dst = -v[c][ at3( qi ) ];
          else {
            double h = ( b.N[0] > 1 || b.N[1] > 1 || b.N[2] > 1 ) ? 1.03527618 : 1;
            double cx = cdt * rd[a], co = cdt * rd[O];
            double dr = cx * h, de = ( 1 - dr ) / ( 1 + dr ); dr = 2 * dr / ( 1 + dr );
            // curl E through the two half cells: d/dn of e_O along the normal, and d/dO of e_n
            int qf[3] = { q[0], q[1], q[2] }, qn[3] = { q[0], q[1], q[2] };
            qf[a] = face; qn[a] = lowside ? face + 1 : face - 1;
            double t1 = cx * ( v[EX+O][ at3( qn ) ] - v[EX+O][ at3( qf ) ] ); if( !lowside ) t1 = -t1;
            int qo[3] = { qi[0], qi[1], qi[2] }; qo[O]++;
            double t2 = co * ( v[EX+a][ at3( qo ) ] - v[EX+a][ at3( qi ) ] );
            double sgn = t ? 1 : -1;
            dst = de * dst + dr * v[c][ at3( qi ) ] + sgn * ( t1 - t2 );
          }
        } );
      }
    }
  }
  void adjust_tang_e() {
    for( int f = 0; f < 6; f++ ) if( b.fbc[f] == PEC ) {
      int a = f % 3, face = f < 3 ? 1 : b.N[a] + 1;
      for( int T = 0; T < 3; T++ ) if( T != a ) {
        plane( EX + T, a, face, [&]( int *q ) { v[EX+T][ at3( q ) ] = 0; v[TX+T][ at3( q ) ] = 0; } );
      }
    }
  }
  void adjust_norm_b() {
    for( int f = 0; f < 6; f++ ) if( b.fbc[f] == SYM ) {
      int a = f % 3, face = f < 3 ? 1 : b.N[a] + 1;
      plane( BX + a, a, face, [&]( int *q ) { v[BX+a][ at3( q ) ] = 0; } );
    }
  }
  // value of normal e just outside the domain at node q (q[a] is 0 or N+1)
  double ghost_en( int a, const int *q0 ) {
    int q[3] = { q0[0], q0[1], q0[2] };
    bool low = q[a] == 0;
    int bc = b.fbc[ low ? a : a + 3 ];
    if( bc == 0 ) { q[a] = low ? b.N[a] : 1; return eps_e( a, q, 0, NULL ); }
    return 0;
  }
  // eps*e at a possibly ghost edge q. matq: location used for material
  double eps_e( int a, const int *q, int, const int * ) { return mat[ em[a][ at3( q ) ] ].eps[a] * v[EX+a][ at3( q ) ]; }

  double edge_val( int a, const int *q0 ) { // e normal at q, ghosts resolved (without eps)
    int q[3] = { q0[0], q0[1], q0[2] };
    if( q[a] >= 1 && q[a] <= b.N[a] ) return v[EX+a][ at3( q ) ];
    bool low = q[a] < 1;
    int bc = b.fbc[ low ? a : a + 3 ];
    if( bc == 0 ) { q[a] = low ? b.N[a] : 1; return v[EX+a][ at3( q ) ]; }
    q[a] = low ? 1 : b.N[a];
    if( bc == PEC ) return v[EX+a][ at3( q ) ];
    if( bc == SYM || bc == PMC ) return -v[EX+a][ at3( q ) ];
    return 0; // absorbing: irrelevant, the residual there is forced to zero
  }
  double div_d( const int *q, double *scale = NULL ) { // sum rd*(eps e(q) - eps e(q-1)), S: magnitude
    double s = 0;
    for( int a = 0; a < 3; a++ ) {
      int m[3] = { q[0], q[1], q[2] }; m[a]--;
      s += P[a] * ( mat[ em[a][ at3( q ) ] ].eps[a] * edge_val( a, q ) - mat[ em[a][ at3( m ) ] ].eps[a] * edge_val( a, m ) );
    }
    return s;
  }
  // ---- operations ----
  void advance_b( double frac ) {
    std::vector<double> old;
    for( int a = 0; a < 3; a++ ) {
      int Y = ( a + 1 ) % 3, Z = ( a + 2 ) % 3;
      double py = P[Y] * cdt * frac, pz = P[Z] * cdt * frac;
      owned( BX + a, [&]( int *q ) {
        int i = at3( q );
        v[BX+a][i] -= py * ( v[EX+Z][ i + S[Y] ] - v[EX+Z][i] ) - pz * ( v[EX+Y][ i + S[Z] ] - v[EX+Y][i] );
      } );
    }
    adjust_norm_b();
  }
  double curl( int a, int i ) {
    int Y = ( a + 1 ) % 3, Z = ( a + 2 ) % 3;
    return cdt * ( P[Y] * ( v[BX+Z][i] * mat[ fm[Z][i] ].rmu[Z] - v[BX+Z][ i - S[Y] ] * mat[ fm[Z][ i - S[Y] ] ].rmu[Z] )
                 - P[Z] * ( v[BX+Y][i] * mat[ fm[Y][i] ].rmu[Y] - v[BX+Y][ i - S[Z] ] * mat[ fm[Y][ i - S[Z] ] ].rmu[Y] ) );
  }
  void advance_e() {
    ghost_tang_b();
    for( int a = 0; a < 3; a++ ) owned( EX + a, [&]( int *q ) {
      int i = at3( q );
      const Mat &m = mat[ em[a][i] ];
      v[TX+a][i] = ( 1 + damp ) * curl( a, i ) - damp * v[TX+a][i];
      v[EX+a][i] = m.decay[a] * v[EX+a][i] + m.drive[a] * ( v[TX+a][i] - (double)b.dt / b.eps0 * v[JX+a][i] );
    } );
    adjust_tang_e();
  }
  void curl_b() {
    ghost_tang_b();
    for( int a = 0; a < 3; a++ ) owned( EX + a, [&]( int *q ) { int i = at3( q ); v[TX+a][i] = curl( a, i ); } );
    adjust_tang_e();
  }
  void zero_de() {
    for( int f = 0; f < 6; f++ ) if( b.fbc[f] == PEC || b.fbc[f] == ABS ) {
      int a = f % 3; plane( DE, a, f < 3 ? 1 : b.N[a] + 1, [&]( int *q ) { v[DE][ at3( q ) ] = 0; } );
    }
  }
  void div_e() {
    owned( DE, [&]( int *q ) {
      int i = at3( q );
      v[DE][i] = mat[ nm[i] ].nonc * ( div_d( q ) - ( v[RF][i] + v[RB][i] ) / b.eps0 );
    } );
    zero_de();
  }
  void div_b() {
    owned( DB, [&]( int *q ) {
      int i = at3( q ); double s = 0;
      for( int a = 0; a < 3; a++ ) s += P[a] * ( v[BX+a][ i + S[a] ] - v[BX+a][i] );
      v[DB][i] = s;
    } );
  }
  void rhob() {
    owned( RB, [&]( int *q ) { int i = at3( q ); v[RB][i] = mat[ nm[i] ].nonc * ( b.eps0 * div_d( q ) - v[RF][i] ); } );
    for( int f = 0; f < 6; f++ ) if( b.fbc[f] == PEC ) {
      int a = f % 3; plane( RB, a, f < 3 ? 1 : b.N[a] + 1, [&]( int *q ) { v[RB][ at3( q ) ] = 0; } );
    }
  }
  double nodew( const int *q ) { double w = 1; for( int a = 0; a < 3; a++ ) if( q[a] == 1 || q[a] == b.N[a] + 1 ) w *= 0.5; return w; }
  double rms_e() {
    double s = 0; owned( DE, [&]( int *q ) { double d = v[DE][ at3( q ) ]; s += nodew( q ) * d * d; } );
    return b.eps0 * sqrt( s / ( (double)b.N[0] * b.N[1] * b.N[2] ) );
  }
  double rms_b() {
    double s = 0; owned( DB, [&]( int *q ) { double d = v[DB][ at3( q ) ]; s += d * d; } );
    return b.eps0 * sqrt( s / ( (double)b.N[0] * b.N[1] * b.N[2] ) );
  }
  double alphadt() { double s = P[0] * P[0] + P[1] * P[1] + P[2] * P[2]; return s ? 0.3888889 / s : 0; }
  void clean_e() {
    double al = alphadt();
    for( int a = 0; a < 3; a++ ) owned( EX + a, [&]( int *q ) {
      int i = at3( q );
      v[EX+a][i] += mat[ em[a][i] ].drive[a] * al * P[a] * ( v[DE][ i + S[a] ] - v[DE][i] );
    } );
    adjust_tang_e();
  }
  void clean_b() {
    double al = alphadt();
    for( int a = 0; a < 3; a++ ) owned( BX + a, [&]( int *q ) {
      int i = at3( q );
      double hi = v[DB][i], lo = v[DB][ i - S[a] ];
      for( int s = 0; s < 2; s++ ) {
        if( s ? q[a] != b.N[a] + 1 : q[a] != 1 ) continue;
        int bc = b.fbc[ s ? a + 3 : a ], k[3] = { q[0], q[1], q[2] };
        double in = s ? lo : hi, g;
        if( bc == 0 ) { k[a] = s ? 1 : b.N[a]; g = v[DB][ at3( k ) ]; }
        else g = bc == PEC ? in : bc == ABS ? 0 : -in;
        ( s ? hi : lo ) = g;
      }
      v[BX+a][i] += al * P[a] * ( hi - lo );
    } );
    adjust_norm_b();
  }
  void energy( double en[6] ) {
    for( int a = 0; a < 3; a++ ) {
      double s = 0;
      owned( EX + a, [&]( int *q ) {
        int i = at3( q ); double w = 1;
        for( int t = 0; t < 3; t++ ) if( t != a && ( q[t] == 1 || q[t] == b.N[t] + 1 ) ) w *= 0.5;
        s += w * mat[ em[a][i] ].eps[a] * v[EX+a][i] * v[EX+a][i];
      } );
      double dV = b.d[0] * b.d[1] * b.d[2];
      en[a] = 0.5 * b.eps0 * dV * s;
      s = 0;
      owned( BX + a, [&]( int *q ) {
        int i = at3( q ); double w = ( q[a] == 1 || q[a] == b.N[a] + 1 ) ? 0.5 : 1;
        s += w * mat[ fm[a][i] ].rmu[a] * v[BX+a][i] * v[BX+a][i];
      } );
      en[3+a] = 0.5 * b.eps0 * dV * s;
    }
  }
};

// ---------------------------------------------------------------------------

struct World {
  Ref r;
  grid_t *g;
  material_t *ml;
  field_array_t *fa;
  std::vector<field_t> snap;
  uint64_t vs;
  int nops;

  int wrap( int a, int i ) const { // canonical index of an item index along a periodic axis
    if( !r.b.per( a ) ) return i;
    int n = r.b.N[a];
    return ( ( i - 1 ) % n + n ) % n + 1;
  }
  double val( int c, int x, int y, int z ) { return (float)hval( vs, c, wrap( 0, x ), wrap( 1, y ), wrap( 2, z ) ); }

  void build( Rng &rr, const Box &b, int nmat, double damp, bool conduct ) {
    r.init( b ); r.damp = (float)damp;
    g = make_grid( b );
    r.rd[0] = g->rdx; r.rd[1] = g->rdy; r.rd[2] = g->rdz;
    for( int a = 0; a < 3; a++ ) r.P[a] = b.N[a] > 1 ? r.rd[a] : 0;
    r.cdt = (double)b.cvac * b.dt;
    ml = NULL;
    r.mat.clear();
    for( int k = 0; k < nmat; k++ ) {
      Mat m; float e[3], u[3], s[3];
      for( int a = 0; a < 3; a++ ) {
        e[a] = nmat == 1 && rr.chance( 0.5 ) ? 1 : rr.u( 1, 4 );
        u[a] = nmat == 1 && rr.chance( 0.5 ) ? 1 : rr.u( 1, 3 );
        s[a] = conduct && rr.chance( 0.4 ) ? rr.u( 0.05, 2 ) : 0;
        if( conduct && rr.chance( 0.05 ) ) s[a] = 1e6; // numerically perfect conductor
        m.eps[a] = e[a]; m.mu[a] = u[a]; m.sig[a] = s[a]; m.rmu[a] = 1. / u[a];
        double al = s[a] * (double)b.dt / ( e[a] * (double)b.eps0 );
        m.decay[a] = exp( -al );
        m.drive[a] = al == 0 ? 1. / e[a] : -expm1( -al ) / ( al * e[a] );
        if( m.decay[a] < 1e-45 ) m.drive[a] = 0;
      }
      m.nonc = s[0] == 0 && s[1] == 0 && s[2] == 0;
      r.mat.push_back( m );
      append_material( material( fmt( "m%d", k ).c_str(), e[0],e[1],e[2], u[0],u[1],u[2], s[0],s[1],s[2], 0,0,0 ), &ml );
    }
    r.M = nmat;
    fa = new_standard_field_array( g, ml, (float)damp );
    nops = 0;
  }
  void fill( bool full_rho, bool mirror = false ) {
    // reference
    for( int z = 0; z <= r.b.N[2] + 1; z++ ) for( int y = 0; y <= r.b.N[1] + 1; y++ ) for( int x = 0; x <= r.b.N[0] + 1; x++ ) {
      int i = r.at( x, y, z );
      for( int c = 0; c < NC; c++ ) r.v[c][i] = val( c, x, y, z );
      for( int c = 0; c < 7; c++ ) {
        int mq[3] = { x, y, z };
        if( mirror ) for( int a = 0; a < 3; a++ ) if( !r.b.per( a ) ) {
          if( mq[a] == 0 ) mq[a] = 1;
          bool ghost_hi = c < 3 ? c == a : c < 6 ? c - 3 != a : false;
          if( ghost_hi && mq[a] == r.b.N[a] + 1 ) mq[a] = r.b.N[a];
        }
        int m = (int)( ( hval( vs, 32 + c, wrap( 0, mq[0] ), wrap( 1, mq[1] ), wrap( 2, mq[2] ) ) + 1 ) * 0.5 * r.M );
        if( m >= r.M ) m = r.M - 1;
        ( c < 3 ? r.em[c] : c < 6 ? r.fm[c-3] : r.nm )[i] = m;
      }
    }
    if( !full_rho ) for( size_t i = 0; i < r.v[RF].size(); i++ ) r.v[RF][i] = r.v[RB][i] = 0;
    // library. Ghosts that the library must fetch from a neighbour hold junk.
    for( int z = 0; z <= g->nz + 1; z++ ) for( int y = 0; y <= g->ny + 1; y++ ) for( int x = 0; x <= g->nx + 1; x++ ) {
      field_t &f = fa->f[ VOXEL( x, y, z, g->nx, g->ny, g->nz ) ];
      int l[3] = { x, y, z }, gl[3] = { x + r.b.o[0], y + r.b.o[1], z + r.b.o[2] };
      int i = r.at3( gl );
      bool junk = false;
      for( int a = 0; a < 3; a++ ) {
        if( l[a] == 0 && g->bc[ fbound[a] ] >= 0 ) junk = true;
      }
      for( int c = 0; c < NC; c++ ) comp( f, c ) = r.v[c][i];
      // tangential b one past the high side of a communicated face, and
      // everything below a communicated low face
      if( junk ) for( int c = 0; c < NC; c++ ) comp( f, c ) = 100 + c;
      for( int a = 0; a < 3; a++ ) if( l[a] == r.b.n[a] + 1 && g->bc[ fbound[a+3] ] >= 0 )
        for( int t = 0; t < 3; t++ ) if( t != a ) comp( f, BX + t ) = 200 + t;
      f.ematx = r.em[0][i]; f.ematy = r.em[1][i]; f.ematz = r.em[2][i]; f.nmat = r.nm[i];
      f.fmatx = r.fm[0][i]; f.fmaty = r.fm[1][i]; f.fmatz = r.fm[2][i]; f.cmat = r.nm[i];
    }
  }
  void take() { snap.assign( fa->f, fa->f + g->nv ); }
  // own(c): local owned range of component c
  void lrange( int c, int lo[3], int hi[3] ) {
    r.range( c, lo, hi );
    for( int a = 0; a < 3; a++ ) hi[a] += r.b.n[a] - r.b.N[a];
  }
  bool lowned( int c, const int *l ) {
    int lo[3], hi[3]; lrange( c, lo, hi );
    for( int a = 0; a < 3; a++ ) if( l[a] < lo[a] || l[a] > hi[a] ) return false;
    return true;
  }
  // wr: components the operation writes (owned part judged against the
  // reference with tolerance tol[c]); ghostok: components whose ghosts may change
  void compare( const char *op, const std::string &ctx, unsigned wr, unsigned ghostok, const double *tol ) {
    const char *key = NULL; (void)key;
    int bad = 0;
    for( int z = 0; z <= g->nz + 1 && bad < 3; z++ ) for( int y = 0; y <= g->ny + 1 && bad < 3; y++ ) for( int x = 0; x <= g->nx + 1 && bad < 3; x++ ) {
      int vx = VOXEL( x, y, z, g->nx, g->ny, g->nz ), l[3] = { x, y, z };
      field_t &f = fa->f[vx], &s = snap[vx];
      int i = r.at( x + r.b.o[0], y + r.b.o[1], z + r.b.o[2] );
      for( int c = 0; c < NC; c++ ) {
        bool own = lowned( c, l );
        float got = comp( f, c ), was = comp( s, c );
        if( ( wr >> c & 1 ) && own ) {
          if( !close( got, r.v[c][i], tol[c] ) ) {
            bad++;
            viol( fmt( "%s-value", op ), fmt( "%s: %s at local (%d,%d,%d) is %.9g, reference %.9g (tolerance %.2g) %s", op, cname[c], x, y, z, got, r.v[c][i], tol[c], ctx.c_str() ) );
          }
        } else if( !( !own && ( ghostok >> c & 1 ) ) ) {
          if( memcmp( &got, &was, 4 ) ) {
            bad++;
            viol( fmt( "%s-untouched", op ), fmt( "%s changed %s at local (%d,%d,%d)%s from %.9g to %.9g %s", op, cname[c], x, y, z, own ? "" : " (ghost)", was, got, ctx.c_str() ) );
          }
        }
      }
      if( memcmp( &f.ematx, &s.ematx, 8 * sizeof( material_id ) ) ) { bad++; viol( fmt( "%s-material", op ), fmt( "%s changed material ids %s", op, ctx.c_str() ) ); }
    }
    count( "values_compared", (int64_t)g->nv * NC );
  }
  void destroy() { delete_field_array( fa ); delete_material_list( ml ); delete_grid( g ); }
};

static double sum3( const double *a ) { return a[0] + a[1] + a[2]; }

static void run_ops( int cs, bool divmode ) {
  Rng rr( mix( mix( opt_seed, 11 + divmode ), cs ) );
  static const int allbc[] = { PEC, SYM, PMC, ABS };
  std::vector<int> bcs( allbc, allbc + 4 );
  if( rr.chance( 0.3 ) ) bcs.assign( 1, allbc[ rr.i( 0, 3 ) ] );
  Box b = draw_box( rr, bcs, rr.chance( 0.3 ) ? 12000 : 2500, 0.35 );
  // absorbing normal-e extrapolation reads two cells in; keep its axis >1 cell
  int nmat = rr.chance( 0.45 ) ? 1 : rr.i( 2, 6 );
  World w;
  w.vs = mix( opt_seed, 7000 + cs * 3 + divmode );
  double damp = rr.chance( 0.4 ) ? 0 : rr.u( 0, 0.3 );
  w.build( rr, b, nmat, damp, rr.chance( 0.5 ) );
  w.fill( true );
  Ref &r = w.r;
  int K = rr.i( 2, 6 );
  std::string ctx = fmt( "case %d seed %lld %s mats=%d damp=%g tpp=%d", cs, (long long)opt_seed, b.str().c_str(), nmat, damp, N_PIPELINE );
  double tol[NC] = { 0 };
  double maxrmu = 1, maxeps = 4, sumP = sum3( r.P ), u = 4e-7;
  double err[NC]; // running absolute error bound
  for( int c = 0; c < NC; c++ ) err[c] = 0;
  double eE = 0, eB = 0, eT = 0, eD = 0, eDB = 0, eR = 0;
  double Bg = 1; // bound on ghost b magnitude
  bool have_de = true, have_db = true;
  std::string seq;
  for( int k = 0; k < K; k++ ) {
    int op = divmode ? rr.i( 3, 11 ) : rr.i( 0, 2 );
    if( divmode && rr.chance( 0.15 ) ) op = rr.i( 0, 1 );
    double mE = r.mx3( EX ), mB = r.mx3( BX ) + Bg, mT = r.mx3( TX ), mJ = r.mx3( JX );
    w.take();
    switch( op ) {
    case 0: {
      double fr = rr.chance( 0.6 ) ? 0.5 : rr.u( 0.1, 1 );
      double dB = r.cdt * sumP * 2 * fr;
      eB += dB * eE + u * ( mB + dB * mE );
      for( int a = 0; a < 3; a++ ) tol[BX+a] = eB;
      r.advance_b( (float)fr ); w.fa->kernel->advance_b( w.fa, (float)fr );
      w.compare( "advance_b", ctx + seq, 7 << BX, 0, tol );
      seq += " b"; break; }
    case 1: case 2: {
      double dT = r.cdt * sumP * 2 * maxrmu * ( 1 + damp );
      // a ghost of an absorbing face mixes b and e
      double gB = eB + 2 * r.cdt * sumP * 2 * eE + u * ( mB + 4 * r.cdt * sumP * mE );
      double gmB = mB + 4 * r.cdt * sumP * mE;
      double mTn = dT * gmB + damp * mT;
      eT = dT * gB + ( op == 1 ? damp * eT : 0 ) + u * mTn;
      if( op == 1 ) eE = eE + eT + u * ( mE + mTn + b.dt / b.eps0 * mJ );
      eB = std::max( eB, gB ); Bg = gmB - mB + Bg;
      for( int a = 0; a < 3; a++ ) { tol[TX+a] = eT; tol[EX+a] = eE; }
      unsigned ghb = 7 << BX;
      if( op == 1 ) {
        r.advance_e(); w.fa->kernel->advance_e( w.fa, 1 );
        w.compare( "advance_e", ctx + seq, ( 7 << EX ) | ( 7 << TX ), ghb, tol ); seq += " e";
      } else {
        r.curl_b(); w.fa->kernel->compute_curl_b( w.fa );
        unsigned pec = 0; for( int f = 0; f < 6; f++ ) if( b.fbc[f] == PEC ) pec = 7 << EX;
        w.compare( "compute_curl_b", ctx + seq, ( 7 << TX ) | pec, ghb, tol ); seq += " c";
      }
      break; }
    case 3: case 4: {
      double m = 2 * sumP * maxeps * mE + ( r.mx( RF ) + r.mx( RB ) ) / b.eps0;
      eD = 2 * sumP * maxeps * eE + eR / b.eps0 + u * m;
      tol[DE] = eD;
      r.div_e(); w.fa->kernel->compute_div_e_err( w.fa );
      w.compare( "compute_div_e_err", ctx + seq, 1 << DE, ( 7 << EX ) | ( 7 << TX ) | 1 << DE, tol );
      have_de = true; seq += " de"; break; }
    case 5: case 6: {
      eDB = 2 * sumP * eB + u * 2 * sumP * r.mx3( BX );
      tol[DB] = eDB;
      r.div_b(); w.fa->kernel->compute_div_b_err( w.fa );
      w.compare( "compute_div_b_err", ctx + seq, 1 << DB, 1 << DB, tol );
      have_db = true; seq += " db"; break; }
    case 7: {
      double m = 2 * sumP * maxeps * mE * b.eps0 + r.mx( RF );
      eR = 2 * sumP * maxeps * eE * b.eps0 + u * m;
      tol[RB] = eR;
      r.rhob(); w.fa->kernel->compute_rhob( w.fa );
      // on absorbing faces no residual is defined, so neither is the bound charge
      for( int f = 0; f < 6; f++ ) if( b.fbc[f] == ABS ) {
        int a = f % 3; grid_t *g = w.g;
        r.plane( RB, a, f < 3 ? 1 : b.N[a] + 1, [&]( int *q ) {
          for( int t = 0; t < 3; t++ ) if( ( q[t] == 1 && b.fbc[t] == PEC ) || ( q[t] == b.N[t] + 1 && b.fbc[t+3] == PEC ) ) return;
          int l[3]; for( int t = 0; t < 3; t++ ) { l[t] = q[t] - b.o[t]; if( l[t] < 1 || l[t] > b.n[t] + 1 ) return; }
          r.v[RB][ r.at3( q ) ] = w.fa->f[ VOXEL( l[0], l[1], l[2], g->nx, g->ny, g->nz ) ].rhob;
        } );
      }
      w.compare( "compute_rhob", ctx + seq, 1 << RB, ( 7 << EX ) | ( 7 << TX ) | 1 << RB, tol );
      seq += " rb"; break; }
    case 8: {
      double al = r.alphadt() * sumP, m = r.mx( DE );
      eE += 2 * al * eD + u * ( mE + 2 * al * m );
      for( int a = 0; a < 3; a++ ) tol[EX+a] = eE, tol[TX+a] = eT + u;
      r.clean_e(); w.fa->kernel->clean_div_e( w.fa );
      unsigned pec = 0; for( int f = 0; f < 6; f++ ) if( b.fbc[f] == PEC ) pec = 7 << TX;
      w.compare( "clean_div_e", ctx + seq, ( 7 << EX ) | pec, 0, tol ); seq += " xe"; break; }
    case 9: {
      double al = r.alphadt() * sumP, m = r.mx( DB );
      eB += 2 * al * eDB + u * ( mB + 2 * al * m );
      for( int a = 0; a < 3; a++ ) tol[BX+a] = eB;
      r.clean_b(); w.fa->kernel->clean_div_b( w.fa );
      w.compare( "clean_div_b", ctx + seq, 7 << BX, 1 << DB, tol ); seq += " xb"; break; }
    case 10: {
      double got = w.fa->kernel->compute_rms_div_e_err( w.fa ), want = r.rms_e(), m = r.mx( DE ) + 1e-30;
      double t = b.eps0 * ( eD * 2 + 1e-6 * m );
      if( !close( got, want, t ) ) viol( "rms_div_e", fmt( "rms div e is %.9g, reference %.9g tol %.2g %s", got, want, t, ( ctx + seq ).c_str() ) );
      w.compare( "compute_rms_div_e_err", ctx + seq, 0, 0, tol ); seq += " re"; break; }
    case 11: {
      double got = w.fa->kernel->compute_rms_div_b_err( w.fa ), want = r.rms_b(), m = r.mx( DB ) + 1e-30;
      double t = b.eps0 * ( eDB * 2 + 1e-6 * m );
      if( !close( got, want, t ) ) viol( "rms_div_b", fmt( "rms div b is %.9g, reference %.9g tol %.2g %s", got, want, t, ( ctx + seq ).c_str() ) );
      w.compare( "compute_rms_div_b_err", ctx + seq, 0, 0, tol ); seq += " rb"; break; }
    }
    (void)have_de; (void)have_db;
  }
  count( "operations", K );
  eval( ctx + seq );
  sample( ctx + " ops:" + seq, 2 );
  w.destroy();
}

// Energies against the weighted sums
static void run_energy( int cs ) {
  Rng rr( mix( mix( opt_seed, 31 ), cs ) );
  static const int allbc[] = { PEC, SYM, PMC, ABS };
  Box b = draw_box( rr, std::vector<int>( allbc, allbc + 4 ), 6000, 0.5 );
  World w; w.vs = mix( opt_seed, 900 + cs );
  int nmat = rr.chance( 0.4 ) ? 1 : rr.i( 2, 5 );
  w.build( rr, b, nmat, 0, true ); w.fill( true ); w.take();
  double en[6], want[6];
  w.fa->kernel->energy_f( en, w.fa ); w.r.energy( want );
  std::string ctx = fmt( "case %d seed %lld %s mats=%d tpp=%d", cs, (long long)opt_seed, b.str().c_str(), nmat, N_PIPELINE );
  for( int k = 0; k < 6; k++ ) if( !close( en[k], want[k], 2e-6 * fabs( want[k] ) ) )
    viol( "energy_f", fmt( "energy component %d is %.12g, weighted sum %.12g %s", k, en[k], want[k], ctx.c_str() ) );
  double tol[NC] = { 0 };
  w.compare( "energy_f", ctx, 0, 0, tol );
  eval( ctx ); sample( ctx, 1 ); w.destroy();
}

// The exact invariant of the leapfrog, E.eps.E + B(n+1/2).(1/mu).B(n-1/2), of a
// closed lossless box keeps its value for as long as it runs; the reported
// energy stays between it and its Courant bound.
static void run_conserve( int cs ) {
  Rng rr( mix( mix( opt_seed, 61 ), cs ) );
  static const int okbc[] = { PEC, SYM, PMC };
  Box b = draw_box( rr, std::vector<int>( okbc, okbc + 3 ), 1500, 0.5 );
  World w; w.vs = mix( opt_seed, 3900 + cs );
  int nmat = rr.chance( 0.5 ) ? 1 : 3;
  w.build( rr, b, nmat, 0, false ); w.fill( true, true );
  Ref &r = w.r; field_array_t *fa = w.fa; grid_t *g = w.g; int n[3] = { g->nx, g->ny, g->nz };
  for( int v = 0; v < g->nv; v++ ) { field_t &f = fa->f[v]; f.jfx = f.jfy = f.jfz = f.rhof = f.rhob = f.tcax = f.tcay = f.tcaz = 0; }
  int lo[3], hi[3];
  for( int f = 0; f < 6; f++ ) { // walls that hold a field at zero
    int a = f % 3; if( !b.fbc[f] || ( f < 3 ? b.p[a] != 0 : b.p[a] != b.P[a] - 1 ) ) continue;
    int pl = f < 3 ? 1 : n[a] + 1;
    for( int z = 0; z <= n[2] + 1; z++ ) for( int y = 0; y <= n[1] + 1; y++ ) for( int x = 0; x <= n[0] + 1; x++ ) {
      int q[3] = { x, y, z }; if( q[a] != pl ) continue;
      field_t &F = fa->f[ VOXEL( x, y, z, n[0], n[1], n[2] ) ];
      for( int t = 0; t < 3; t++ ) if( b.fbc[f] == PEC ? t != a : 0 ) comp( F, EX + t ) = 0;
      if( b.fbc[f] == SYM ) comp( F, BX + a ) = 0;
    }
  }
  fa->kernel->synchronize_tang_e_norm_b( fa );
  std::string ctx = fmt( "case %d seed %lld %s mats=%d tpp=%d", cs, (long long)opt_seed, b.str().c_str(), nmat, N_PIPELINE );
  double cfl = 0; for( int a = 0; a < 3; a++ ) if( b.N[a] > 1 ) cfl += r.rd[a] * r.rd[a]; cfl *= pow( (double)b.dt * b.cvac, 2 );
  double dV = b.d[0] * b.d[1] * b.d[2];
  auto invariant = [&]() -> double {
    std::vector<field_t> keep( fa->f, fa->f + g->nv );
    fa->kernel->advance_b( fa, 0.5 );
    double s = 0, all = 0;
    for( int c = EX; c <= BZ; c++ ) {
      int a = c % 3; w.lrange( c, lo, hi );
      for( int z = lo[2]; z <= hi[2]; z++ ) for( int y = lo[1]; y <= hi[1]; y++ ) for( int x = lo[0]; x <= hi[0]; x++ ) {
        int q[3] = { x, y, z }; double wt = 1;
        for( int t = 0; t < 3; t++ ) if( ( c < 3 ? t != a : t == a ) && ( q[t] == 1 || q[t] == n[t] + 1 ) ) wt *= 0.5;
        int v = VOXEL( x, y, z, n[0], n[1], n[2] ); const Mat &m = r.mat[ c < 3 ? ( &keep[v].ematx )[a] : ( &keep[v].fmatx )[a] ];
        double u0 = comp( keep[v], c ), up = comp( fa->f[v], c );
        s += wt * ( c < 3 ? m.eps[a] * u0 * u0 : m.rmu[a] * up * ( 2 * u0 - up ) );
      }
    }
    memcpy( (void*)fa->f, &keep[0], keep.size() * sizeof( field_t ) );
    s *= 0.5 * b.eps0 * dV; mp_allsum_d( &s, &all, 1 ); return all;
  };
  double i0 = invariant(), worst = 0; int steps = rr.i( 60, 400 ), every = rr.i( 7, 40 );
  for( int k = 1; k <= steps; k++ ) {
    fa->kernel->advance_b( fa, 0.5 ); fa->kernel->advance_e( fa, 1 ); fa->kernel->advance_b( fa, 0.5 );
    if( k % every && k != steps ) continue;
    double i1 = invariant(), en[6], u = 0; fa->kernel->energy_f( en, fa ); for( int c = 0; c < 6; c++ ) u += en[c];
    double d = fabs( i1 - i0 ) / i0; worst = std::max( worst, d ); count( "energies_watched" );
    double tol = 4e-7 * ( 6 + sqrt( (double)k ) * 2 + 0.05 * k ) / ( 1 - cfl );
    if( !( d <= tol ) ) { if( !world_rank ) viol( "conserve", fmt( "after %d lossless steps the energy of the closed box went from %.12g to %.12g %s", k, i0, i1, ctx.c_str() ) ); break; }
    if( !( u >= i0 * ( 1 - 2 * tol ) && u <= i0 / ( 1 - cfl ) * ( 1 + 2 * tol ) ) ) { if( !world_rank ) viol( "reported", fmt( "after %d lossless steps the reported energy is %.12g, outside %.12g to %.12g %s", k, u, i0, i0 / ( 1 - cfl ), ctx.c_str() ) ); break; }
  }
  count( "steps", steps );
  eval( ctx ); sample( fmt( "%s cfl=%.3g: %d steps changed the energy by %.2g", ctx.c_str(), sqrt( cfl ), steps, worst ), 4 );
  w.destroy();
}

// Shared surface synchronisation: each copy gets its own value, the outcome must
// be the documented combination of every copy.
static void run_sync( int cs ) {
  Rng rr( mix( mix( opt_seed, 41 ), cs ) );
  static const int allbc[] = { PEC, SYM, PMC, ABS };
  Box b = draw_box( rr, std::vector<int>( allbc, allbc + 4 ), 3000, 0.5 );
  World w; w.vs = mix( opt_seed, 1900 + cs );
  w.build( rr, b, rr.i( 1, 2 ), 0, false ); w.fill( true );
  Ref &r = w.r; grid_t *g = w.g;
  std::string ctx = fmt( "case %d seed %lld %s tpp=%d", cs, (long long)opt_seed, b.str().c_str(), N_PIPELINE );
  bool agree = rr.chance( 0.2 );
  if( !agree ) {
    Rng lr( mix( w.vs, 5000 + world_rank ) );
    for( int v = 0; v < g->nv; v++ ) for( int c = 0; c < DE; c++ ) comp( w.fa->f[v], c ) = (float)lr.u( -1, 1 );
  }
  size_t nv = r.v[0].size();
  struct Item { int c; int kind; }; // kind 0 sum, 1 average
  std::vector<int> cs_;
  int which = cs % 3;
  if( which == 0 ) { cs_ = { JX, JY, JZ }; }
  else if( which == 1 ) { cs_ = { RF, RB }; }
  else { cs_ = { EX, EY, EZ, BX, BY, BZ, TX, TY, TZ }; }
  // gather every copy: apply local rule, scale by the averaging weight, sum
  std::vector<double> in( nv * cs_.size(), 0 ), out( nv * cs_.size(), 0 );
  auto canon = [&]( const int *l ) { int q[3]; for( int a = 0; a < 3; a++ ) q[a] = w.wrap( a, l[a] + b.o[a] ); return r.at3( q ); };
  for( size_t k = 0; k < cs_.size(); k++ ) {
    int c = cs_[k], lo[3], hi[3]; w.lrange( c, lo, hi );
    for( int z = lo[2]; z <= hi[2]; z++ ) for( int y = lo[1]; y <= hi[1]; y++ ) for( int x = lo[0]; x <= hi[0]; x++ ) {
      int l[3] = { x, y, z };
      double v = comp( w.fa->f[ VOXEL( x, y, z, g->nx, g->ny, g->nz ) ], c ), wgt = 1;
      for( int a = 0; a < 3; a++ ) for( int s = 0; s < 2; s++ ) {
        if( l[a] != ( s ? b.n[a] + 1 : 1 ) ) continue;
        int bc = g->bc[ fbound[ a + 3 * s ] ];
        // is the item on that face? edges not along a, faces normal to a, nodes
        bool norm_edge = ( c <= EZ || ( c >= TX && c <= JZ ) ) && c % 3 == a;
        bool norm_face = c >= BX && c <= BZ && ( c % 3 ) == a;
        if( norm_edge || ( c >= BX && c <= BZ && !norm_face ) ) continue;
        if( bc >= 0 ) {
          // averaged over the two copies for e, tca, b and rhob; summed for jf and rhof
          if( c == RB || which == 2 ) wgt *= 0.5;
        } else if( which == 2 ) {
          if( bc == PEC && !norm_face ) wgt = 0;
          if( bc == SYM && norm_face ) wgt = 0;
        } else if( c == RB ) { if( bc == PEC ) wgt = 0; }
        else if( bc == PEC ) wgt = 0; else wgt *= 2;
      }
      in[ k * nv + canon( l ) ] += v * wgt;
    }
  }
  mp_allsum_d( &in[0], &out[0], (int)in.size() );
  w.take();
  double e = 0;
  if( which == 0 ) w.fa->kernel->synchronize_jf( w.fa );
  else if( which == 1 ) w.fa->kernel->synchronize_rho( w.fa );
  else e = w.fa->kernel->synchronize_tang_e_norm_b( w.fa );
  static const char *nm[] = { "synchronize_jf", "synchronize_rho", "synchronize_tang_e_norm_b" };
  unsigned wr = 0;
  for( size_t k = 0; k < cs_.size(); k++ ) {
    int c = cs_[k]; wr |= 1u << c;
    int lo[3], hi[3]; w.lrange( c, lo, hi );
    for( int z = lo[2]; z <= hi[2]; z++ ) for( int y = lo[1]; y <= hi[1]; y++ ) for( int x = lo[0]; x <= hi[0]; x++ ) {
      int l[3] = { x, y, z }, q[3] = { x + b.o[0], y + b.o[1], z + b.o[2] };
      r.v[c][ r.at3( q ) ] = out[ k * nv + canon( l ) ];
    }
  }
  double tol[NC]; for( int c = 0; c < NC; c++ ) tol[c] = 4e-6;
  w.compare( nm[which], ctx, wr, 0, tol );
  if( which == 2 ) {
    // the reported error is zero exactly when all copies agreed
    bool shared = false;
    for( int a = 0; a < 3; a++ ) if( b.P[a] > 1 || b.per( a ) ) shared = true;
    if( agree && e != 0 ) viol( "sync-error", fmt( "synchronize reports error %g for agreeing copies %s", e, ctx.c_str() ) );
    if( !agree && shared && !( e > 0 ) ) viol( "sync-error", fmt( "synchronize reports error %g for disagreeing copies %s", e, ctx.c_str() ) );
  }
  eval( ctx + nm[which] ); sample( ctx + " " + nm[which], 1 ); w.destroy();
}

// Long runs: residuals stay at rounding level, cleaning never increases them.
static void run_long( int cs ) {
  Rng rr( mix( mix( opt_seed, 51 ), cs ) );
  static const int okbc[] = { PEC, PMC, ABS };
  Box b = draw_box( rr, std::vector<int>( okbc, okbc + 3 ), 1200, 0.5 );
  World w; w.vs = mix( opt_seed, 2900 + cs );
  int nmat = rr.chance( 0.6 ) ? 1 : 3;
  double damp = rr.chance( 0.5 ) ? 0 : rr.u( 0, 0.1 );
  if( damp > 0 ) b.dt *= 0.7; // damping lowers the stability limit
  w.build( rr, b, nmat, damp, false ); w.fill( true, true );
  Ref &r = w.r; field_array_t *fa = w.fa; grid_t *g = w.g;
  for( int v = 0; v < g->nv; v++ ) { field_t &f = fa->f[v]; f.jfx = f.jfy = f.jfz = f.rhof = f.rhob = 0; if( 1 ) f.tcax = f.tcay = f.tcaz = 0; }
  fa->kernel->synchronize_tang_e_norm_b( fa );
  std::string ctx = fmt( "case %d seed %lld %s mats=%d damp=%g tpp=%d", cs, (long long)opt_seed, b.str().c_str(), nmat, damp, N_PIPELINE );
  fa->kernel->compute_rhob( fa );
  fa->kernel->compute_div_e_err( fa );
  double s = 0; for( int a = 0; a < 3; a++ ) s += 2 * r.P[a];
  double emax = 1, lvl = 1e-5 * s * 4 * b.eps0;
  double de = fa->kernel->compute_rms_div_e_err( fa );
  if( !( de <= lvl ) ) viol( "rhob-residual", fmt( "after computing bound charge the residual is %g (rounding level %g) %s", de, lvl, ctx.c_str() ) );
  // make B divergence free: replace it by a curl (one advance_b from zero)
  for( int v = 0; v < g->nv; v++ ) { field_t &f = fa->f[v]; f.cbx = f.cby = f.cbz = 0; }
  fa->kernel->advance_b( fa, 1 );
  int steps = rr.i( 20, 120 );
  for( int k = 0; k < steps; k++ ) {
    fa->kernel->advance_b( fa, 0.5 ); fa->kernel->advance_e( fa, 1 ); fa->kernel->advance_b( fa, 0.5 );
  }
  // local maxima for the scale
  double lm[1] = { 0 }, gm[1] = { 0 };
  for( int v = 0; v < g->nv; v++ ) { field_t &f = fa->f[v]; for( int c = 0; c < 6; c++ ) lm[0] += pow( comp( f, c ), 2 ); }
  mp_allsum_d( lm, gm, 1 );
  emax = std::max( 1.0, sqrt( gm[0] / ( 6. * b.N[0] * b.N[1] * b.N[2] ) ) * 4 );
  double lv = 4e-7 * s * 4 * b.eps0 * emax * ( 8 + sqrt( (double)steps ) * 4 );
  fa->kernel->compute_div_e_err( fa ); de = fa->kernel->compute_rms_div_e_err( fa );
  fa->kernel->compute_div_b_err( fa ); double db = fa->kernel->compute_rms_div_b_err( fa );
  if( !( de <= lv ) ) viol( "div-e-preserved", fmt( "after %d source-free steps rms div E residual is %g (rounding level %g) %s", steps, de, lv, ctx.c_str() ) );
  if( !( db <= lv ) ) viol( "div-b-preserved", fmt( "after %d steps rms div B is %g (rounding level %g) %s", steps, db, lv, ctx.c_str() ) );
  count( "steps", steps );
  // cleaning
  for( int v = 0; v < g->nv; v++ ) { field_t &f = fa->f[v]; (void)f; }
  w.vs++; w.fill( true, true );
  for( int v = 0; v < g->nv; v++ ) { field_t &f = fa->f[v]; (void)f; }
  fa->kernel->synchronize_tang_e_norm_b( fa );
  fa->kernel->compute_div_e_err( fa ); fa->kernel->compute_div_b_err( fa );
  double e0 = fa->kernel->compute_rms_div_e_err( fa ), b0 = fa->kernel->compute_rms_div_b_err( fa );
  for( int k = 0; k < 6; k++ ) {
    fa->kernel->clean_div_e( fa ); fa->kernel->clean_div_b( fa );
    fa->kernel->compute_div_e_err( fa ); fa->kernel->compute_div_b_err( fa );
    double e1 = fa->kernel->compute_rms_div_e_err( fa ), b1 = fa->kernel->compute_rms_div_b_err( fa );
    if( !( e1 <= e0 * 1.00001 + 1e-6 ) ) viol( "clean-e-grows", fmt( "cleaning pass %d raised rms div E residual from %.9g to %.9g %s", k, e0, e1, ctx.c_str() ) );
    if( !( b1 <= b0 * 1.00001 + 1e-6 ) ) viol( "clean-b-grows", fmt( "cleaning pass %d raised rms div B from %.9g to %.9g %s", k, b0, b1, ctx.c_str() ) );
    e0 = e1; b0 = b1;
  }
  eval( ctx ); sample( fmt( "%s steps=%d div_e=%.2g div_b=%.2g (level %.2g)", ctx.c_str(), steps, de, db, lv ), 2 );
  w.destroy();
}

int main( int argc, char **argv ) {
  boot_services( &argc, &argv );
  parse( argc, argv );
  for( int k = 0; k < opt_cases; k++ ) {
    cur_case = opt_first + k; each_case( k );
    if( opt_mode == "advance" ) run_ops( cur_case, false );
    else if( opt_mode == "div" ) run_ops( cur_case, true );
    else if( opt_mode == "long" ) run_long( cur_case );
    else if( opt_mode == "energy" ) run_energy( cur_case );
    else if( opt_mode == "conserve" ) run_conserve( cur_case );
    else if( opt_mode == "sync" ) run_sync( cur_case );
  }
  if( world_rank == 0 || 1 ) { mp_barrier(); }
  if( world_rank == 0 ) done();
  mp_barrier();
  halt_services();
  return 0;
}
