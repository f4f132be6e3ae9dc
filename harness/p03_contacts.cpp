// P03: contact detection reports exactly the contacts that exist.
//
// Bodies, boundaries and step displacements are enumerated on integer (or dyadic) lattices, so that the
// reference decides touching, overlapping and separation exactly; rotated shapes are compared outside a
// margin. The real computeActiveSet of each simulator is run on every arrangement.
#include "sys.h"
#if defined(SYS_RB3D)
#include "rigidbody3d/Constraints/CollisionUtilities.h"
#endif
#include "scisim/CollisionDetection/CollisionDetectionUtilities.h"
using namespace sys;

namespace
{
typedef long long L;
typedef std::map<Hit,int> Hits;
struct Range { int lo, hi; };
typedef std::map<Hit,Range> Expect;

void compare( const Scene& sc, const VX& q0, const VX& q1, const Hits& got, const Expect& want )
{
  vp::transition();
  for( const auto& w : want )
  {
    const auto it = got.find( w.first );
    const int n = it == got.end() ? 0 : it->second;
    VP_CHECK( n >= w.second.lo && n <= w.second.hi, "contact " << w.first.what << w.first.i << "-" << w.first.j << " reported " << n << " times, expected " << w.second.lo << ".." << w.second.hi << "; scene " << show( sc ) << " q0=" << vp::vstr( q0 ) << " q1=" << vp::vstr( q1 ) << " got " << showHits( got ) );
  }
  for( const auto& g : got )
  {
    VP_CHECK( want.count( g.first ), "contact " << g.first.what << g.first.i << "-" << g.first.j << " reported but the shapes do not touch; scene " << show( sc ) << " q0=" << vp::vstr( q0 ) << " q1=" << vp::vstr( q1 ) << " got " << showHits( got ) );
  }
}
void need( Expect& e, char w, int i, int j, int lo = 1, int hi = 1 ) { e[ Hit{ w, i, j } ] = Range{ lo, hi }; }
void maybe( Expect& e, char w, int i, int j, int hi = 1 ) { e[ Hit{ w, i, j } ] = Range{ 0, hi }; }

// Do the swept discs come within R of each other during the step? d: relative position, e: relative displacement. Also the first time.
bool sweptHit( const std::array<L,3>& d, const std::array<L,3>& e, L R, double& t )
{
  L a = 0, b = 0, c = -R * R;
  for( int k = 0; k < 3; ++k ) { a += e[k] * e[k]; b += d[k] * e[k]; c += d[k] * d[k]; }
  t = 0.0;
  if( c <= 0 ) { return true; }
  if( b >= 0 ) { return false; }
  // Closest approach at -b/a
  if( b * b < a * c ) { return false; }
  if( -b >= a && a + 2 * b + c > 0 ) { return false; }
  const L disc = b * b - a * c;
  t = double( c ) / ( double( -b ) + std::sqrt( double( disc ) ) );
  return true;
}
bool staticHit( const std::array<L,3>& d, L R ) { L c = -R * R; for( int k = 0; k < 3; ++k ) { c += d[k] * d[k]; } return c <= 0; }

VX placed( const VX& q0, const std::vector<std::array<L,3>>& x, double s )
{
  VX q = q0;
  for( size_t i = 0; i < x.size(); ++i ) { setPos( q, int( i ), vd( s * double( x[i][0] ), s * double( x[i][1] ), s * double( x[i][2] ) ) ); }
  return q;
}
#if defined(SYS_RB3D)
constexpr bool SWEPT = false;
#else
constexpr bool SWEPT = true;
#endif

std::array<L,3> sub( const std::array<L,3>& a, const std::array<L,3>& b ) { return { { a[0]-b[0], a[1]-b[1], a[2]-b[2] } }; }
std::array<L,3> add( const std::array<L,3>& a, const std::array<L,3>& b ) { return { { a[0]+b[0], a[1]+b[1], a[2]+b[2] } }; }
std::string tup( const std::array<L,3>& a ) { return "(" + std::to_string( a[0] ) + "," + std::to_string( a[1] ) + "," + std::to_string( a[2] ) + ")"; }

// One arrangement of round bodies, planes and drums on the lattice (coordinates and radii multiplied by s)
struct Arr
{
  std::vector<std::array<L,3>> x0, x1;
  std::vector<L> r;
  unsigned fixed = 0;
  struct Pl { std::array<L,3> x, n; L len; };   // normal n/len, integral length
  std::vector<Pl> planes;
  struct Dr { std::array<L,3> x; L R; int axis; };
  std::vector<Dr> drums;
};
Scene sceneOf( const Arr& a, double s )
{
  Scene sc;
  for( size_t i = 0; i < a.x0.size(); ++i )
  {
    Body b; b.x = vd( s * a.x0[i][0], s * a.x0[i][1], s * a.x0[i][2] ); b.dim[0] = s * a.r[i]; b.fixed = ( a.fixed >> i ) & 1; sc.b.push_back( b );
  }
  for( const auto& p : a.planes ) { Plane q; q.x = vd( s * p.x[0], s * p.x[1], s * p.x[2] ); q.n = vd( double( p.n[0] ) / p.len, double( p.n[1] ) / p.len, double( p.n[2] ) / p.len ); sc.planes.push_back( q ); }
  for( const auto& d : a.drums ) { Round r; r.x = vd( s * d.x[0], s * d.x[1], s * d.x[2] ); r.axis = VD::Unit( d.axis % D ); r.r = s * d.R; sc.rounds.push_back( r ); }
  return sc;
}
void runArr( const Arr& a, double s )
{
  const Scene sc = sceneOf( a, s );
  Sim sim = build( sc );
  const int n = int( a.x0.size() );
  Expect want;
  for( int i = 0; i < n; ++i )
  {
    const bool fi = ( AD > 0 ) && ( ( a.fixed >> i ) & 1 );
    for( int j = i + 1; j < n; ++j )
    {
      const bool fj = ( AD > 0 ) && ( ( a.fixed >> j ) & 1 );
      if( fi && fj ) { continue; }
      double t;
      const auto d = sub( a.x0[i], a.x0[j] ), e = sub( sub( a.x1[i], a.x1[j] ), d );
      if( SWEPT ? sweptHit( d, e, a.r[i] + a.r[j], t ) : staticHit( sub( a.x1[i], a.x1[j] ), a.r[i] + a.r[j] ) ) { need( want, 'b', i, j ); }
    }
    if( fi ) { continue; }
    for( size_t p = 0; p < a.planes.size(); ++p )
    {
      const auto& P = a.planes[p];
      L g = -a.r[i] * P.len;
      for( int k = 0; k < 3; ++k ) { g += P.n[k] * ( a.x1[i][k] - P.x[k] ); }
      if( g < 0 || ( g == 0 && P.len == 1 ) ) { need( want, 'p', i, int( p ) ); } else if( g == 0 ) { maybe( want, 'p', i, int( p ) ); }
    }
    for( size_t p = 0; p < a.drums.size(); ++p )
    {
      const auto& Dm = a.drums[p];
      L g = -( Dm.R - a.r[i] ) * ( Dm.R - a.r[i] );
      for( int k = 0; k < 3; ++k ) { if( D == 2 || k != Dm.axis ) { g += ( a.x1[i][k] - Dm.x[k] ) * ( a.x1[i][k] - Dm.x[k] ); } }
      if( g >= 0 ) { need( want, 'r', i, int( p ) ); }
    }
  }
  const VX q0 = q( sim );
  const VX q1 = placed( q0, a.x1, s );
  const VX vel = v( sim );
  const Cons set = detect( sim, q0, q1, vel );
  const Hits got = hits( set );
  compare( sc, q0, q1, got, want );
  vp::state( hash( q1, hash( q0 ) ) );
  vp::outcome( got.empty() ? "no contact" : "contacts" );
#if defined(SYS_RB2D)
  // The list of contact points shows every detected contact once
  {
    std::vector<Vector2s> points, normals( 3, Vector2s( 7, 7 ) );
    sim.computeContactPoints( points, normals );
    const Cons here = detect( sim, q0, q0, vel );
    VP_CHECK( points.size() == here.size() && normals.size() == here.size(), points.size() << " contact points and " << normals.size() << " normals for " << here.size() << " contacts; scene " << show( sc ) );
    for( size_t i = 0; i < here.size(); ++i )
    {
      VectorXs x, n; here[i]->getWorldSpaceContactPoint( q0, x ); here[i]->getWorldSpaceContactNormal( q0, n );
      VP_CHECK( x == points[i] && n == normals[i], "contact " << i << " is listed at " << vp::vstr( points[i] ) << " with normal " << vp::vstr( normals[i] ) << ", but is at " << vp::vstr( x ) << " with " << vp::vstr( n ) << "; scene " << show( sc ) );
    }
  }
#else
  // The collision census of the current configuration agrees with detection
  if( a.x0 == a.x1 )
  {
    std::map<std::string,unsigned> counts; std::map<std::string,scalar> depths;
#if defined(SYS_RB3D)
    std::map<std::string,scalar> volumes; sim.computeNumberOfCollisions( counts, depths, volumes );
#else
    sim.computeNumberOfCollisions( counts, depths );
#endif
    unsigned total = 0; for( const auto& c : counts ) { total += c.second; }
    VP_CHECK( total == set.size(), "census counts " << total << " contacts, detection reports " << set.size() << "; scene " << show( sc ) );
    std::map<std::string,scalar> sum; for( const auto& c : set ) { sum[ c->name() ] += c->penetrationDepth( q0 ); }
    for( const auto& c : sum ) { VP_CHECK( c.second != c.second || std::fabs( depths[ c.first ] - c.second ) <= 1.0e-9, "census depth of " << c.first << " is " << depths[ c.first ] << ", expected " << c.second ); }
#if defined(SYS_RB3D)
    std::map<std::string,scalar> lens; for( const auto& c : set ) { lens[ c->name() ] += c->overlapVolume( q0 ); }
    for( const auto& c : lens ) { VP_CHECK( c.second != c.second || std::fabs( volumes[ c.first ] - c.second ) <= 1.0e-9, "census overlap of " << c.first << " is " << volumes[ c.first ] << ", expected " << c.second ); }
    VP_CHECK( depths.size() == sum.size() && volumes.size() == lens.size() && counts.size() == sum.size(), "the census names " << counts.size() << ", " << depths.size() << " and " << volumes.size() << " kinds of contact, detection " << sum.size() << "; scene " << show( sc ) );
#endif
  }
#endif
}

void pairs()
{
  const int E = D == 2 ? 5 : 4;
  const int M = D == 2 ? 6 : 4;
  for( L r0 = 1; r0 <= 3; ++r0 ) { for( L r1 = 1; r1 <= 3; ++r1 ) {
    for( L dx = -E; dx <= E; ++dx ) { for( L dy = -E; dy <= E; ++dy ) { for( L dz = ( D == 3 ? -E : 0 ); dz <= ( D == 3 ? E : 0 ); ++dz ) {
      if( dx == 0 && dy == 0 && dz == 0 ) { continue; }
      const std::array<L,3> d{ { dx, dy, dz } };
      vp::runCase( [&]{ return "round bodies radii " + std::to_string( r0 ) + "," + std::to_string( r1 ) + " relative position " + tup( d ); },
      [&]{
        for( L ex = -M; ex <= M; ++ex ) { for( L ey = -M; ey <= M; ++ey ) { for( L ez = ( D == 3 ? -1 : 0 ); ez <= ( D == 3 ? 1 : 0 ); ++ez ) {
          if( D == 3 && ( ( ex % 2 ) || ( ey % 2 ) ) ) { continue; }
          const std::array<L,3> e{ { ex, ey, ez } };
          if( D == 2 )
          {
            double t = 0.0;
            const bool hit = sweptHit( d, e, r0 + r1, t );
            // Absolute motion split between the two, offset from the origin
            for( int k = 0; k < 2; ++k )
            {
              const Vector2s q0a( 3.0 + dx, -2.0 + dy ), q0b( 3.0, -2.0 );
              const Vector2s mv = k ? Vector2s( 2.0, -5.0 ) : Vector2s( 0.0, 0.0 );
              const Vector2s q1a = q0a + Vector2s( ex, ey ) + mv, q1b = q0b + mv;
              const std::pair<bool,scalar> res = CollisionDetectionUtilities::ballBallCCDCollisionHappens( q0a, q1a, scalar( r0 ), q0b, q1b, scalar( r1 ) );
              VP_CHECK( res.first == hit, "swept test says " << res.first << ", expected " << hit << " for relative displacement " << tup( e ) );
              if( hit ) { VP_CHECK( std::fabs( res.second - t ) <= 1.0e-9, "swept test gives first contact at " << res.second << ", expected " << t << " for relative displacement " << tup( e ) ); }
            }
          }
          for( int k = 0; k < 2; ++k )
          {
            Arr a; a.r = { r0, r1 };
            const std::array<L,3> o{ { 3, -2, D == 3 ? 1 : 0 } }, mv{ { k ? 2 : 0, k ? -3 : 0, 0 } };
            a.x0 = { add( o, d ), o }; a.x1 = { add( add( a.x0[0], e ), mv ), add( o, mv ) };
            if( k ) { std::swap( a.x0[0], a.x0[1] ); std::swap( a.x1[0], a.x1[1] ); std::swap( a.r[0], a.r[1] ); }
            runArr( a, k ? 0.25 : 1.0 );
          }
        } } }
      } );
    } } }
  } }
}

void several()
{
  // Three bodies, every placement on a lattice, every fixed subset, a few displacement patterns
  std::vector<std::array<L,3>> pts;
  const int W = D == 2 ? ( vp::thorough() ? 6 : 5 ) : 3;
  for( L x = 0; x < W; ++x ) { for( L y = 0; y < W; ++y ) { for( L z = 0; z < ( D == 3 ? 2 : 1 ); ++z ) { pts.push_back( { { 2 * x, 2 * y, 2 * z } } ); } } }
  const std::array<L,3> moves[4][3] = { { { { 0, 0, 0 } }, { { 0, 0, 0 } }, { { 0, 0, 0 } } },
                                        { { { 1, 0, 0 } }, { { 0, 1, 0 } }, { { -1, -1, 0 } } },
                                        { { { 4, 2, 0 } }, { { -4, 0, 0 } }, { { 0, -6, 0 } } },
                                        { { { 0, 0, 0 } }, { { 3, 3, 0 } }, { { 0, 5, 0 } } } };
  const int P = int( pts.size() );
  for( int i = 0; i < P; ++i ) { for( int j = 0; j < P; ++j ) {
    if( i == j ) { continue; }
    vp::runCase( [&]{ return "three bodies, first at " + tup( pts[i] ) + ", second at " + tup( pts[j] ); },
    [&]{
      for( int k = 0; k < P; ++k )
      {
        if( k == i || k == j ) { continue; }
        for( int m = 0; m < 4; ++m )
        {
          for( unsigned f = 0; f < ( AD > 0 ? 8u : 1u ); ++f )
          {
            if( f != 0 && ( m == 1 || m == 3 ) && !vp::thorough() ) { continue; }
            Arr a; a.r = { 1, 2, 1 }; a.fixed = f;
            const int id[3] = { i, j, k };
            for( int b = 0; b < 3; ++b )
            {
              a.x0.push_back( pts[ id[b] ] );
              const bool moves_now = !( AD == 3 && ( ( f >> b ) & 1 ) );
              a.x1.push_back( moves_now ? add( pts[ id[b] ], moves[m][b] ) : pts[ id[b] ] );
            }
            runArr( a, 0.5 );
          }
        }
      }
    } );
  } }
}

void boundaries()
{
  // Two bodies among every subset of a menu of planes and drums
  std::vector<Arr::Pl> planes = { { { { -3, 0, 0 } }, { { 1, 0, 0 } }, 1 }, { { { 3, 5, 0 } }, { { -1, 0, 0 } }, 1 }, { { { 0, -2, 0 } }, { { 0, 1, 0 } }, 1 }, { { { 1, -1, 0 } }, { { 3, 4, 0 } }, 5 } };
  if( D == 3 ) { planes.push_back( { { { 0, 0, 1 } }, { { 0, 0, -1 } }, 1 } ); planes[1] = { { { 2, 1, 0 } }, { { -2, 1, 2 } }, 3 }; }
  std::vector<Arr::Dr> drums;
#if !defined(SYS_RB2D)
  drums = { { { { 0, 0, 0 } }, 5, 2 }, { { { 1, 2, 0 } }, 6, D == 3 ? 0 : 2 }, { { { -3, 0, 1 } }, 7, D == 3 ? 1 : 2 } };
#endif
  const int W = D == 2 ? 4 : 2;
  const int np = int( planes.size() ), nd = int( drums.size() );
  for( unsigned m = 0; m < ( 1u << ( np + nd ) ); ++m )
  {
    for( L x = -W; x <= W; ++x )
    {
      vp::runCase( [&]{ return "boundary subset " + std::to_string( m ) + ", first body x " + std::to_string( x ); },
      [&]{
        for( L y = -W; y <= W; ++y ) { for( L z = ( D == 3 ? -1 : 0 ); z <= ( D == 3 ? 1 : 0 ); ++z )
        {
          for( int k = 0; k < 3; ++k )
          {
            for( unsigned f = 0; f < ( AD > 0 ? 4u : 1u ); ++f )
            {
              Arr a; a.r = { 2, 1 }; a.fixed = f;
              if( k == 1 ) { a.r = { 1, 2 }; }
              for( int p = 0; p < np; ++p ) { if( ( m >> p ) & 1 ) { a.planes.push_back( planes[p] ); } }
              for( int p = 0; p < nd; ++p ) { if( ( m >> ( np + p ) ) & 1 ) { a.drums.push_back( drums[p] ); } }
              const std::array<L,3> e1{ { x, y, z } }, e2{ { -y, x + ( D == 3 ? 2 : 3 ), z } };
              a.x1 = { e1, e2 };
              a.x0 = a.x1;
              if( k == 2 ) { a.x0 = { add( e1, { { 7, 0, 0 } } ), add( e2, { { -9, 1, 0 } } ) }; if( AD == 3 ) { for( int b = 0; b < 2; ++b ) { if( ( f >> b ) & 1 ) { a.x0[b] = a.x1[b]; } } } }
              if( a.x0[0] == a.x0[1] ) { continue; }
              bool degenerate = false;   // body centred on a drum axis
              for( const auto& d : a.drums ) { for( int b = 0; b < 2; ++b ) { L s = 0; for( int c = 0; c < 3; ++c ) { if( D == 2 || c != d.axis ) { const L t = a.x0[b][c] - d.x[c]; s += t * t; } } degenerate = degenerate || s == 0; } }
              if( degenerate ) { continue; }
              runArr( a, 0.5 );
            }
          }
        } }
      } );
    }
  }
}

// ---------------- periodic boundaries ----------------
// Domain [-4,4] in each periodic direction, coordinates in halves.
void periodic()
{
  // Which portals: bit 0: x, bit 1: y (bit 2: z); 2D also a sliding y portal with several offsets
  struct Conf { unsigned mask; bool sliding; double speed; double t; };
  std::vector<Conf> confs;
  for( unsigned m = 1; m < ( 1u << D ); ++m ) { confs.push_back( { m, false, 0.0, 0.0 } ); }
#if !defined(SYS_RB3D)
  for( double dx : { 0.0, 1.0, 2.5, -2.0, 3.5, -4.0, 9.5 } ) { confs.push_back( { 3u, true, dx == 0.0 ? 1.0 : dx, dx == 0.0 ? 0.0 : 1.0 } ); }
#endif
  std::vector<std::pair<double,double>> radii = { { 1.0, 1.0 }, { 0.5, 1.5 }, { 1.5, 0.5 } };
  const double step = D == 2 ? ( vp::thorough() ? 0.5 : 0.75 ) : ( vp::thorough() ? 1.0 : 1.5 );
  const int N = D == 2 ? ( vp::thorough() ? 19 : 13 ) : ( vp::thorough() ? 10 : 7 );
  for( const Conf& cf : confs ) { for( int order = 0; order < 3; ++order ) { for( const auto& rr : radii )
  {
    for( int c0 = 0; c0 < ( D == 2 ? N * N : N * N * 3 ); ++c0 )
    {
      const VD a = vd( -4.5 + step * ( c0 % N ), -4.5 + step * ( ( c0 / N ) % N ), D == 3 ? -3.5 + 3.75 * ( c0 / ( N * N ) ) : 0.0 );
      vp::runCase( [&]{ return "periodic mask " + std::to_string( cf.mask ) + ( cf.sliding ? " sliding speed " + std::to_string( cf.speed ) + " time " + std::to_string( cf.t ) : std::string() ) + " order " + std::to_string( order ) + " radii " + std::to_string( rr.first ) + "," + std::to_string( rr.second ) + " first at " + vp::vstr( a ); },
      [&]{
        std::vector<VD> bs;
        // All partners near any image of the first body (others cannot touch), on the lattice
        for( int c1 = 0; c1 < ( D == 2 ? N * N : N * N * 3 ); ++c1 ) { bs.push_back( vd( -4.375 + step * ( c1 % N ), -4.25 + step * ( ( c1 / N ) % N ), D == 3 ? -3.75 + 3.625 * ( c1 / ( N * N ) ) : 0.0 ) ); }
        std::vector<int> axes; for( int k = 0; k < D; ++k ) { if( ( cf.mask >> k ) & 1 ) { axes.push_back( k ); } }
        if( order == 1 ) { std::reverse( axes.begin(), axes.end() ); }
        // A third, unrelated ball is listed first in half of the arrangements, so that indices matter
        std::vector<VD> xs; std::vector<double> rs;
        const bool third = order == 1;
        // The last arrangement is rotated: boundaries that are not aligned with the axes
        const bool tilted = order == 2;
        Eigen::Matrix<double,D,D> R = Eigen::Matrix<double,D,D>::Identity();
        // (in 3D about the first axis: a 3D boundary matches the two planes' frames only up to signs)
        if( tilted ) { const int k = D - 2, l = D - 1; R( k, k ) = R( l, l ) = 5.0 / 13.0; R( k, l ) = -12.0 / 13.0; R( l, k ) = 12.0 / 13.0; }
        const double eps = tilted ? 1.0e-7 : 0.0;
        // Half of the domains lie off the origin, with the two planes of each boundary listed the other way round
        const VD at = order ? vd( 2.5, -1.25, 0.75 ) : VD( VD::Zero() );
        if( third ) { xs.push_back( vd( 3.4375, -3.1875, 3.3125 ) ); rs.push_back( 0.5 ); }
        xs.push_back( a ); rs.push_back( rr.first ); xs.push_back( a ); rs.push_back( rr.second );
        const int n = int( xs.size() );
        Scene sc;
        for( int i = 0; i < n; ++i ) { Body bd; bd.x = R * xs[i] + at; bd.dim[0] = rs[i]; bd.fixed = D == 3 && third && i == 1; sc.b.push_back( bd ); }
        for( int k : axes )
        {
          Portal p; const double up = third ? -1.0 : 1.0; p.xa = at - up * 4.0 * R.col( k ); p.na = up * R.col( k ); p.xb = at + up * 4.0 * R.col( k ); p.nb = -up * R.col( k );
          if( cf.sliding && k == 1 ) { p.sliding = true; p.speed = cf.speed; p.bounds = 4.0; }
          sc.portals.push_back( p );
        }
        double off = 0.0;
        if( cf.sliding ) { off = cf.speed * cf.t; while( off > 4.0 ) { off -= 8.0; } while( off < -4.0 ) { off += 8.0; } }
        Sim sim = build( sc );
#if !defined(SYS_RB3D)
        for( auto& p : sim.state().planarPortals() ) { p.updateMovingPortals( cf.t ); }
#endif
        // Images of a body through each boundary it touches; crossing a sliding boundary shifts by its offset
        auto images = [&]( const VD& x, double r )
        {
          std::vector<VD> im( 1, x );
          for( int k : axes )
          {
            double s = 0.0;
            if( x( k ) - r <= -4.0 ) { s = 1.0; } else if( x( k ) + r >= 4.0 ) { s = -1.0; }
            if( s == 0.0 ) { continue; }
            VD y = x; y( k ) += 8.0 * s;
            if( cf.sliding && k == 1 ) { y( 0 ) += s * off; while( y( 0 ) > 4.0 ) { y( 0 ) -= 8.0; } while( y( 0 ) < -4.0 ) { y( 0 ) += 8.0; } }
            im.push_back( y );
          }
          return im;
        };
        for( const VD& b : bs )
        {
          xs[ n - 1 ] = b;
          VX q1 = q( sim ); setPos( q1, n - 1, VD( R * b + at ) );
          Expect want;
          bool across = false;
          for( int i = 0; i < n; ++i ) { for( int j = i + 1; j < n; ++j )
          {
            if( sc.b[i].fixed && sc.b[j].fixed ) { continue; }
            const double rr2 = rs[i] + rs[j];
            // Existence of contact anywhere on the torus
            bool torus = false, reach = false, edge = false;
            for( int k0 = -2; k0 <= 2; ++k0 ) { for( int k1 = -1; k1 <= 1; ++k1 ) { for( int k2 = -1; k2 <= 1; ++k2 )
            {
              if( k0 != 0 && !( cf.mask & 1 ) ) { continue; }
              if( k1 != 0 && !( cf.mask & 2 ) ) { continue; }
              if( k2 != 0 && !( D == 3 && ( cf.mask & 4 ) ) ) { continue; }
              VD d = xs[i] - xs[j]; d( 0 ) += 8.0 * k0; d( 1 ) += 8.0 * k1; if( D == 3 ) { d( D - 1 ) += 8.0 * k2; }
              if( cf.sliding && k1 != 0 ) { d( 0 ) += k1 * off; }
              torus = torus || d.norm() <= rr2 + eps; edge = edge || ( tilted && std::fabs( d.norm() - rr2 ) <= eps );
            } } }
            const auto ia = images( xs[i], rs[i] ), ib = images( xs[j], rs[j] );
            for( size_t x = 0; x < ia.size(); ++x ) { for( size_t y = 0; y < ib.size(); ++y )
            {
              reach = reach || ( ia[x] - ib[y] ).norm() <= rr2 + eps;
              if( cf.sliding && ( ( x && std::fabs( std::fabs( ia[x]( 0 ) ) - 4.0 ) < 1.0e-9 ) || ( y && std::fabs( std::fabs( ib[y]( 0 ) ) - 4.0 ) < 1.0e-9 ) ) ) { edge = true; }
            } }
            if( tilted ) { for( int b : { i, j } ) { for( int k : axes ) { if( std::fabs( std::fabs( xs[b]( k ) ) + rs[b] - 4.0 ) < eps ) { edge = true; } } } }
            if( reach ) { VP_CHECK( torus, "reference inconsistency" ); }
            // Listed in known_findings.txt: contacts that need one body's image through two boundaries at once are not found
            if( torus && !reach ) { maybe( want, 'b', i, j ); vp::outcome( "corner contact through two boundaries (known finding)" ); }
            // A touch up to rounding, in rotated domains, may go either way;
            // an image exactly on the wrap seam of a sliding boundary may be placed on either side
            else if( torus && edge ) { maybe( want, 'b', i, j ); }
            else if( torus ) { need( want, 'b', i, j ); across = across || ( xs[i] - xs[j] ).norm() > rr2; }
          } }
          const VX q0 = q1;
          const VX vel = v( sim );
          const Hits got = hits( detect( sim, q0, q1, vel ) );
          compare( sc, q0, q1, got, want );
          vp::state( hash( q1, vp::hashStr( std::to_string( cf.mask ) + ":" + std::to_string( off ) ) ) );
          vp::outcome( got.empty() ? "periodic: no contact" : across ? "periodic: contact across boundary" : "periodic: direct contact" );
        }
      } );
    }
  } } }
}

// ---------------- boxes ----------------
#if defined(SYS_RB2D)
Eigen::Matrix2d R2( double t ) { Eigen::Matrix2d r; r << std::cos( t ), -std::sin( t ), std::sin( t ), std::cos( t ); return r; }
// Largest separation over the box axes: > 0 separated, < 0 overlapping
double boxSep( const VD& xa, double ta, const Eigen::Vector2d& ha, const VD& xb, double tb, const Eigen::Vector2d& hb )
{
  double best = -1.0e300;
  const Eigen::Matrix2d A = R2( ta ), B = R2( tb );
  for( int k = 0; k < 4; ++k )
  {
    const Eigen::Vector2d n = k < 2 ? A.col( k ) : B.col( k - 2 );
    double w = 0.0;
    for( int c = 0; c < 2; ++c ) { w += ha( c ) * std::fabs( n.dot( A.col( c ) ) ) + hb( c ) * std::fabs( n.dot( B.col( c ) ) ); }
    best = std::max( best, std::fabs( n.dot( xa - xb ) ) - w );
  }
  return best;
}
double circleBoxSep( const VD& c, double r, const VD& x, double t, const Eigen::Vector2d& h )
{
  const Eigen::Vector2d p = R2( t ).transpose() * ( c - x );
  const Eigen::Vector2d o( std::max( 0.0, std::fabs( p( 0 ) ) - h( 0 ) ), std::max( 0.0, std::fabs( p( 1 ) ) - h( 1 ) ) );
  return o.norm() - r;
}
void boxes()
{
  const double PI = std::acos( -1.0 );
  const std::vector<double> ang0 = { 0.0, 0.3, PI / 4.0, -1.2, 2.3, -2.9, PI / 2.0 };
  const std::vector<Eigen::Vector2d> dims = { { 1.0, 1.0 }, { 2.0, 0.5 }, { 0.5, 3.0 } };
  const double st = vp::thorough() ? 0.125 : 0.25;
  const int N = int( 4.0 / st );
  for( size_t a0 = 0; a0 < ang0.size(); ++a0 ) { for( size_t a1 = 0; a1 < ang0.size(); ++a1 ) { for( size_t d0 = 0; d0 < dims.size(); ++d0 ) { for( size_t d1 = 0; d1 < dims.size(); ++d1 )
  {
    vp::runCase( [&]{ return "box-box angles " + std::to_string( ang0[a0] ) + "," + std::to_string( ang0[a1] ) + " sizes " + std::to_string( d0 ) + "," + std::to_string( d1 ); },
    [&]{
      for( int i = -N; i <= N; ++i ) { for( int j = -N; j <= N; ++j )
      {
        Scene sc;
        Body A; A.kind = 'b'; A.x = vd( 1.0 + st * i, -2.0 + st * j ); A.rot[0] = ang0[a0]; A.dim = { { dims[d0]( 0 ), dims[d0]( 1 ), 0 } };
        Body B; B.kind = 'b'; B.x = vd( 1.0, -2.0 ); B.rot[0] = ang0[a1]; B.dim = { { dims[d1]( 0 ), dims[d1]( 1 ), 0 } };
        sc.b = { A, B };
        const double s = boxSep( A.x, A.rot[0], dims[d0], B.x, B.rot[0], dims[d1] );
        Expect want;
        // Boxes that cross each other deeply have no meaningful contact face (debug builds refuse some of them); not claimed
        if( s < -0.5 * std::min( dims[d0].minCoeff(), dims[d1].minCoeff() ) ) { vp::outcome( "boxes deeply crossing (skipped)" ); continue; }
        if( s < -1.0e-9 ) { need( want, 'b', 0, 1, 1, 2 ); } else if( s <= 1.0e-9 ) { maybe( want, 'b', 0, 1, 2 ); }
        Sim sim = build( sc );
        const VX q1 = q( sim );
        VX q0 = q1; q0( 0 ) += 0.125; q0( 4 ) -= 0.25;
        const Cons set = detect( sim, q0, q1, v( sim ) );
        compare( sc, q0, q1, hits( set ), want );
        vp::state( hash( q1, vp::hashStr( std::to_string( d0 ) + std::to_string( d1 ) ) ) );
      } }
    } );
  } } } }
  for( size_t a0 = 0; a0 < ang0.size(); ++a0 ) { for( size_t d0 = 0; d0 < dims.size(); ++d0 ) { for( int ri = 0; ri < 3; ++ri ) { for( int order = 0; order < 2; ++order ) { for( int fx = 0; fx < 2; ++fx )
  {
    vp::runCase( [&]{ return "circle-box angle " + std::to_string( ang0[a0] ) + " size " + std::to_string( d0 ) + " radius " + std::to_string( ri ) + " order " + std::to_string( order ) + " fixed box " + std::to_string( fx ); },
    [&]{
      for( int i = -N; i <= N; ++i ) { for( int j = -N; j <= N; ++j )
      {
        Scene sc;
        Body A; A.kind = 'b'; A.x = vd( -1.0, 0.5 ); A.rot[0] = ang0[a0]; A.dim = { { dims[d0]( 0 ), dims[d0]( 1 ), 0 } }; A.fixed = fx != 0;
        Body B; B.x = vd( -1.0 + st * i + 0.03125, 0.5 + st * j + 0.0625 ); B.dim[0] = ri == 0 ? 0.25 : ri == 1 ? 1.0 : 2.5;
        if( order ) { sc.b = { B, A }; } else { sc.b = { A, B }; }
        const double s = circleBoxSep( B.x, B.dim[0], A.x, A.rot[0], dims[d0] );
        Expect want;
        if( s < -1.0e-9 ) { need( want, 'b', 0, 1 ); } else if( s <= 1.0e-9 ) { maybe( want, 'b', 0, 1 ); }
        Sim sim = build( sc );
        const VX q1 = q( sim );
        VX q0 = q1; q0( order ? 0 : 3 ) += 0.25;
        compare( sc, q0, q1, hits( detect( sim, q0, q1, v( sim ) ) ), want );
        vp::state( hash( q1, vp::hashStr( std::to_string( d0 ) + std::to_string( ri ) ) ) );
      } }
    } );
  } } } } }
  // Box against planes: one contact per corner on or behind the plane
  for( size_t a0 = 0; a0 < ang0.size(); ++a0 ) { for( size_t d0 = 0; d0 < dims.size(); ++d0 ) { for( int pn = 0; pn < 8; ++pn )
  {
    vp::runCase( [&]{ return "box-planes angle " + std::to_string( ang0[a0] ) + " size " + std::to_string( d0 ) + " planes turned " + std::to_string( pn ); },
    [&]{
      for( int i = -N; i <= N; ++i ) { for( int j = -N; j <= N; ++j ) { for( int fx = 0; fx < 2; ++fx )
      {
        Scene sc;
        Body A; A.kind = 'b'; A.x = vd( st * i, st * j ); A.rot[0] = ang0[a0]; A.dim = { { dims[d0]( 0 ), dims[d0]( 1 ), 0 } }; A.fixed = fx != 0;
        Body B; B.x = vd( 40.0, 40.0 ); B.dim[0] = 0.5;
        sc.b = { B, A };
        for( int p = 0; p < 3; ++p ) { Plane P; P.n = unitAngle( ( pn + 3 * p ) * PI / 4.0 ); P.x = vd( 0.25, -0.5 ) - double( 1 + p ) * P.n; sc.planes.push_back( P ); }
        Expect want;
        for( int p = 0; p < 3; ++p )
        {
          int lo = 0, hi = 0;
          for( int c = 0; c < 4; ++c )
          {
            const Eigen::Vector2d corner = A.x + R2( A.rot[0] ) * Eigen::Vector2d( c & 1 ? dims[d0]( 0 ) : -dims[d0]( 0 ), c & 2 ? dims[d0]( 1 ) : -dims[d0]( 1 ) );
            const double g = sc.planes[p].n.dot( corner - sc.planes[p].x );
            if( g < -1.0e-9 ) { ++lo; ++hi; } else if( g <= 1.0e-9 ) { ++hi; }
          }
          if( hi && !fx ) { need( want, 'p', 1, p, lo, hi ); }
          const double gb = sc.planes[p].n.dot( B.x - sc.planes[p].x ) - B.dim[0];
          if( gb < -1.0e-9 ) { need( want, 'p', 0, p ); } else if( gb <= 1.0e-9 ) { maybe( want, 'p', 0, p ); }
        }
        Sim sim = build( sc );
        const VX q1 = q( sim );
        VX q0 = q1; q0( 3 ) += 5.0;
        compare( sc, q0, q1, hits( detect( sim, q0, q1, v( sim ) ) ), want );
        vp::state( hash( q1, vp::hashStr( std::to_string( d0 ) + "p" + std::to_string( pn ) ) ) );
      } } }
    } );
  } } }
}
#elif defined(SYS_RB3D)
double boxSep( const VD& xa, const Eigen::Matrix3d& A, const Eigen::Vector3d& ha, const VD& xb, const Eigen::Matrix3d& B, const Eigen::Vector3d& hb )
{
  double best = -1.0e300;
  auto test = [&]( Eigen::Vector3d n )
  {
    const double l = n.norm();
    if( l < 1.0e-6 ) { return; }
    n /= l;
    double w = 0.0;
    for( int c = 0; c < 3; ++c ) { w += ha( c ) * std::fabs( n.dot( A.col( c ) ) ) + hb( c ) * std::fabs( n.dot( B.col( c ) ) ); }
    best = std::max( best, std::fabs( n.dot( xa - xb ) ) - w );
  };
  for( int k = 0; k < 3; ++k ) { test( A.col( k ) ); test( B.col( k ) ); for( int l = 0; l < 3; ++l ) { test( A.col( k ).cross( B.col( l ) ) ); } }
  return best;
}
void boxes()
{
  const std::vector<std::array<double,3>> rots = { { { 0, 0, 0 } }, { { 0.4, 0, 0 } }, { { 0, 0.785398163397448, 0 } }, { { 0.3, -0.5, 0.7 } }, { { 0, 0, 1.57079632679489662 } }, { { 1.9, 1.5, -0.4 } } };
  const std::vector<std::array<double,3>> dims = { { { 1, 1, 1 } }, { { 2, 0.5, 1 } }, { { 0.5, 0.75, 2.5 } } };
  const double st = vp::thorough() ? 0.5 : 1.0;
  const int N = int( 4.0 / st );
  for( size_t r0 = 0; r0 < rots.size(); ++r0 ) { for( size_t r1 = 0; r1 < rots.size(); ++r1 ) { for( size_t d0 = 0; d0 < dims.size(); ++d0 ) { for( size_t d1 = 0; d1 < dims.size(); ++d1 )
  {
    vp::runCase( [&]{ return "box-box rotations " + std::to_string( r0 ) + "," + std::to_string( r1 ) + " sizes " + std::to_string( d0 ) + "," + std::to_string( d1 ); },
    [&]{
      for( int i = -N; i <= N; ++i ) { for( int j = -N; j <= N; ++j ) { for( int k = -N; k <= N; ++k )
      {
        Scene sc;
        Body A; A.kind = 'b'; A.x = vd( 1.0 + st * i, -2.0 + st * j, 0.5 + st * k + 0.0625 ); A.rot = rots[r0]; A.dim = dims[d0];
        Body B; B.kind = 'b'; B.x = vd( 1.0, -2.0, 0.5 ); B.rot = rots[r1]; B.dim = dims[d1];
        const int f = ( i + j + k + 300 ) % 4;
        if( f == 1 ) { A.fixed = true; } if( f == 3 ) { B.fixed = true; }
        sc.b = { A, B };
        const Eigen::Vector3d ha( dims[d0][0], dims[d0][1], dims[d0][2] ), hb( dims[d1][0], dims[d1][1], dims[d1][2] );
        const double s = boxSep( A.x, rotation( A.rot ), ha, B.x, rotation( B.rot ), hb );
        Expect want;
        // Merely touching boxes trip assertions of the (ODE-derived) face clipping; not claimed
        if( std::fabs( s ) <= 1.0e-6 ) { vp::outcome( "boxes exactly touching (skipped)" ); continue; }
        if( s < 0.0 ) { need( want, 'b', 0, 1, 1, 16 ); }
        Sim sim = build( sc );
        const VX q1 = q( sim );
        VX q0 = q1; if( !A.fixed ) { q0( 0 ) += 0.125; } if( !B.fixed ) { q0( 4 ) -= 0.25; }
        compare( sc, q0, q1, hits( detect( sim, q0, q1, v( sim ) ) ), want );
        vp::state( hash( q1, vp::hashStr( std::to_string( d0 ) + std::to_string( d1 ) ) ) );
      } } }
    } );
  } } } }
  const std::vector<Eigen::Vector3d> ns = { { 1, 0, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 1, 2, -1 }, { -3, 1, 1 } };
  for( size_t r0 = 0; r0 < rots.size(); ++r0 ) { for( size_t d0 = 0; d0 < dims.size(); ++d0 ) { for( size_t n0 = 0; n0 < ns.size(); ++n0 )
  {
    vp::runCase( [&]{ return "box-planes rotation " + std::to_string( r0 ) + " size " + std::to_string( d0 ) + " normal " + std::to_string( n0 ); },
    [&]{
      for( int i = -N; i <= N; ++i ) { for( int j = -N; j <= N; ++j ) { for( int fx = 0; fx < 2; ++fx )
      {
        Scene sc;
        Body A; A.kind = 'b'; A.x = vd( st * i, st * j, 0.25 * i - 0.125 ); A.rot = rots[r0]; A.dim = dims[d0]; A.fixed = fx != 0;
        Body B; B.x = vd( 40.0, 40.0, 40.0 ); B.dim[0] = 0.5;
        sc.b = { B, A };
        for( int p = 0; p < 2; ++p ) { Plane P; P.n = ns[ ( n0 + 2 * p ) % ns.size() ].normalized(); P.x = vd( 0.25, -0.5, 0.125 ) - double( p ) * P.n; sc.planes.push_back( P ); }
        Expect want;
        for( int p = 0; p < 2; ++p )
        {
          int lo = 0, hi = 0;
          for( int c = 0; c < 8; ++c )
          {
            const Eigen::Vector3d corner = A.x + rotation( A.rot ) * Eigen::Vector3d( c & 1 ? A.dim[0] : -A.dim[0], c & 2 ? A.dim[1] : -A.dim[1], c & 4 ? A.dim[2] : -A.dim[2] );
            const double g = sc.planes[p].n.dot( corner - sc.planes[p].x );
            if( g < -1.0e-9 ) { ++lo; ++hi; } else if( g <= 1.0e-9 ) { ++hi; }
          }
          if( hi && !fx ) { need( want, 'p', 1, p, lo, hi ); }
          const double gb = sc.planes[p].n.dot( B.x - sc.planes[p].x ) - B.dim[0];
          if( gb < -1.0e-9 ) { need( want, 'p', 0, p ); } else if( gb <= 1.0e-9 ) { maybe( want, 'p', 0, p ); }
        }
        Sim sim = build( sc );
        const VX q1 = q( sim );
        VX q0 = q1; if( !fx ) { q0( 3 ) += 5.0; }
        compare( sc, q0, q1, hits( detect( sim, q0, q1, v( sim ) ) ), want );
        vp::state( hash( q1, vp::hashStr( std::to_string( d0 ) + "p" + std::to_string( n0 ) ) ) );
      } } }
    } );
  } } }
}
// Meshes: one contact per surface sample inside the other mesh, per hull corner behind a plane or outside a cylinder
void meshes()
{
  const std::vector<std::array<double,3>> rots = { { { 0, 0, 0 } }, { { 0.4, 0, 0 } }, { { 0.3, -0.5, 0.7 } }, { { 0, 0, 1.57079632679489662 } }, { { 1.9, 1.5, -0.7 } } };
  const std::vector<std::array<double,3>> dims = { { { 1, 1, 1 } }, { { 2, 1, 0.5 } }, { { 2.5, 0.75, 0.5 } } };
  const double st = vp::thorough() ? 0.5 : 1.0;
  const int N = int( 4.0 / st );
  auto inside = []( const Body& S, const Body& F, int& lo, int& hi )
  {
    for( const auto& m : meshSamples( S.dim ) )
    {
      const double g = boxDistance( F.dim, rotation( F.rot ).transpose() * ( S.x + rotation( S.rot ) * m - F.x ) );
      if( g < -1.0e-9 ) { ++lo; } if( g <= 1.0e-9 ) { ++hi; }
    }
  };
  // Samples exactly where the interpolated distance has no gradient (edges and medial edges): the real code aborts (known finding)
  auto onEdge = []( const Body& S, const Body& F )
  {
    for( const auto& m : meshSamples( S.dim ) )
    {
      const Eigen::Vector3d l = rotation( F.rot ).transpose() * ( S.x + rotation( S.rot ) * m - F.x );
      if( boxDistance( F.dim, l ) > 1.0e-6 ) { continue; }
      for( int c = 0; c < 8; ++c )
      {
        Eigen::Vector3d g; bool clear;
        meshField( F.dim, l + 1.0e-8 * Eigen::Vector3d( c & 1 ? 1 : -1, c & 2 ? 1 : -1, c & 4 ? 1 : -1 ), g, clear );
        if( g.norm() < 1.0e-6 ) { return true; }
      }
    }
    return false;
  };
  for( size_t r0 = 0; r0 < rots.size(); ++r0 ) { for( size_t r1 = 0; r1 < rots.size(); ++r1 ) { for( size_t d0 = 0; d0 < dims.size(); ++d0 ) { for( size_t d1 = 0; d1 < dims.size(); ++d1 ) { for( int off = 0; off < 2; ++off )
  {
    vp::runCase( [&]{ return "mesh-mesh rotations " + std::to_string( r0 ) + "," + std::to_string( r1 ) + " sizes " + std::to_string( d0 ) + "," + std::to_string( d1 ) + ( off ? " off the lattice" : "" ); },
    [&]{
      for( int i = -N; i <= N; ++i ) { for( int j = -N; j <= N; ++j ) { for( int k = -N; k <= N; ++k )
      {
        Scene sc;
        Body A; A.kind = 'm'; A.x = vd( 1.0 + st * i, -2.0 + st * j, 0.5 + st * k ); if( off ) { A.x += vd( 0.03, 0.01, 0.0625 ); } A.rot = rots[r0]; A.dim = dims[d0];
        Body B; B.kind = 'm'; B.x = vd( 1.0, -2.0, 0.5 ); B.rot = rots[r1]; B.dim = dims[d1];
        const int f = ( i + j + k + 300 ) % 4;
        if( f == 1 ) { A.fixed = true; } if( f == 3 ) { B.fixed = true; }
        sc.b = { A, B };
        if( ( j + 2 * k + 300 ) % 3 == 0 ) { Body C = A; C.fixed = false; C.x = vd( 50, 50, 50 ); sc.b.insert( sc.b.begin() + 1, C ); }
        const int last = int( sc.b.size() ) - 1;
        if( onEdge( A, B ) || onEdge( B, A ) ) { vp::outcome( "mesh sample exactly on an edge (known finding)" ); continue; }
        int lo = 0, hi = 0; inside( A, B, lo, hi ); inside( B, A, lo, hi );
        Expect want; if( hi ) { need( want, 'b', 0, last, lo, hi ); }
        Sim sim = build( sc );
        const VX q1 = q( sim );
        VX q0 = q1; if( !A.fixed ) { q0( 0 ) += 0.125; } if( !B.fixed ) { q0( 3 * last + 1 ) -= 0.25; }
        compare( sc, q0, q1, hits( detect( sim, q0, q1, v( sim ) ) ), want );
        vp::state( hash( q1, vp::hashStr( std::to_string( d0 ) + "m" + std::to_string( d1 ) ) ) );
      } } }
    } );
  } } } } }
  const std::vector<Eigen::Vector3d> ns = { { 1, 0, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 1, 2, -1 }, { -3, 1, 1 } };
  for( size_t r0 = 0; r0 < rots.size(); ++r0 ) { for( size_t d0 = 0; d0 < dims.size(); ++d0 ) { for( size_t n0 = 0; n0 < ns.size(); ++n0 ) { for( int cyl = 0; cyl < 4; ++cyl )
  {
    vp::runCase( [&]{ return std::string( cyl ? "mesh-cylinder" : "mesh-planes" ) + " rotation " + std::to_string( r0 ) + " size " + std::to_string( d0 ) + " normal " + std::to_string( n0 ) + " radius " + std::to_string( cyl ); },
    [&]{
      for( int i = -N; i <= N; ++i ) { for( int j = -N; j <= N; ++j ) { for( int fx = 0; fx < 2; ++fx )
      {
        Scene sc;
        Body A; A.kind = 'm'; A.x = vd( st * i, st * j, 0.25 * i - 0.125 ); A.rot = rots[r0]; A.dim = dims[d0]; A.fixed = fx != 0;
        Body B = A; B.fixed = true; B.x = vd( 40.0, 40.0, 40.0 );
        sc.b = { B, A };
        std::vector<Eigen::Vector3d> cs; for( int c = 0; c < 8; ++c ) { cs.push_back( A.x + rotation( A.rot ) * Eigen::Vector3d( c & 1 ? A.dim[0] : -A.dim[0], c & 2 ? A.dim[1] : -A.dim[1], c & 4 ? A.dim[2] : -A.dim[2] ) ); }
        std::map<std::pair<char,int>,std::pair<int,int>> e;
        if( cyl ) { Round R; R.axis = ns[n0].normalized(); R.x = vd( 0.25, -0.5, 0.125 ); R.r = 0.75 * cyl * cyl; sc.rounds.push_back( R ); }
        else { for( int p = 0; p < 2; ++p ) { Plane P; P.n = ns[ ( n0 + 2 * p ) % ns.size() ].normalized(); P.x = vd( 0.25, -0.5, 0.125 ) - double( p ) * P.n; sc.planes.push_back( P ); } }
        for( const auto& c : cs )
        {
          for( int p = 0; p < int( sc.planes.size() ); ++p ) { const double g = sc.planes[size_t( p )].n.dot( c - sc.planes[size_t( p )].x ); auto& x = e[ { 'p', p } ]; if( g < -1.0e-9 ) { ++x.first; } if( g <= 1.0e-9 ) { ++x.second; } }
          for( const Round& R : sc.rounds ) { Eigen::Vector3d d = c - R.x; d -= R.axis.dot( d ) * R.axis; const double g = R.r - d.norm(); auto& x = e[ { 'r', 0 } ]; if( g < -1.0e-9 ) { ++x.first; } if( g <= 1.0e-9 ) { ++x.second; } }
        }
        Sim sim = build( sc );
        const VX q1 = q( sim );
        VX q0 = q1; if( !fx ) { q0( 3 ) += 5.0; }
        if( cyl )
        {
          const Cons set = detect( sim, q0, q1, v( sim ) ); vp::transition();
          const auto x = fx ? std::make_pair( 0, 0 ) : e[ { 'r', 0 } ];
          int n = 0;
          for( const auto& c : set ) { std::pair<int,int> b; c->getSimulatedBodyIndices( b ); VP_CHECK( c->name() == "static_cylinder_body" && b.first == 1 && b.second == -1, "unexpected contact " << c->name() << " of body " << b.first << "; " << show( sc ) ); ++n; }
          VP_CHECK( n >= x.first && n <= x.second, n << " corners reported to touch the cylinder, expected " << x.first << ".." << x.second << "; " << show( sc ) );
          vp::outcome( n ? "mesh touches cylinder" : "mesh clear of cylinder" );
        }
        else
        {
          Expect want; for( const auto& x : e ) { if( x.second.second && !fx ) { need( want, 'p', 1, x.first.second, x.second.first, x.second.second ); } }
          compare( sc, q0, q1, hits( detect( sim, q0, q1, v( sim ) ) ), want );
        }
        vp::state( hash( q1, vp::hashStr( std::to_string( d0 ) + "mp" + std::to_string( n0 ) + std::to_string( cyl ) ) ) );
      } } }
    } );
  } } } }
}
double pointSegment( const Eigen::Vector3d& p, const Eigen::Vector3d& a, const Eigen::Vector3d& b )
{
  const Eigen::Vector3d d = b - a;
  return ( p - a - std::min( 1.0, std::max( 0.0, d.dot( p - a ) / d.squaredNorm() ) ) * d ).norm();
}
// The smallest distance is attained at an end of one segment or inside both
double segmentSegment( const Eigen::Vector3d& a, const Eigen::Vector3d& b, const Eigen::Vector3d& c, const Eigen::Vector3d& d )
{
  double r = std::min( std::min( pointSegment( a, c, d ), pointSegment( b, c, d ) ), std::min( pointSegment( c, a, b ), pointSegment( d, a, b ) ) );
  const Eigen::Vector3d n = ( b - a ).cross( d - c );
  if( n.squaredNorm() > 1.0e-18 )
  {
    Eigen::Matrix3d A; A.col( 0 ) = b - a; A.col( 1 ) = c - d; A.col( 2 ) = n;
    const Eigen::Vector3d x = A.inverse() * ( c - a );
    if( x( 0 ) >= 0.0 && x( 0 ) <= 1.0 && x( 1 ) >= 0.0 && x( 1 ) <= 1.0 ) { r = std::min( r, std::abs( x( 2 ) ) * n.norm() ); }
  }
  return r;
}
// Staples: three rods of round cross-section. Contacts between them are not supported: clear staples must give none, touching
// ones must be refused rather than pass through each other.
void staples()
{
  const std::vector<std::array<double,3>> rots = { { { 0, 0, 0 } }, { { 0.4, 0, 0 } }, { { 0.3, -0.5, 0.7 } }, { { 0, 0, 1.57079632679489662 } }, { { 1.9, 1.5, -0.7 } } };
  const std::vector<std::array<double,3>> dims = { { { 2.0, 1.5, 0.5 } }, { { 1.0, 3.0, 0.25 } } };
  const double st = vp::thorough() ? 0.4 : 0.8;
  const int N = int( 3.2 / st );
  auto corners = []( const Body& b )
  {
    const double W = b.dim[0] - b.dim[2], L = b.dim[1] - b.dim[2], y = L * L / ( 2.0 * L + W );
    std::vector<Eigen::Vector3d> c = { { -0.5 * W, L - y, 0 }, { -0.5 * W, -y, 0 }, { 0.5 * W, -y, 0 }, { 0.5 * W, L - y, 0 } };
    for( Eigen::Vector3d& x : c ) { x = b.x + rotation( b.rot ) * x; }
    return c;
  };
  for( size_t r0 = 0; r0 < rots.size(); ++r0 ) { for( size_t r1 = 0; r1 < rots.size(); ++r1 ) { for( size_t dd = 0; dd < 3; ++dd )
  {
    vp::runCase( [&]{ return "staples rotations " + std::to_string( r0 ) + "," + std::to_string( r1 ) + " sizes " + std::to_string( dd ); },
    [&]{
      for( int i = -N; i <= N; ++i ) { for( int j = -N; j <= N; ++j ) { for( int k = -N; k <= N; ++k )
      {
        Scene sc;
        Body A; A.kind = 's'; A.x = vd( 1.0 + st * i, -2.0 + st * j, 0.5 + st * k ); A.rot = rots[r0]; A.dim = dims[dd == 1];
        Body B; B.kind = 's'; B.x = vd( 1.0, -2.0, 0.5 ); B.rot = rots[r1]; B.dim = dims[dd != 0];
        sc.b = { A, B };
        const auto ca = corners( A ), cb = corners( B );
        double g = 1.0e9;
        for( size_t a = 0; a < 3; ++a ) { for( size_t b = 0; b < 3; ++b ) { g = std::min( g, segmentSegment( ca[a], ca[a+1], cb[b], cb[b+1] ) ); } }
        g -= 0.5 * ( A.dim[2] + B.dim[2] );
        if( std::abs( g ) < 1.0e-9 ) { continue; }
        Sim sim = build( sc );
        const VX qq = q( sim );
        vp::note( "displacement " + std::to_string( i ) + " " + std::to_string( j ) + " " + std::to_string( k ) + ( g > 0.0 ? " (clear)" : " (touching)" ) );
        if( g > 0.0 ) { VP_CHECK( detect( sim, qq, qq, v( sim ) ).empty(), "staples " << g << " apart are reported in contact; " << show( sc ) ); vp::outcome( "staples clear" ); }
        else { VP_CHECK( vp::forked( [&]{ detect( sim, qq, qq, v( sim ) ); } ) != 0, "overlapping staples (" << g << ") are neither reported nor refused; " << show( sc ) ); vp::outcome( "staples refused" ); }
        vp::transition();
        vp::state( hash( qq, vp::hashStr( std::to_string( dd ) + "staple" ) ) );
      } } }
    } );
  } } }
}
// Closest points of two segments (also degenerate and parallel ones), and of a box and a ball
void closest()
{
  const auto at = []( int c, double s ) { return Eigen::Vector3d( s * ( c % 3 ), s * ( ( c / 3 ) % 3 ), s * ( c / 9 ) ); };
  for( int a = 0; a < 27; ++a ) { for( int b = 0; b < 27; ++b ) { for( double s : { 1.0, 0.3 } )
  {
    vp::runCase( [&]{ return "segment " + std::to_string( a ) + "-" + std::to_string( b ) + " scale " + std::to_string( s ) + " against every segment"; }, [&]
    {
      const Vector3s p1 = at( a, s ), q1 = at( b, s );
      for( int c = 0; c < 27; ++c ) { for( int d = 0; d < 27; ++d )
      {
        const Vector3s p2 = at( c, s ), q2 = at( d, s );
        scalar u = -7.0, t = -7.0; Vector3s c1 = Vector3s::Constant( 9.0 ), c2 = c1;
        const double dd = CollisionUtilities::closestPointSegmentSegment( p1, q1, p2, q2, u, t, c1, c2 );
        double best = 1.0e300;
        const auto point = [&]( const Vector3s& x, const Vector3s& e, const Vector3s& f ) { const double l = ( f - e ).squaredNorm(); const double w = l > 0.0 ? std::max( 0.0, std::min( 1.0, ( x - e ).dot( f - e ) / l ) ) : 0.0; best = std::min( best, ( e + w * ( f - e ) - x ).squaredNorm() ); };
        point( p1, p2, q2 ); point( q1, p2, q2 ); point( p2, p1, q1 ); point( q2, p1, q1 );
        const Vector3s d1 = q1 - p1, d2 = q2 - p2, x = d1.cross( d2 );
        if( x.squaredNorm() > 1.0e-12 )
        {
          const double w1 = ( p2 - p1 ).cross( d2 ).dot( x ) / x.squaredNorm(), w2 = ( p2 - p1 ).cross( d1 ).dot( x ) / x.squaredNorm();
          if( w1 >= 0.0 && w1 <= 1.0 && w2 >= 0.0 && w2 <= 1.0 ) { best = std::min( best, ( p1 + w1 * d1 - p2 - w2 * d2 ).squaredNorm() ); }
        }
        VP_CHECK( std::fabs( dd - best ) <= 1.0e-9 && u >= 0.0 && u <= 1.0 && t >= 0.0 && t <= 1.0 && ( c1 - p1 - u * d1 ).norm() <= 1.0e-9 && ( c2 - p2 - t * d2 ).norm() <= 1.0e-9 && std::fabs( ( c1 - c2 ).squaredNorm() - dd ) <= 1.0e-9,
                  "squared distance " << dd << " at " << u << "," << t << " (" << vp::vstr( c1 ) << ", " << vp::vstr( c2 ) << "), exact " << best << " for " << vp::vstr( p1 ) << "-" << vp::vstr( q1 ) << " and " << vp::vstr( p2 ) << "-" << vp::vstr( q2 ) );
        vp::transition();
      } }
    } );
  } } }
  for( int r = 0; r < 4; ++r ) { for( int w = 0; w < 3; ++w ) { for( double rad : { 0.3, 1.0, 2.0 } )
  {
    vp::runCase( [&]{ return "box " + std::to_string( w ) + " in rotation " + std::to_string( r ) + " and balls of radius " + std::to_string( rad ); }, [&]
    {
      const std::array<double,3> rv = r == 0 ? std::array<double,3>{ { 0, 0, 0 } } : r == 1 ? std::array<double,3>{ { 0.4, 0, 0 } } : r == 2 ? std::array<double,3>{ { 0.3, -0.5, 0.7 } } : std::array<double,3>{ { 1.9, 1.5, -0.7 } };
      const Matrix33sc R = rotation( rv ); const Vector3s wb = w == 0 ? Vector3s( 1, 1, 1 ) : w == 1 ? Vector3s( 2, 0.5, 1 ) : Vector3s( 0.25, 1.5, 0.75 ), xb( 0.5, -1.0, 2.0 );
      for( int i = -6; i <= 6; ++i ) { for( int j = -6; j <= 6; ++j ) { for( int k = -6; k <= 6; ++k )
      {
        const Vector3s xs = xb + 0.53 * Vector3s( i, j, k );
        const Vector3s l = R.transpose() * ( xs - xb ); Vector3s near; for( int a = 0; a < 3; ++a ) { near( a ) = std::max( -wb( a ), std::min( wb( a ), l( a ) ) ); }
        const double dist = ( l - near ).norm();
        if( dist < 1.0e-4 || std::fabs( dist - rad ) < 1.0e-9 ) { continue; }
        std::vector<Vector3s> P, N; CollisionUtilities::computeBoxSphereActiveSet( xb, R, wb, xs, rad, P, N );
        VP_CHECK( P.size() == ( dist < rad ? 1u : 0u ) && N.size() == P.size(), P.size() << " contacts at distance " << dist << ", radius " << rad );
        if( P.size() ) { VP_CHECK( ( P[0] - xb - R * near ).norm() <= 1.0e-9 && ( N[0] - R * ( near - l ) / dist ).norm() <= 1.0e-9, "contact at " << vp::vstr( P[0] ) << " with normal " << vp::vstr( N[0] ) << ", expected " << vp::vstr( Vector3s( xb + R * near ) ) << " with " << vp::vstr( Vector3s( R * ( near - l ) / dist ) ) ); }
        vp::transition();
      } } }
    } );
  } } }
}
#else
void boxes() {}
#endif
#if !defined(SYS_RB3D)
void closest() {}
void staples() {}
void meshes() {}
#endif

// Every kind of contact with shapes that miss or overlap each other by very little
double reach( const Body& b, const VD& n )
{
  if( b.kind == 'c' ) { return b.dim[0]; }
  double w = 0.0;
#if defined(SYS_RB3D)
  for( int k = 0; k < 3; ++k ) { w += b.dim[size_t( k )] * std::fabs( n.dot( VD( rotation( b.rot ).col( k ) ) ) ); }
#elif defined(SYS_RB2D)
  const VD ex = vd( std::cos( b.rot[0] ), std::sin( b.rot[0] ) ), ey = vd( -ex( 1 ), ex( 0 ) );
  w = b.dim[0] * std::fabs( n.dot( ex ) ) + b.dim[1] * std::fabs( n.dot( ey ) );
#else
  (void) n;
#endif
  return w;
}
void narrowly()
{
  std::vector<VD> dirs = { vd( 1, 0, 0 ), vd( 0, -1, 0 ), vd( 0.6, 0.8, 0 ), vd( -0.28, 0.96, 0 ) };
  if( D == 3 ) { dirs.push_back( vd( 0, 0, 1 ) ); dirs.push_back( vd( 2.0 / 3.0, -1.0 / 3.0, 2.0 / 3.0 ) ); dirs.push_back( vd( -0.48, 0.6, -0.64 ) ); }
  std::vector<std::string> kinds = { "balls", "ball on plane", "balls across a periodic boundary" };
  if( AD != 1 ) { kinds.push_back( "ball in drum" ); }
  if( AD ) { kinds.push_back( "box on plane" ); kinds.push_back( "boxes" ); kinds.push_back( "fixed balls" ); }
  if( AD == 1 ) { kinds.push_back( "disc on box face" ); kinds.push_back( "disc on box corner" ); }
  if( D == 3 ) { kinds.push_back( "mesh on plane" ); kinds.push_back( "meshes" ); kinds.push_back( "mesh in drum" ); kinds.push_back( "fixed boxes" ); }
  for( const std::string& kind : kinds ) { for( size_t di = 0; di < dirs.size(); ++di )
  {
    vp::runCase( [&]{ return kind + " narrowly along " + vp::vstr( dirs[di] ); }, [&]
    {
      for( double gap : { 1.0e-2, 1.0e-4, 1.0e-6, 1.0e-8, -1.0e-8, -1.0e-6, -1.0e-4, -1.0e-2 } ) { for( int size = 0; size < 3; ++size ) { for( int place = 0; place < 3; ++place )
      {
        const VD n = dirs[di], c = vd( 0.375, -0.25, 0.5 );
        const double s = size == 0 ? 1.0 : size == 1 ? 0.25 : 3.0;
        Body A, B; A.x = c; A.dim = { { s, s, s } }; B.dim = { { 1.0, 1.0, 1.0 } };
        Scene sc;
        bool two = true; char what = 'b';
        const bool mesh = kind.find( "mesh" ) != std::string::npos, box = kind.find( "box" ) != std::string::npos || mesh;
        const std::array<double,3> turn = D == 3 ? std::array<double,3>{ { 0.7, -0.4, 0.5 } } : std::array<double,3>{ { 0.55, 0, 0 } };
        if( box ) { A.kind = mesh ? 'm' : 'b'; A.dim = { { 1.5 * s, s, D == 3 ? 0.75 * s : 1.0 } }; A.rot = turn; }
        if( kind == "balls" || kind == "fixed balls" ) { B.x = c + ( s + 1.0 + gap ) * n; B.fixed = kind == "fixed balls"; }
        else if( kind == "balls across a periodic boundary" )
        {
          // Upright domains only: the direction picks the axis
          int k = 0; n.cwiseAbs().maxCoeff( &k );
          Portal p; p.xa = -12.0 * VD::Unit( k ); p.na = VD::Unit( k ); p.xb = 12.0 * VD::Unit( k ); p.nb = -VD::Unit( k ); sc.portals.push_back( p );
          A.x = c; A.x( k ) = 12.0 - 0.5 * s; B.x = A.x; B.x( k ) = -12.0 - 0.5 * s + s + 1.0 + gap;
          if( B.x( k ) < -12.0 ) { continue; }
        }
        else if( kind == "boxes" || kind == "meshes" || kind == "fixed boxes" )
        {
          // A corner of B against the middle of a face of A
          B.kind = A.kind; B.dim = { { 1.25, 1.0, D == 3 ? 0.5 : 1.0 } };
          B.rot = D == 3 ? std::array<double,3>{ { -0.9, 0.8, 0.35 + 0.01 * double( di ) } } : std::array<double,3>{ { 1.3 + 0.1 * double( di ), 0, 0 } };
          B.fixed = kind == "fixed boxes";
          VD f = VD::Zero();
#if defined(SYS_RB3D)
          f = VD( ( di % 2 ? -1.0 : 1.0 ) * rotation( A.rot ).col( int( di ) % 3 ) );
#elif defined(SYS_RB2D)
          f = di % 2 ? vd( std::cos( A.rot[0] ), std::sin( A.rot[0] ) ) : vd( std::sin( A.rot[0] ), -std::cos( A.rot[0] ) );
#endif
          // The corner of B that is lowest along the face's normal goes over the face's middle
          VD low = VD::Zero(); double best = 1.0e300;
          for( int k = 0; k < ( 1 << D ); ++k )
          {
            VD l = VD::Zero(); for( int a = 0; a < D; ++a ) { l( a ) = ( ( k >> a ) & 1 ? -1.0 : 1.0 ) * B.dim[size_t( a )]; }
#if defined(SYS_RB3D)
            l = VD( rotation( B.rot ) * l );
#elif defined(SYS_RB2D)
            l = vd( std::cos( B.rot[0] ) * l( 0 ) - std::sin( B.rot[0] ) * l( 1 ), std::sin( B.rot[0] ) * l( 0 ) + std::cos( B.rot[0] ) * l( 1 ) );
#endif
            if( f.dot( l ) < best ) { best = f.dot( l ); low = l; }
          }
          B.x = c + ( reach( A, f ) + gap ) * f - low;
        }
        else if( kind == "disc on box face" || kind == "disc on box corner" )
        {
          const VD ex = vd( std::cos( A.rot[0] ), std::sin( A.rot[0] ) ), ey = vd( -ex( 1 ), ex( 0 ) );
          if( kind == "disc on box face" ) { const VD f = di % 2 ? ex : VD( -ey ); B.x = c + ( reach( A, f ) + 1.0 + gap ) * f + 0.25 * s * VD( di % 2 ? ey : ex ); }
          else { const double a = A.rot[0] + 0.2 + 0.3 * double( di ); B.x = c + A.dim[0] * ex + A.dim[1] * ey + ( 1.0 + gap ) * vd( std::cos( a ), std::sin( a ) ); }
        }
        else if( kind == "ball in drum" )
        {
          two = false; what = 'r';
          Round r; r.x = c; r.r = 9.0;
          VD out = n;
          if( D == 3 ) { r.axis = dirs[( di + 1 ) % dirs.size()]; out = n - r.axis.dot( n ) * r.axis; if( out.norm() < 0.1 ) { continue; } out = VD( out / out.norm() ); A.x = c + 0.75 * r.axis; }
          A.x += ( r.r - s - gap ) * out;
          sc.rounds.push_back( r );
        }
        else if( kind == "mesh in drum" )
        {
          two = false; what = 'r';
          Round r; r.x = c; r.r = 9.0; r.axis = dirs[( di + 1 ) % dirs.size()];
          VD out = n - r.axis.dot( n ) * r.axis; if( out.norm() < 0.1 ) { continue; } out = VD( out / out.norm() );
#if defined(SYS_RB3D)
          auto far = [&]( double t )
          {
            double m = 0.0;
            for( int k = 0; k < 8; ++k ) { const Eigen::Vector3d x = t * out + rotation( A.rot ) * Eigen::Vector3d( ( k & 1 ? -1 : 1 ) * A.dim[0], ( k & 2 ? -1 : 1 ) * A.dim[1], ( k & 4 ? -1 : 1 ) * A.dim[2] ); m = std::max( m, ( x - r.axis.dot( x ) * r.axis ).norm() ); }
            return m;
          };
          double lo = 0.0, hi = r.r;
          for( int k = 0; k < 100; ++k ) { const double mid = 0.5 * ( lo + hi ); ( far( mid ) < r.r - gap ? lo : hi ) = mid; }
          A.x = c + lo * out + 0.5 * r.axis;
#endif
          sc.rounds.push_back( r );
        }
        else   // on a plane
        {
          two = false; what = 'p';
          Plane pl; pl.x = c; pl.n = n; sc.planes.push_back( pl );
          A.x = c + ( reach( A, n ) + gap ) * n; A.x += 0.5 * ( dirs[( di + 1 ) % dirs.size()] - n.dot( dirs[( di + 1 ) % dirs.size()] ) * n );
        }
        std::vector<Body> order;
        // A bystander at rest far from everything, first or in between
        Body by = A; by.fixed = false; by.kind = mesh ? 'm' : 'c'; by.dim = mesh ? A.dim : std::array<double,3>{ { 0.125, 0.125, 0.125 } };
        by.x = sc.rounds.empty() ? VD( c + 40.0 * n ) : VD( c - 7.0 * n );
        if( !sc.portals.empty() ) { by.x = vd( 5.0, 5.0, 5.0 ); }
        if( !sc.rounds.empty() && D == 3 ) { by.x = sc.rounds[0].x + 30.0 * sc.rounds[0].axis; }
        if( place == 1 ) { order.push_back( by ); }
        order.push_back( A );
        if( place == 2 ) { order.push_back( by ); }
        if( two ) { order.push_back( B ); }
        sc.b = order;
        const int a = place == 1 ? 1 : 0, b = place == 0 ? 1 : 2;
        Sim sim = build( sc );
        Expect want;
        if( gap < 0.0 ) { need( want, what, a, two ? b : 0, 1, gap == -1.0e-2 ? 99 : what == 'b' && D == 3 ? 99 : what == 'b' ? 2 : 1 ); }
        const VX qq = q( sim );
        const Cons set = detect( sim, qq, qq, v( sim ) );
        if( kind == "mesh in drum" )
        {
          vp::transition();
          VP_CHECK( int( set.size() ) >= ( gap < 0.0 ? 1 : 0 ) && ( gap < 0.0 || set.empty() ), set.size() << " contacts at a gap of " << gap << "; scene " << show( sc ) );
          for( const auto& e : set ) { std::pair<int,int> who; e->getSimulatedBodyIndices( who ); VP_CHECK( who.first == a, "contact of body " << who.first << " instead of " << a << "; scene " << show( sc ) ); }
        }
        else { compare( sc, qq, qq, hits( set ), want ); }
        vp::outcome( kind + ( gap < 0.0 ? " just touching" : " just apart" ) );
      } } }
    } );
  } }
}
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  pairs();
  several();
  boundaries();
  periodic();
  boxes();
  meshes();
  staples();
  closest();
  narrowly();
  return vp::finish();
}
