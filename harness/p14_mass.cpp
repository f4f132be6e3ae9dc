#include <map>
// P14: mass properties against independently computed integrals.
#include "sys.h"
#if defined(SYS_RB3D)
#include "rigidbody3d/Geometry/MomentTools.h"
#endif
using namespace sys;

static const double PIV = 3.14159265358979323846;
static bool near( double a, double b, double tol = 1.0e-10 ) { return std::abs( a - b ) <= tol * std::max( 1.0, std::max( std::abs( a ), std::abs( b ) ) ); }
template<typename A, typename B> static bool nearAll( const A& a, const B& b, double tol = 1.0e-10 )
{
  const MX x = a, y = b;
  if( x.rows() != y.rows() || x.cols() != y.cols() ) { return false; }
  double s = 1.0;
  if( x.size() ) { s = std::max( s, std::max( x.cwiseAbs().maxCoeff(), y.cwiseAbs().maxCoeff() ) ); }
  for( int i = 0; i < x.size(); ++i ) { if( !( std::abs( x( i ) - y( i ) ) <= tol * s ) ) { return false; } }
  return true;
}
// Relative comparison for positive quantities of any magnitude
static bool rel( double a, double b, double tol = 1.0e-10 ) { return std::abs( a - b ) <= tol * std::max( std::abs( a ), std::abs( b ) ); }

#if defined(SYS_RB2D)
static void shapes2d()
{
  const double sizes[] = { 0.01, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 7.0, 100.0 };
  const double dens[] = { 0.001, 0.5, 1.0, 2.5, 7800.0 };
  const double angles[] = { 0, 0.25 * PIV, 0.5 * PIV, PIV, -0.5 * PIV, 0.3, 1.0, 2.0, -2.5, 4.0, 6.0, 30.0 };
  const double xs[] = { -100.0, -1.5, 0.0, 0.25, 3.0 };
  for( double a : sizes ) { for( double b : sizes ) { for( double rho : dens )
  {
    vp::runCase( [&] { std::ostringstream o; o << "2D shapes " << a << " x " << b << " density " << rho; return o.str(); }, [&]
    {
      vp::transition();
      scalar m = -1, I = -1;
      const BoxGeometry box( Vector2s( a, b ) );
      box.computeMassAndInertia( rho, m, I );
      const double w = 2 * a, h = 2 * b;
      VP_CHECK( rel( m, rho * w * h ) && rel( I, rho * w * h * ( w * w + h * h ) / 12.0 ), "box mass " << m << " moment " << I );
      const CircleGeometry disc( a );
      disc.computeMassAndInertia( rho, m, I );
      VP_CHECK( rel( m, rho * PIV * a * a ) && rel( I, rho * PIV * a * a * a * a / 2.0 ), "disc mass " << m << " moment " << I );
      for( double t : angles ) { for( double x : xs ) { for( double y : xs )
      {
        double lx = 1e300, hx = -1e300, ly = 1e300, hy = -1e300;
        for( int s = 0; s < 4; ++s )
        {
          const double px = ( s & 1 ) ? a : -a, py = ( s & 2 ) ? b : -b;
          const double X = x + std::cos( t ) * px - std::sin( t ) * py, Y = y + std::sin( t ) * px + std::cos( t ) * py;
          lx = std::min( lx, X ); hx = std::max( hx, X ); ly = std::min( ly, Y ); hy = std::max( hy, Y );
        }
        Array2s lo, hi;
        box.computeAABB( Vector2s( x, y ), t, lo, hi );
        VP_CHECK( near( lo( 0 ), lx ) && near( hi( 0 ), hx ) && near( lo( 1 ), ly ) && near( hi( 1 ), hy ), "bounding box of a box at " << x << "," << y << " angle " << t << ": " << vp::vstr( lo ) << ".." << vp::vstr( hi ) );
        disc.computeAABB( Vector2s( x, y ), t, lo, hi );
        VP_CHECK( near( lo( 0 ), x - a ) && near( hi( 0 ), x + a ) && near( lo( 1 ), y - a ) && near( hi( 1 ), y + a ), "bounding box of a disc at " << x << "," << y << ": " << vp::vstr( lo ) << ".." << vp::vstr( hi ) );
        // The box used for detection encloses the disc's whole path and the box's final position
        const double x0 = y, y0 = 0.5 * x + 1.0;
        disc.computeCollisionAABB( Vector2s( x0, y0 ), 0.1, Vector2s( x, y ), t, lo, hi );
        VP_CHECK( lo( 0 ) <= std::min( x0, x ) - a + 1e-12 && hi( 0 ) >= std::max( x0, x ) + a - 1e-12 && lo( 1 ) <= std::min( y0, y ) - a + 1e-12 && hi( 1 ) >= std::max( y0, y ) + a - 1e-12, "swept bounding box of a disc from " << x0 << "," << y0 << " to " << x << "," << y << ": " << vp::vstr( lo ) << ".." << vp::vstr( hi ) );
        box.computeCollisionAABB( Vector2s( x0, y0 ), 0.1, Vector2s( x, y ), t, lo, hi );
        const double e = 1e-9 * ( 1 + std::abs( lx ) + std::abs( hx ) + std::abs( ly ) + std::abs( hy ) );
        VP_CHECK( lo( 0 ) <= lx + e && hi( 0 ) >= hx - e && lo( 1 ) <= ly + e && hi( 1 ) >= hy - e, "bounding box for detection of a box ending at " << x << "," << y << " angle " << t );
        vp::transition();
      } } }
      vp::state( vp::hashStr( std::to_string( m ) + " " + std::to_string( I ) + " " + std::to_string( a ) + " " + std::to_string( b ) ) );
    } );
  } } }
}
#endif

#if defined(SYS_RB3D)
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
struct Mesh { std::vector<V3> v; std::vector<std::array<unsigned,3>> f; };

// Volume, first and second moments as a sum over the tetrahedra spanned by the faces and a reference point inside
// the shape's bounding box. Second moments of a tetrahedron: det/120 * (sum_i x_i x_i^T + (sum x_i)(sum x_i)^T).
static void integrals( const Mesh& m, double& vol, V3& cm, M3& I )
{
  V3 ref = V3::Zero();
  for( const V3& p : m.v ) { ref += p / double( m.v.size() ); }
  vol = 0.0; V3 first = V3::Zero(); M3 second = M3::Zero();
  for( const auto& f : m.f )
  {
    const V3 a = m.v[f[0]] - ref, b = m.v[f[1]] - ref, c = m.v[f[2]] - ref;
    const double det = a.dot( b.cross( c ) );
    const V3 s = a + b + c;
    vol += det / 6.0;
    first += det / 24.0 * s;
    second += det / 120.0 * ( a * a.transpose() + b * b.transpose() + c * c.transpose() + s * s.transpose() );
  }
  const V3 d = first / vol;
  cm = ref + d;
  second -= vol * d * d.transpose();
  I = second.trace() * M3::Identity() - second;
}

static V3 corner( int i ) { return V3( i & 1 ? 1 : 0, i & 2 ? 1 : 0, i & 4 ? 1 : 0 ); }
static Mesh boxMesh( const V3& lo, const V3& hi )
{
  Mesh m;
  for( int i = 0; i < 8; ++i ) { m.v.push_back( lo + corner( i ).cwiseProduct( hi - lo ) ); }
  const unsigned f[12][3] = { { 0, 2, 1 }, { 1, 2, 3 }, { 4, 5, 6 }, { 5, 7, 6 }, { 0, 1, 4 }, { 1, 5, 4 }, { 2, 6, 3 }, { 3, 6, 7 }, { 0, 4, 2 }, { 2, 4, 6 }, { 1, 3, 5 }, { 3, 7, 5 } };
  for( const auto& t : f ) { m.f.push_back( { { t[0], t[1], t[2] } } ); }
  return m;
}
static Mesh join( const Mesh& a, const Mesh& b )
{
  Mesh m = a;
  const unsigned o = unsigned( a.v.size() );
  for( const V3& p : b.v ) { m.v.push_back( p ); }
  for( const auto& t : b.f ) { m.f.push_back( { { t[0] + o, t[1] + o, t[2] + o } } ); }
  return m;
}
static Mesh moved( const Mesh& a, const M3& R, const V3& x, double s ) { Mesh m = a; for( V3& p : m.v ) { p = s * ( R * p ) + x; } return m; }

static std::string showMesh( const Mesh& m )
{
  std::ostringstream o; o << "mesh v=";
  for( const V3& p : m.v ) { o << vp::vstr( p ); }
  o << " f=";
  for( const auto& t : m.f ) { o << t[0] << "," << t[1] << "," << t[2] << ";"; }
  return o.str();
}

static std::string meshStream( const Mesh& m, double vol, const V3& I, const V3& cm, const M3& R )
{
  std::ostringstream o;
  Matrix3Xsc V( 3, int( m.v.size() ) ); for( int i = 0; i < V.cols(); ++i ) { V.col( i ) = m.v[size_t( i )]; }
  Matrix3Xuc F( 3, int( m.f.size() ) ); for( int i = 0; i < F.cols(); ++i ) { F.col( i ) << m.f[size_t( i )][0], m.f[size_t( i )][1], m.f[size_t( i )][2]; }
  const std::string name = "m.h5";
  StringUtilities::serialize( name, o );
  MathUtilities::serialize( V, o ); MathUtilities::serialize( F, o ); Utilities::serialize( vol, o );
  MathUtilities::serialize( Vector3s( I ), o ); MathUtilities::serialize( Vector3s( cm ), o ); MathUtilities::serialize( Matrix3s( R ), o );
  MathUtilities::serialize( V, o ); MathUtilities::serialize( V, o ); MathUtilities::serialize( Vector3s( Vector3s::Ones() ), o ); MathUtilities::serialize( Vector3u( Vector3u::Constant( 2 ) ), o );
  MathUtilities::serialize( Vector3s( Vector3s::Zero() ), o ); MathUtilities::serialize( VectorXs( VectorXs::Ones( 8 ) ), o ); MathUtilities::serialize( Vector3s( Vector3s::Ones() ), o );
  return o.str();
}

static const std::vector<M3>& rotations()
{
  static std::vector<M3> r;
  if( r.empty() )
  {
    const std::array<double,3> a[] = { { { 0, 0, 0 } }, { { 0.5 * PIV, 0, 0 } }, { { 0, 0.25 * PIV, 0 } }, { { 0, 0, 1.0 } }, { { 0.3, -0.7, 1.1 } }, { { 2.0, 1.0, -0.5 } }, { { -PIV / std::sqrt( 2.0 ), PIV / std::sqrt( 2.0 ), 0 } } };
    for( const auto& x : a ) { r.push_back( rotation( x ) ); }
  }
  return r;
}

static void checkMesh( const Mesh& m, bool whole )
{
  vp::transition();
  Matrix3Xsc V( 3, int( m.v.size() ) ); for( int i = 0; i < V.cols(); ++i ) { V.col( i ) = m.v[size_t( i )]; }
  Matrix3Xuc F( 3, int( m.f.size() ) ); for( int i = 0; i < F.cols(); ++i ) { F.col( i ) << m.f[size_t( i )][0], m.f[size_t( i )][1], m.f[size_t( i )][2]; }
  double vol; V3 cm; M3 T;
  integrals( m, vol, cm, T );
  scalar mass = -7; Vector3s I( -7, -7, -7 ), c( -7, -7, -7 ); Matrix3s R = Matrix3s::Constant( -7 );
  MomentTools::computeMoments( V, F, mass, I, c, R );
  const double tol = 1.0e-9;
  VP_CHECK( near( mass, vol, tol ), "volume " << mass << ", exact " << vol );
  VP_CHECK( nearAll( c, cm, tol ), "centre of mass " << vp::vstr( c ) << ", exact " << vp::vstr( cm ) );
  VP_CHECK( nearAll( R * R.transpose(), M3::Identity(), tol ) && near( R.determinant(), 1.0, tol ), "principal axes are not a right-handed rotation:\n" << R );
  VP_CHECK( I( 0 ) > 0 && I( 1 ) > 0 && I( 2 ) > 0, "moments " << vp::vstr( I ) );
  VP_CHECK( nearAll( R * I.asDiagonal() * R.transpose(), T, tol ), "axes and moments give the inertia\n" << M3( R * I.asDiagonal() * R.transpose() ) << "\nexact\n" << T );
  vp::state( hash( VX( V3( I ) ), hash( VX( V3( c ) ) ) ) );
  if( !whole ) { return; }
  // A loaded mesh is stored centred and in its principal axes. Scene loading passes on what is in the file.
  Mesh own = m; for( V3& p : own.v ) { p = R.transpose() * ( p - cm ); }
  std::istringstream is( meshStream( own, mass, I, c, R ) );
  const RigidBodyTriangleMesh g( is );
  const std::unique_ptr<RigidBodyGeometry> cl = g.clone();
  for( const RigidBodyGeometry* p : { static_cast<const RigidBodyGeometry*>( &g ), static_cast<const RigidBodyGeometry*>( cl.get() ) } )
  {
    for( double rho : { 0.5, 1.0, 3.0 } )
    {
      scalar M2 = -7; Vector3s C2, I2; Matrix33sr R2;
      p->computeMassAndInertia( rho, M2, C2, I2, R2 );
      VP_CHECK( near( M2, rho * vol, tol ) && nearAll( C2, cm, tol ) && nearAll( I2, V3( rho * I ), tol ) && nearAll( MX( R2 ), MX( R ), tol ), "mesh mass properties at density " << rho << ": " << M2 << " " << vp::vstr( C2 ) << " " << vp::vstr( I2 ) << "\n" << R2 );
    }
    VP_CHECK( near( p->volume(), vol, tol ), "mesh volume " << p->volume() );
    for( const M3& Q : rotations() )
    {
      const V3 x( 1.0, -2.0, 0.5 );
      V3 lo = V3::Constant( 1e300 ), hi = -lo;
      for( const V3& q : own.v ) { const V3 y = Q * q + x; lo = lo.cwiseMin( y ); hi = hi.cwiseMax( y ); }
      Array3s l, h; Matrix33sr Qr = Q;
      p->computeAABB( x, Qr, l, h );
      VP_CHECK( nearAll( V3( l.matrix() ), lo, tol ) && nearAll( V3( h.matrix() ), hi, tol ), "mesh bounding box " << vp::vstr( l ) << ".." << vp::vstr( h ) << ", exact " << vp::vstr( lo ) << ".." << vp::vstr( hi ) );
    }
  }
}

static void meshes()
{
  // Every tetrahedron with corners on a lattice
  const int L = vp::thorough() ? 3 : 2;
  std::vector<V3> pts;
  for( int i = 0; i <= L; ++i ) { for( int j = 0; j <= L; ++j ) { for( int k = 0; k <= L; ++k ) { pts.emplace_back( i, j, k ); } } }
  const int n = int( pts.size() );
  for( int a = 0; a < n; ++a ) { for( int b = a + 1; b < n; ++b )
  {
    vp::runCase( [&] { std::ostringstream o; o << "all tetrahedra with corners " << vp::vstr( pts[size_t( a )] ) << vp::vstr( pts[size_t( b )] ) << " on a lattice 0.." << L; return o.str(); }, [&]
    {
      for( int c = b + 1; c < n; ++c ) { for( int d = c + 1; d < n; ++d )
      {
        Mesh m; m.v = { pts[size_t( a )], pts[size_t( b )], pts[size_t( c )], pts[size_t( d )] };
        const double det = ( m.v[1] - m.v[0] ).dot( ( m.v[2] - m.v[0] ).cross( m.v[3] - m.v[0] ) );
        if( std::abs( det ) < 0.5 ) { continue; }
        if( det < 0 ) { std::swap( m.v[2], m.v[3] ); }
        m.f = { { { 0, 2, 1 } }, { { 0, 1, 3 } }, { { 0, 3, 2 } }, { { 1, 2, 3 } } };
        vp::note( showMesh( m ) );
        checkMesh( m, false );
      } }
    } );
  } }
  // Boxes, wedges, pyramids, octahedra, unions and shapes with cavities under rotations, translations and scales; faces listed
  // starting from each of their corners and in each rotation of the list
  std::vector<std::pair<std::string,Mesh>> base;
  for( int i = 1; i <= 3; ++i ) { for( int j = 1; j <= 3; ++j ) { for( int k = 1; k <= 3; ++k ) { base.emplace_back( "box", boxMesh( V3::Zero(), V3( i, j, k ) ) ); } } }
  base.emplace_back( "two boxes", join( boxMesh( V3( 0, 0, 0 ), V3( 1, 1, 1 ) ), boxMesh( V3( 2, 1, -1 ), V3( 3, 3, 2 ) ) ) );
  base.emplace_back( "L", join( boxMesh( V3( 0, 0, 0 ), V3( 3, 1, 1 ) ), boxMesh( V3( 0, 1, 0 ), V3( 1, 3, 1 ) ) ) );
  { Mesh hole = boxMesh( V3( 1, 1, 1 ), V3( 2, 2, 3 ) ); for( auto& t : hole.f ) { std::swap( t[1], t[2] ); } base.emplace_back( "box with a cavity", join( boxMesh( V3( 0, 0, 0 ), V3( 3, 4, 4 ) ), hole ) ); }
  // many faces: every triangle split into four again and again, corners moved a little
  for( int levels = 1; levels <= ( vp::thorough() ? 5 : 3 ); ++levels )
  {
    Mesh m = boxMesh( V3( -0.5, 0, 0.25 ), V3( 1.5, 1, 3.25 ) );
    for( int l = 0; l < levels; ++l )
    {
      Mesh n; n.v = m.v; std::map<std::pair<unsigned,unsigned>,unsigned> mid;
      auto half = [&]( unsigned a, unsigned b ) { if( a > b ) { std::swap( a, b ); } const auto it = mid.find( { a, b } ); if( it != mid.end() ) { return it->second; } const V3 c = 0.5 * ( n.v[a] + n.v[b] ); n.v.push_back( c ); const unsigned id = unsigned( n.v.size() ) - 1; mid[{ a, b }] = id; return id; };
      for( const auto& t : m.f ) { const unsigned ab = half( t[0], t[1] ), bc = half( t[1], t[2] ), ca = half( t[2], t[0] ); n.f.push_back( { { t[0], ab, ca } } ); n.f.push_back( { { ab, t[1], bc } } ); n.f.push_back( { { ca, bc, t[2] } } ); n.f.push_back( { { ab, bc, ca } } ); }
      m = n;
    }
    for( size_t k = 0; k < m.v.size(); ++k ) { m.v[k] += 0.03125 * V3( double( k % 3 ) - 1.0, double( k % 5 ) - 2.0, double( k % 2 ) ); }
    base.emplace_back( "box with " + std::to_string( m.f.size() ) + " faces", m );
  }
  { Mesh m; m.v = { V3( 1, 0, 0 ), V3( -1, 0, 0 ), V3( 0, 2, 0 ), V3( 0, -2, 0 ), V3( 0, 0, 3 ), V3( 0, 0, -3 ) }; m.f = { { { 0, 2, 4 } }, { { 2, 1, 4 } }, { { 1, 3, 4 } }, { { 3, 0, 4 } }, { { 2, 0, 5 } }, { { 1, 2, 5 } }, { { 3, 1, 5 } }, { { 0, 3, 5 } } }; base.emplace_back( "octahedron", m ); }
  { Mesh m; m.v = { V3( 0, 0, 0 ), V3( 2, 0, 0 ), V3( 2, 2, 0 ), V3( 0, 2, 0 ), V3( 0.5, 1.5, 3 ) }; m.f = { { { 0, 2, 1 } }, { { 0, 3, 2 } }, { { 0, 1, 4 } }, { { 1, 2, 4 } }, { { 2, 3, 4 } }, { { 3, 0, 4 } } }; base.emplace_back( "pyramid", m ); }
  { Mesh m; m.v = { V3( 0, 0, 0 ), V3( 3, 0, 0 ), V3( 0, 1, 0 ), V3( 0, 0, 2 ), V3( 3, 0, 2 ), V3( 0, 1, 2 ) }; m.f = { { { 0, 2, 1 } }, { { 3, 4, 5 } }, { { 0, 1, 3 } }, { { 1, 4, 3 } }, { { 1, 2, 4 } }, { { 2, 5, 4 } }, { { 2, 0, 5 } }, { { 0, 3, 5 } } }; base.emplace_back( "wedge", m ); }
  const std::vector<V3> shifts = { V3( 0, 0, 0 ), V3( -0.5, -0.5, -0.5 ), V3( 5, 0, 0 ), V3( 0, -5, 0 ), V3( 0, 0, 7 ), V3( -3, 4, 2 ) };
  for( const auto& b : base ) { for( size_t r = 0; r < rotations().size(); ++r ) { for( size_t t = 0; t < shifts.size(); ++t ) { for( double s : { 0.1, 1.0, 2.0 } ) { for( int turn = 0; turn < 3; ++turn )
  {
    vp::runCase( [&] { std::ostringstream o; o << b.first << " rotation " << r << " shift " << t << " scale " << s << " turn " << turn; return o.str(); }, [&]
    {
      Mesh m = moved( b.second, rotations()[r], shifts[t], s );
      for( auto& f : m.f ) { for( int k = 0; k < turn; ++k ) { f = { { f[1], f[2], f[0] } }; } }
      std::rotate( m.f.begin(), m.f.begin() + turn, m.f.end() );
      vp::note( showMesh( m ) );
      checkMesh( m, turn == 0 );
    } );
  } } } } }
}

static void solids()
{
  const double sizes[] = { 0.05, 0.5, 1.0, 1.5, 3.0, 20.0 };
  const double dens[] = { 0.001, 1.0, 2.5, 7800.0 };
  for( double a : sizes ) { for( double b : sizes ) { for( double c : sizes ) { for( double rho : dens )
  {
    vp::runCase( [&] { std::ostringstream o; o << "3D shapes " << a << "," << b << "," << c << " density " << rho; return o.str(); }, [&]
    {
      scalar M; Vector3s C, I; Matrix33sr R;
      const V3 x( -3.0, 0.25, 10.0 );
      auto rotOK = [&]( const char* w ) { VP_CHECK( nearAll( MX( R ), MX( M3::Identity() ) ), w << ": axes\n" << R ); };
      {
        const RigidBodyBox g( Vector3s( a, b, c ) );
        g.computeMassAndInertia( rho, M, C, I, R );
        const double m = rho * 8 * a * b * c;
        VP_CHECK( rel( M, m ) && C.norm() == 0.0 && rel( I( 0 ), m * ( b * b + c * c ) / 3 ) && rel( I( 1 ), m * ( a * a + c * c ) / 3 ) && rel( I( 2 ), m * ( a * a + b * b ) / 3 ), "box: mass " << M << " centre " << vp::vstr( C ) << " moments " << vp::vstr( I ) );
        rotOK( "box" );
        VP_CHECK( rel( g.volume(), 8 * a * b * c ), "box volume " << g.volume() );
        for( const M3& Q : rotations() )
        {
          V3 lo = V3::Constant( 1e300 ), hi = -lo;
          for( int s = 0; s < 8; ++s ) { const V3 y = x + Q * V3( s & 1 ? a : -a, s & 2 ? b : -b, s & 4 ? c : -c ); lo = lo.cwiseMin( y ); hi = hi.cwiseMax( y ); }
          Array3s l, h; Matrix33sr Qr = Q; g.computeAABB( x, Qr, l, h );
          VP_CHECK( nearAll( V3( l.matrix() ), lo ) && nearAll( V3( h.matrix() ), hi ), "box bounding box " << vp::vstr( l ) << ".." << vp::vstr( h ) << ", exact " << vp::vstr( lo ) << ".." << vp::vstr( hi ) );
          vp::transition();
        }
      }
      {
        const RigidBodySphere g( a );
        g.computeMassAndInertia( rho, M, C, I, R );
        const double m = rho * 4.0 / 3.0 * PIV * a * a * a;
        VP_CHECK( rel( M, m ) && C.norm() == 0.0 && rel( I( 0 ), 0.4 * m * a * a ) && rel( I( 1 ), 0.4 * m * a * a ) && rel( I( 2 ), 0.4 * m * a * a ), "ball: mass " << M << " moments " << vp::vstr( I ) );
        rotOK( "ball" );
        VP_CHECK( rel( g.volume(), 4.0 / 3.0 * PIV * a * a * a ), "ball volume " << g.volume() );
        for( const M3& Q : rotations() )
        {
          Array3s l, h; Matrix33sr Qr = Q; g.computeAABB( x, Qr, l, h );
          VP_CHECK( nearAll( V3( l.matrix() ), V3( x.array() - a ) ) && nearAll( V3( h.matrix() ), V3( x.array() + a ) ), "ball bounding box " << vp::vstr( l ) << ".." << vp::vstr( h ) );
          vp::transition();
        }
      }
      {
        // A staple of overall width w, leg length l and thickness t is modelled as three cylinders along its centre lines
        const double t = 0.5 * a, w = b + t, l = c + t, r = 0.5 * t;
        const RigidBodyStaple g( w, l, t );
        g.computeMassAndInertia( rho, M, C, I, R );
        struct Cyl { V3 c; int ax; double len; };
        const Cyl cyl[3] = { { V3( 0, 0, 0 ), 0, b }, { V3( -0.5 * b, 0.5 * c, 0 ), 1, c }, { V3( 0.5 * b, 0.5 * c, 0 ), 1, c } };
        double m = 0; V3 cm = V3::Zero();
        for( const Cyl& y : cyl ) { const double mi = rho * PIV * r * r * y.len; m += mi; cm += mi * y.c; }
        cm /= m;
        V3 J = V3::Zero();
        for( const Cyl& y : cyl )
        {
          const double mi = rho * PIV * r * r * y.len;
          const V3 d = y.c - cm;
          for( int k = 0; k < 3; ++k ) { J( k ) += mi * ( d.squaredNorm() - d( k ) * d( k ) ) + ( k == y.ax ? mi * r * r / 2 : mi * ( 3 * r * r + y.len * y.len ) / 12 ); }
        }
        VP_CHECK( rel( M, m ) && nearAll( C, cm ) && rel( I( 0 ), J( 0 ) ) && rel( I( 1 ), J( 1 ) ) && rel( I( 2 ), J( 2 ) ), "staple: mass " << M << " centre " << vp::vstr( C ) << " moments " << vp::vstr( I ) << ", exact " << m << " " << vp::vstr( cm ) << " " << vp::vstr( J ) );
        rotOK( "staple" );
        const std::unique_ptr<RigidBodyGeometry> cl = g.clone();
        for( const RigidBodyGeometry* p : { static_cast<const RigidBodyGeometry*>( &g ), static_cast<const RigidBodyGeometry*>( cl.get() ) } ) { for( const M3& Q : rotations() )
        {
          V3 lo = V3::Constant( 1e300 ), hi = -lo;
          for( const V3& q : { V3( -0.5 * b, c, 0 ), V3( -0.5 * b, 0, 0 ), V3( 0.5 * b, 0, 0 ), V3( 0.5 * b, c, 0 ) } ) { const V3 y = x + Q * V3( q - cm ); lo = lo.cwiseMin( V3( y.array() - r ) ); hi = hi.cwiseMax( V3( y.array() + r ) ); }
          Array3s l2, h2; Matrix33sr Qr = Q; p->computeAABB( x, Qr, l2, h2 );
          VP_CHECK( nearAll( V3( l2.matrix() ), lo ) && nearAll( V3( h2.matrix() ), hi ), "staple bounding box " << vp::vstr( l2 ) << ".." << vp::vstr( h2 ) << ", exact " << vp::vstr( lo ) << ".." << vp::vstr( hi ) );
          vp::transition();
        } }
      }
      vp::state( vp::hashStr( std::to_string( a ) + std::to_string( b ) + std::to_string( c ) + std::to_string( rho ) ) );
    } );
  } } } }
}
#endif

// Mass matrices against their definition for the bodies' current orientation
static void checkMatrices( Sim& sim, const Scene& sc, const char* when )
{
  const int n = int( sc.b.size() ), w = D + AD;
  auto& st = sim.state();
  MX M = MX::Zero( w * n, w * n ), Mi = M;
#if defined(SYS_RB3D)
  MX M0 = M, M0i = M;
#endif
  for( int i = 0; i < n; ++i )
  {
    const Body& b = sc.b[size_t( i )];
#if defined(SYS_RB3D)
    const M3 R = rotOf( q( sim ), i );
    const V3 I0 = inertia0( b );
    for( int k = 0; k < 3; ++k ) { M( 3 * i + k, 3 * i + k ) = M0( 3 * i + k, 3 * i + k ) = b.m; Mi( 3 * i + k, 3 * i + k ) = M0i( 3 * i + k, 3 * i + k ) = 1.0 / b.m; M0( 3 * n + 3 * i + k, 3 * n + 3 * i + k ) = I0( k ); M0i( 3 * n + 3 * i + k, 3 * n + 3 * i + k ) = 1.0 / I0( k ); }
    M.block( 3 * n + 3 * i, 3 * n + 3 * i, 3, 3 ) = R * I0.asDiagonal() * R.transpose();
    Mi.block( 3 * n + 3 * i, 3 * n + 3 * i, 3, 3 ) = R * I0.cwiseInverse().asDiagonal() * R.transpose();
    VP_CHECK( near( st.getTotalMass( unsigned( i ) ), b.m ), "mass of body " << i );
    VP_CHECK( nearAll( MX( Eigen::Matrix3d( st.getInertia( unsigned( i ) ) ) ), MX( M.block( 3 * n + 3 * i, 3 * n + 3 * i, 3, 3 ) ) ), when << ": inertia of body " << i );
#else
    for( int k = 0; k < 2; ++k ) { M( w * i + k, w * i + k ) = b.m; Mi( w * i + k, w * i + k ) = 1.0 / b.m; }
    if( AD ) { M( w * i + 2, w * i + 2 ) = b.I; Mi( w * i + 2, w * i + 2 ) = 1.0 / b.I; }
#endif
  }
  VP_CHECK( nearAll( MX( st.M() ), M, 1e-9 ), when << ": mass matrix\n" << MX( st.M() ) << "\nexpected\n" << M );
  VP_CHECK( nearAll( MX( st.Minv() ), Mi, 1e-9 ), when << ": inverse mass matrix\n" << MX( st.Minv() ) << "\nexpected\n" << Mi );
#if defined(SYS_RB3D)
  VP_CHECK( nearAll( MX( st.M0() ), M0 ) && nearAll( MX( st.Minv0() ), M0i ), when << ": body-space mass matrices" );
#endif
  vp::transition();
  vp::state( hash( q( sim ) ) );
}

static void matrices()
{
  const double ms[] = { 0.25, 1.0, 40.0 }, Is[] = { 0.1, 1.0, 9.0 };
  const std::array<double,3> rots[] = { { { 0, 0, 0 } }, { { 0.4, 0, 0 } }, { { -1.2, 0.3, 2.0 } } };
  const std::array<double,3> spins[] = { { { 0, 0, 0 } }, { { 0.5, -1.0, 2.0 } }, { { 3.0, 0.25, -0.5 } } };
  const int N = 3;
  vp::product( { N, N, N, N, 2, 2 }, [&]( const std::vector<int>& d )
  {
    for( int u = 0; u < NUMAPS; ++u ) { for( int steps : { 6 } )
    {
      vp::runCase( [&] { std::ostringstream o; o << "mass matrices over " << steps << " steps of " << umapName( u ) << ", choice " << vp::str( d ); return o.str(); }, [&]
      {
        Scene sc;
        for( int i = 0; i < 3; ++i )
        {
          Body b; b.x = vd( 10.0 * i, -3.0 * i, 1.0 ); b.v = vd( 0.5, -0.25 * i, 1.0 );
          b.kind = D + AD > 2 && ( ( i + d[4] ) % 2 ) ? 'b' : 'c';
          b.m = ms[size_t( ( d[0] + i ) % 3 )]; b.I = Is[size_t( ( d[1] + 2 * i ) % 3 )];
          b.rot = rots[size_t( ( d[2] + i ) % 3 )]; b.w = spins[size_t( ( d[3] + i ) % 3 )];
          // exponential Euler supports no fixed bodies; a fixed 3D body is at rest
          if( D == 3 && d[5] && i == 1 && u != 0 ) { b.fixed = true; b.v = VD::Zero(); b.w = { { 0, 0, 0 } }; }
          if( D == 2 && AD == 1 && d[5] && i == 1 ) { b.fixed = true; }
          sc.b.push_back( b );
        }
        sc.gravity = true; sc.g = vd( 0.0, -1.0, 0.5 );
        Sim sim = build( sc );
        checkMatrices( sim, sc, "at the start" );
        const auto um = umap( u );
        for( int s = 1; s <= steps; ++s )
        {
          flowU( sim, unsigned( s ), Dt( 1, 10 ), *um );
          checkMatrices( sim, sc, "after a step" );
        }
        std::stringstream ss; sim.serialize( ss );
        Sim back; back.deserialize( ss );
        checkMatrices( back, sc, "after saving and restoring" );
        Sim copy( sim );
        checkMatrices( copy, sc, "in a copy" );
        flowU( copy, unsigned( steps + 1 ), Dt( 1, 10 ), *um );
        checkMatrices( copy, sc, "in a stepped copy" );
        checkMatrices( sim, sc, "in the original after its copy stepped" );
      } );
    } }
  } );
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
#if defined(SYS_RB2D)
  shapes2d();
#endif
#if defined(SYS_RB3D)
  solids();
  meshes();
#endif
  matrices();
  return vp::finish();
}
