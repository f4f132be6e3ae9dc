// P15: adding and removing bodies, shapes and boundaries. Every sequence of edits up to a depth is run on the real
// state next to a plain-list reference; after every edit the whole observable state, and what contact detection and
// one step make of it, is compared with the reference.
#include "maps.h"
using namespace sys;

static bool near( double a, double b ) { return a == b || std::abs( a - b ) <= 1.0e-12 * std::max( 1.0, std::max( std::abs( a ), std::abs( b ) ) ); }
static bool nearV( const VX& a, const VX& b ) { if( a.size() != b.size() ) { return false; } for( int i = 0; i < a.size(); ++i ) { if( !near( a( i ), b( i ) ) ) { return false; } } return true; }
static bool nearM( const MX& a, const MX& b ) { if( a.rows() != b.rows() || a.cols() != b.cols() ) { return false; } for( int i = 0; i < a.rows(); ++i ) { for( int j = 0; j < a.cols(); ++j ) { if( !near( a( i, j ), b( i, j ) ) ) { return false; } } } return true; }

// What the scene should be. Bodies carry their own shape; 'shapes' is the list the bodies refer to (rigid bodies only).
struct Shape { char kind; std::array<double,3> dim; };
struct Ref { Scene sc; std::vector<Shape> shapes; std::vector<int> uses; int serial = 0; };

static std::string showRef( const Ref& r ) { std::ostringstream o; o << show( r.sc ) << " shapes" << r.shapes.size() << " uses" << vp::str( r.uses ); return o.str(); }

static const double PIV = 3.14159265358979323846;

// Axis-aligned extent of a body by its definition
static void extent( const Body& b, VD& lo, VD& hi )
{
  if( b.kind == 'c' ) { lo = b.x.array() - b.dim[0]; hi = b.x.array() + b.dim[0]; return; }
  VD e = VD::Zero();
#if defined(SYS_RB3D)
  const Eigen::Matrix3d R = rotation( b.rot );
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { e( i ) += std::abs( R( i, j ) ) * b.dim[size_t( j )]; } }
#else
  const double c = std::abs( std::cos( b.rot[0] ) ), s = std::abs( std::sin( b.rot[0] ) );
  e( 0 ) = c * b.dim[0] + s * b.dim[1]; e( 1 ) = s * b.dim[0] + c * b.dim[1];
#endif
  lo = b.x - e; hi = b.x + e;
}

static void checkDense( const char* what, const SparseMatrixsc& S, const MX& want )
{
  VP_CHECK( int( S.rows() ) == int( want.rows() ) && int( S.cols() ) == int( want.cols() ), what << " is " << S.rows() << "x" << S.cols() << ", expected " << want.rows() << "x" << want.cols() );
  VP_CHECK( nearM( MX( S ), want ), what << " is " << MX( S ) << "\nexpected " << want );
}

static void masses( const Ref& r, MX& M, MX& Minv )
{
  const int n = int( r.sc.b.size() );
  const int w = D + AD;
  M = MX::Zero( w * n, w * n ); Minv = M;
  for( int i = 0; i < n; ++i )
  {
    const Body& b = r.sc.b[size_t( i )];
#if defined(SYS_RB3D)
    for( int k = 0; k < 3; ++k ) { M( 3 * i + k, 3 * i + k ) = b.m; Minv( 3 * i + k, 3 * i + k ) = 1.0 / b.m; }
    const Eigen::Matrix3d R = rotation( b.rot );
    const Eigen::Vector3d I0 = inertia0( b );
    M.block( 3 * n + 3 * i, 3 * n + 3 * i, 3, 3 ) = R * I0.asDiagonal() * R.transpose();
    Minv.block( 3 * n + 3 * i, 3 * n + 3 * i, 3, 3 ) = R * I0.cwiseInverse().asDiagonal() * R.transpose();
#else
    for( int k = 0; k < 2; ++k ) { M( w * i + k, w * i + k ) = b.m; Minv( w * i + k, w * i + k ) = 1.0 / b.m; }
    if( AD ) { M( w * i + 2, w * i + 2 ) = b.I; Minv( w * i + 2, w * i + 2 ) = 1.0 / b.I; }
#endif
  }
}

static void compare( Sim& sim, const Ref& r )
{
  const int n = int( r.sc.b.size() );
  auto& st = sim.state();
  Sim fresh = build( r.sc );
  const std::string before = image( sim );
  VP_CHECK( same( q( sim ), q( fresh ) ), "configuration is " << vp::vstr( q( sim ) ) << ", expected " << vp::vstr( q( fresh ) ) );
  VP_CHECK( same( v( sim ), v( fresh ) ), "velocity is " << vp::vstr( v( sim ) ) << ", expected " << vp::vstr( v( fresh ) ) );
  MX M, Minv;
  masses( r, M, Minv );
  checkDense( "mass matrix", st.M(), M );
  checkDense( "inverse mass matrix", st.Minv(), Minv );
#if defined(SYS_BALL2D)
  VP_CHECK( int( st.nballs() ) == n, "number of balls " << st.nballs() << ", expected " << n );
  VP_CHECK( int( st.r().size() ) == n && int( st.fixed().size() ) == n, "numbers of radii or flags " << st.r().size() << ", " << st.fixed().size() << ", expected " << n );
  for( int i = 0; i < n; ++i )
  {
    VP_CHECK( st.r()( i ) == r.sc.b[size_t( i )].dim[0], "radius of ball " << i << " is " << st.r()( i ) );
    VP_CHECK( st.fixed()[size_t( i )] == r.sc.b[size_t( i )].fixed, "fixed flag of ball " << i );
  }
  VP_CHECK( st.staticDrums().size() == r.sc.rounds.size(), "number of drums " << st.staticDrums().size() );
  for( size_t i = 0; i < r.sc.rounds.size(); ++i ) { VP_CHECK( st.staticDrums()[i].x() == r.sc.rounds[i].x && st.staticDrums()[i].r() == r.sc.rounds[i].r, "drum " << i ); }
  VP_CHECK( st.staticPlanes().size() == r.sc.planes.size(), "number of planes " << st.staticPlanes().size() );
  for( size_t i = 0; i < r.sc.planes.size(); ++i ) { VP_CHECK( st.staticPlanes()[i].x() == r.sc.planes[i].x && nearV( st.staticPlanes()[i].n(), r.sc.planes[i].n.normalized() ) && st.staticPlanes()[i].v() == r.sc.planes[i].v, "plane " << i ); }
  if( n || !r.sc.rounds.empty() )
  {
    double lx = 1e300, hx = -1e300, ly = 1e300, hy = -1e300;
    for( const Body& b : r.sc.b ) { lx = std::min( lx, b.x( 0 ) - b.dim[0] ); hx = std::max( hx, b.x( 0 ) + b.dim[0] ); ly = std::min( ly, b.x( 1 ) - b.dim[0] ); hy = std::max( hy, b.x( 1 ) + b.dim[0] ); }
    for( const Round& b : r.sc.rounds ) { lx = std::min( lx, b.x( 0 ) - b.r ); hx = std::max( hx, b.x( 0 ) + b.r ); ly = std::min( ly, b.x( 1 ) - b.r ); hy = std::max( hy, b.x( 1 ) + b.r ); }
    VX want( 4 ); want << lx, hx, ly, hy;
    VP_CHECK( nearV( VX( st.computeBoundingBox() ), want ), "bounding box " << vp::vstr( st.computeBoundingBox() ) << ", expected " << vp::vstr( want ) );
  }
#elif defined(SYS_RB2D)
  VP_CHECK( int( st.nbodies() ) == n, "number of bodies " << st.nbodies() << ", expected " << n );
  VP_CHECK( int( st.geometryIndices().size() ) == n, "number of shape references " << st.geometryIndices().size() << ", expected " << n );
  VP_CHECK( st.geometry().size() == r.shapes.size(), "number of shapes " << st.geometry().size() << ", expected " << r.shapes.size() );
  for( size_t g = 0; g < r.shapes.size(); ++g )
  {
    VP_CHECK( st.geometry()[g] != nullptr, "shape " << g << " is missing" );
    const bool box = st.geometry()[g]->type() == RigidBody2DGeometryType::BOX;
    VP_CHECK( box == ( r.shapes[g].kind == 'b' ), "kind of shape " << g );
    Array2s lo, hi; st.geometry()[g]->computeAABB( Vector2s( 0, 0 ), 0.0, lo, hi );
    const double h = r.shapes[g].dim[box ? 1 : 0];
    VP_CHECK( near( hi( 0 ), r.shapes[g].dim[0] ) && near( hi( 1 ), h ) && near( lo( 0 ), -r.shapes[g].dim[0] ) && near( lo( 1 ), -h ), "size of shape " << g << " is " << vp::vstr( hi ) );
  }
  for( int i = 0; i < n; ++i )
  {
    const Body& b = r.sc.b[size_t( i )];
    VP_CHECK( near( st.m( unsigned( i ) ), b.m ) && near( st.I( unsigned( i ) ), b.I ), "mass or inertia of body " << i << ": " << st.m( unsigned( i ) ) << ", " << st.I( unsigned( i ) ) );
    VP_CHECK( st.fixed( i ) == b.fixed, "fixed flag of body " << i );
    VP_CHECK( int( st.geometryIndex( unsigned( i ) ) ) == r.uses[size_t( i )] && int( st.geometryIndices()( i ) ) == r.uses[size_t( i )], "body " << i << " refers to shape " << st.geometryIndex( unsigned( i ) ) << ", expected " << r.uses[size_t( i )] );
    Array2s lo, hi; st.bodyGeometry( unsigned( i ) )->computeAABB( b.x, b.rot[0], lo, hi );
    VD elo, ehi; extent( b, elo, ehi );
    VP_CHECK( nearV( VX( lo.matrix() ), elo ) && nearV( VX( hi.matrix() ), ehi ), "extent of body " << i << " is " << vp::vstr( lo ) << ".." << vp::vstr( hi ) << ", expected " << vp::vstr( elo ) << ".." << vp::vstr( ehi ) );
  }
  VP_CHECK( st.planes().size() == r.sc.planes.size(), "number of planes " << st.planes().size() );
  for( size_t i = 0; i < r.sc.planes.size(); ++i ) { VP_CHECK( st.planes()[i].x() == r.sc.planes[i].x && nearV( st.planes()[i].n(), r.sc.planes[i].n.normalized() ), "plane " << i ); }
  if( n )
  {
    VD lo = VD::Constant( 1e300 ), hi = -lo;
    for( const Body& b : r.sc.b ) { VD l, h; extent( b, l, h ); lo = lo.cwiseMin( l ); hi = hi.cwiseMax( h ); }
    VX want( 4 ); want << lo, hi;
    VP_CHECK( nearV( VX( st.computeBoundingBox().matrix() ), want ), "bounding box " << vp::vstr( st.computeBoundingBox() ) << ", expected " << vp::vstr( want ) );
  }
#else
  VP_CHECK( int( st.nbodies() ) == n, "number of bodies " << st.nbodies() << ", expected " << n );
  VP_CHECK( int( st.fixed().size() ) == n && int( st.indices().size() ) == n, "numbers of flags or shape references " << st.fixed().size() << ", " << st.indices().size() );
  VP_CHECK( st.ngeo() == r.shapes.size() && st.geometry().size() == r.shapes.size(), "number of shapes " << st.ngeo() << ", expected " << r.shapes.size() );
  MX M0 = MX::Zero( 6 * n, 6 * n ), M0inv = M0;
  for( int i = 0; i < n; ++i )
  {
    const Body& b = r.sc.b[size_t( i )];
    const Eigen::Vector3d I0 = inertia0( b );
    for( int k = 0; k < 3; ++k ) { M0( 3 * i + k, 3 * i + k ) = b.m; M0inv( 3 * i + k, 3 * i + k ) = 1.0 / b.m; M0( 3 * n + 3 * i + k, 3 * n + 3 * i + k ) = I0( k ); M0inv( 3 * n + 3 * i + k, 3 * n + 3 * i + k ) = 1.0 / I0( k ); }
    VP_CHECK( near( st.getTotalMass( unsigned( i ) ), b.m ), "mass of body " << i << " is " << st.getTotalMass( unsigned( i ) ) );
    const Eigen::Matrix3d R = rotation( b.rot );
    VP_CHECK( nearM( MX( Eigen::Matrix3d( st.getInertia( unsigned( i ) ) ) ), MX( R * I0.asDiagonal() * R.transpose() ) ), "inertia of body " << i );
    VP_CHECK( st.fixed()[size_t( i )] == b.fixed && st.isKinematicallyScripted( unsigned( i ) ) == b.fixed, "fixed flag of body " << i );
    VP_CHECK( int( st.getGeometryIndexOfBody( unsigned( i ) ) ) == r.uses[size_t( i )] && int( st.indices()[size_t( i )] ) == r.uses[size_t( i )], "body " << i << " refers to shape " << st.getGeometryIndexOfBody( unsigned( i ) ) );
    Array3s lo, hi; Eigen::Matrix<double,3,3,Eigen::RowMajor> Rr = R; st.getGeometryOfBody( unsigned( i ) ).computeAABB( b.x, Rr, lo, hi );
    VD elo, ehi; extent( b, elo, ehi );
    VP_CHECK( nearV( VX( lo.matrix() ), elo ) && nearV( VX( hi.matrix() ), ehi ), "extent of body " << i << " is " << vp::vstr( lo ) << ".." << vp::vstr( hi ) << ", expected " << vp::vstr( elo ) << ".." << vp::vstr( ehi ) );
  }
  checkDense( "body-space mass matrix", st.M0(), M0 );
  checkDense( "body-space inverse mass matrix", st.Minv0(), M0inv );
  VP_CHECK( st.numStaticPlanes() == r.sc.planes.size() && st.staticPlanes().size() == r.sc.planes.size(), "number of planes " << st.numStaticPlanes() );
  for( size_t i = 0; i < r.sc.planes.size(); ++i ) { VP_CHECK( st.staticPlane( i ).x() == r.sc.planes[i].x && nearV( st.staticPlane( i ).n(), r.sc.planes[i].n.normalized() ), "plane " << i ); }
  VP_CHECK( st.numStaticCylinders() == r.sc.rounds.size(), "number of cylinders " << st.numStaticCylinders() );
  for( size_t i = 0; i < r.sc.rounds.size(); ++i ) { VP_CHECK( st.staticCylinder( i ).x() == r.sc.rounds[i].x && st.staticCylinder( i ).r() == r.sc.rounds[i].r, "cylinder " << i ); }
  if( n )
  {
    VD lo = VD::Constant( 1e300 ), hi = -lo;
    for( const Body& b : r.sc.b ) { VD l, h; extent( b, l, h ); lo = lo.cwiseMin( l ); hi = hi.cwiseMax( h ); }
    VX want( 6 ), got( 6 ); want << lo, hi;
    sim.computeBoundingBox( got( 0 ), got( 3 ), got( 1 ), got( 4 ), got( 2 ), got( 5 ) );
    VP_CHECK( nearV( got, want ), "bounding box " << vp::vstr( got ) << ", expected " << vp::vstr( want ) );
    double rad; Vector3s c; sim.computeBoundingSphere( rad, c );
    VP_CHECK( nearV( VX( c ), VX( 0.5 * ( lo + hi ) ) ) && near( rad, 0.5 * ( hi - lo ).norm() ), "bounding sphere " << rad << " at " << vp::vstr( c ) );
  }
#endif
  if( n == 0 ) { return; }
  // What the scene does: contacts and one plain step
  const VX q0 = q( sim ), v0 = v( sim );
  bool boxes = false, fixed = false; for( const Body& b : r.sc.b ) { boxes = boxes || b.kind == 'b'; fixed = fixed || b.fixed; }
  if( !boxes || ( D == 2 ? !fixed : r.sc.rounds.empty() ) )   // 3D boxes against cylinders and 2D boxes against fixed bodies are refused by the code
  {
  const auto ha = hits( detect( sim, q0, q0, v0 ) ), hb = hits( detect( fresh, q( fresh ), q( fresh ), v( fresh ) ) );
  VP_CHECK( ha == hb, "contacts " << showHits( ha ) << ", in a newly built equal scene " << showHits( hb ) );
  }
  VP_CHECK( image( sim ) == before, "looking at the scene changed it" );
  Sim a( sim );
  auto um = umap( NUMAPS - 1 );
  flowU( a, 1, Dt( 1, 8 ), *um );
  flowU( fresh, 1, Dt( 1, 8 ), *um );
  VP_CHECK( nearV( q( a ), q( fresh ) ) && nearV( v( a ), v( fresh ) ), "one step leads to q=" << vp::vstr( q( a ) ) << " v=" << vp::vstr( v( a ) ) << ", in a newly built equal scene q=" << vp::vstr( q( fresh ) ) << " v=" << vp::vstr( v( fresh ) ) );
  vp::state( before );
}

// One edit: applied to the real state and to the reference
struct Edit { std::string name; std::function<void(Sim&,Ref&)> run; };

static Plane planeNo( int i ) { Plane p; p.x = vd( 0.3 * i, -0.6 - i ); p.n = i == 0 ? vd( 0, 1 ) : i == 1 ? vd( 0.6, 0.8 ) : vd( -1, 0 ); return p; }
static Body bodyNo( int t )
{
  Body b;
  b.x = vd( -1.1 + 0.7 * t, 0.6 * t - 0.3, D > 2 ? 0.3 * t : 0.0 ); b.rot[0] = 0.3 * t; if( D > 2 ) { b.rot[1] = -0.6 * t; }
  b.v = vd( 1.1 + t, -0.7 * t, D > 2 ? 0.1 * t : 0.0 ); b.w[0] = 1.9 - t; if( D > 2 ) { b.w[1] = 0.6 * t; b.w[2] = 1.1; }
  b.fixed = t == 1;
  return b;
}

static void reload( Sim& sim ) { std::istringstream in( image( sim ) ); Sim fresh; fresh.deserialize( in ); sim = std::move( fresh ); }
static void reloadOver( Sim& sim ) { std::istringstream in( image( sim ) ); sim.deserialize( in ); }
static void recopy( Sim& sim ) { Sim c( sim ); Sim d; d = c; sim.state() = d.state(); }

#if defined(SYS_BALL2D)
static constexpr int PLANES = 2, ROUNDS = 2, BODIES = 4;
static std::vector<Edit> edits( const Ref& r )
{
  std::vector<Edit> e;
  if( int( r.sc.b.size() ) < BODIES )
  {
    for( int t = 0; t < 3; ++t )
    {
      e.push_back( Edit{ "push" + std::to_string( t ), [t]( Sim& s, Ref& r )
      {
        Body b = bodyNo( t ); b.x( 1 ) += 0.3125 * r.serial++; b.rot[0] = 0; b.w[0] = 0; b.dim[0] = 0.6 + 0.25 * t; b.m = 1.1 + 2.0 * t;
        s.state().pushBallBack( b.x, b.v, b.dim[0], b.m, b.fixed );
        r.sc.b.push_back( b );
      } } );
    }
  }
  if( int( r.sc.rounds.size() ) < ROUNDS ) { e.push_back( Edit{ "drum", []( Sim& s, Ref& r ) { Round d; d.x = vd( 0.5 * double( r.sc.rounds.size() ), 1.0 ); d.r = 2.1 + double( r.sc.b.size() ); s.state().staticDrums().emplace_back( d.x, d.r ); r.sc.rounds.push_back( d ); } } ); }
  for( size_t i = 0; i < r.sc.rounds.size(); ++i ) { e.push_back( Edit{ "nodrum" + std::to_string( i ), [i]( Sim& s, Ref& r ) { s.state().staticDrums().erase( s.state().staticDrums().begin() + long( i ) ); r.sc.rounds.erase( r.sc.rounds.begin() + long( i ) ); } } ); }
  if( int( r.sc.planes.size() ) < PLANES ) { e.push_back( Edit{ "plane", []( Sim& s, Ref& r ) { Plane p = planeNo( int( r.sc.planes.size() + r.sc.b.size() ) % 3 ); s.state().staticPlanes().emplace_back( p.x, p.n ); r.sc.planes.push_back( p ); } } ); }
  for( size_t i = 0; i < r.sc.planes.size(); ++i ) { e.push_back( Edit{ "noplane" + std::to_string( i ), [i]( Sim& s, Ref& r ) { s.state().staticPlanes().erase( s.state().staticPlanes().begin() + long( i ) ); r.sc.planes.erase( r.sc.planes.begin() + long( i ) ); } } ); }
  if( !r.sc.b.empty() )
  {
    e.push_back( Edit{ "remass", []( Sim& s, Ref& r ) { VX m( 2 * int( r.sc.b.size() ) ); for( size_t i = 0; i < r.sc.b.size(); ++i ) { r.sc.b[i].m = 3.0 * r.sc.b[i].m + double( i ); m.segment( 2 * int( i ), 2 ).setConstant( r.sc.b[i].m ); } s.state().setMass( m ); } } );
  }
  e.push_back( Edit{ "reload", []( Sim& s, Ref& ) { reload( s ); } } );
  e.push_back( Edit{ "copy", []( Sim& s, Ref& ) { recopy( s ); } } );
  return e;
}
#elif defined(SYS_RB2D)
static constexpr int PLANES = 2, BODIES = 4, SHAPES = 3;
static void dropBodies( Sim& s, Ref& r, const std::vector<unsigned>& idx )
{
  VectorXu v( int( idx.size() ) ); for( size_t i = 0; i < idx.size(); ++i ) { v( int( i ) ) = idx[i]; }
  s.state().removeBodies( v );
  std::set<unsigned> gone( idx.begin(), idx.end() );
  Ref n = r; n.sc.b.clear(); n.uses.clear();
  for( size_t i = 0; i < r.sc.b.size(); ++i ) { if( !gone.count( unsigned( i ) ) ) { n.sc.b.push_back( r.sc.b[i] ); n.uses.push_back( r.uses[i] ); } }
  r = n;
}
static void dropShapes( Sim& s, Ref& r, const std::vector<unsigned>& idx )
{
  VectorXu v( int( idx.size() ) ); for( size_t i = 0; i < idx.size(); ++i ) { v( int( i ) ) = idx[i]; }
  s.state().removeGeometry( v );
  std::set<unsigned> gone( idx.begin(), idx.end() );
  std::vector<int> to( r.shapes.size(), -1 ); std::vector<Shape> left;
  for( size_t i = 0; i < r.shapes.size(); ++i ) { if( !gone.count( unsigned( i ) ) ) { to[i] = int( left.size() ); left.push_back( r.shapes[i] ); } }
  r.shapes = left;
  for( int& u : r.uses ) { u = to[size_t( u )]; }
}
static void addBody( Sim& s, Ref& r, int t, unsigned g )
{
  Body b = bodyNo( t ); b.x( 1 ) += 0.3125 * r.serial++;
  const double rho = 0.5 + t;
  const Shape& sh = r.shapes[g];
  b.kind = sh.kind; b.dim = sh.dim;
  if( sh.kind == 'c' ) { b.m = rho * PIV * sh.dim[0] * sh.dim[0]; b.I = 0.5 * b.m * sh.dim[0] * sh.dim[0]; }
  else { b.m = rho * 4.0 * sh.dim[0] * sh.dim[1]; b.I = b.m * ( sh.dim[0] * sh.dim[0] + sh.dim[1] * sh.dim[1] ) / 3.0; }
  s.state().addBody( b.x, b.rot[0], b.v, b.w[0], rho, g, b.fixed );
  r.sc.b.push_back( b ); r.uses.push_back( int( g ) );
}
static std::vector<Edit> edits( const Ref& r )
{
  std::vector<Edit> e;
  const unsigned n = unsigned( r.sc.b.size() ), g = unsigned( r.shapes.size() );
  if( g < unsigned( SHAPES ) ) { e.push_back( Edit{ "shape", []( Sim& s, Ref& r ) { const double d = 0.25 + 0.125 * double( r.sc.b.size() ) + 0.5 * double( r.shapes.size() ); s.state().addCircleGeometry( d ); r.shapes.push_back( Shape{ 'c', { { d, 1, 1 } } } ); } } ); }
  if( n < unsigned( BODIES ) ) { for( unsigned k = 0; k < g; ++k ) { const int t = int( ( n + k ) % 3 ); e.push_back( Edit{ "add" + std::to_string( t ) + "@" + std::to_string( k ), [t,k]( Sim& s, Ref& r ) { addBody( s, r, t, k ); } } ); } }
  for( unsigned m = 1; m < ( 1u << n ); ++m )
  {
    std::vector<unsigned> idx; for( unsigned i = 0; i < n; ++i ) { if( m >> i & 1u ) { idx.push_back( i ); } }
    e.push_back( Edit{ "drop" + vp::str( idx ), [idx]( Sim& s, Ref& r ) { dropBodies( s, r, idx ); } } );
    if( idx.size() == 2 ) { std::vector<unsigned> rev( { idx[1], idx[0], idx[1] } ); e.push_back( Edit{ "drop" + vp::str( rev ), [rev]( Sim& s, Ref& r ) { dropBodies( s, r, rev ); } } ); }
  }
  std::vector<unsigned> unused; for( unsigned k = 0; k < g; ++k ) { if( std::find( r.uses.begin(), r.uses.end(), int( k ) ) == r.uses.end() ) { unused.push_back( k ); } }
  for( unsigned m = 1; m < ( 1u << unused.size() ); ++m )
  {
    std::vector<unsigned> idx; for( unsigned i = 0; i < unused.size(); ++i ) { if( m >> i & 1u ) { idx.push_back( unused[i] ); } }
    e.push_back( Edit{ "unshape" + vp::str( idx ), [idx]( Sim& s, Ref& r ) { dropShapes( s, r, idx ); } } );
    if( idx.size() == 2 ) { std::vector<unsigned> rev( { idx[1], idx[0] } ); e.push_back( Edit{ "unshape" + vp::str( rev ), [rev]( Sim& s, Ref& r ) { dropShapes( s, r, rev ); } } ); }
  }
  e.push_back( Edit{ "dropnone", []( Sim& s, Ref& r ) { dropBodies( s, r, {} ); dropShapes( s, r, {} ); } } );
  if( r.sc.planes.size() < size_t( PLANES ) ) { e.push_back( Edit{ "plane", []( Sim& s, Ref& r ) { Plane p = planeNo( int( r.sc.planes.size() + r.sc.b.size() ) % 3 ); s.state().planes().emplace_back( p.x, p.n ); r.sc.planes.push_back( p ); } } ); }
  for( size_t i = 0; i < r.sc.planes.size(); ++i ) { e.push_back( Edit{ "noplane" + std::to_string( i ), [i]( Sim& s, Ref& r ) { s.state().planes().erase( s.state().planes().begin() + long( i ) ); r.sc.planes.erase( r.sc.planes.begin() + long( i ) ); } } ); }
  e.push_back( Edit{ "reload", []( Sim& s, Ref& ) { reload( s ); } } );
  e.push_back( Edit{ "copy", []( Sim& s, Ref& ) { recopy( s ); } } );
  return e;
}
#else
static constexpr int PLANES = 3, ROUNDS = 2;
// 3D bodies are given all at once; each edit gives the state a new list of bodies
static void setBodies( Sim& s, Ref& r, const std::vector<int>& types, bool shared )
{
  r.sc.b.clear(); r.uses.clear(); r.shapes.clear();
  std::vector<Vector3s> X, V, W, I0; std::vector<scalar> M; std::vector<VectorXs> R; std::vector<bool> fixed; std::vector<unsigned> gi;
  std::vector<std::unique_ptr<RigidBodyGeometry>> geo;
  if( shared ) { for( int t = 0; t < 3; ++t ) { r.shapes.push_back( t == 2 ? Shape{ 'b', { { 0.5, 0.25, 0.75 } } } : Shape{ 'c', { { 0.25 + 0.5 * t, 1, 1 } } } ); } }
  for( size_t i = 0; i < types.size(); ++i )
  {
    const int t = types[i];
    Body b = bodyNo( t ); b.x( 0 ) += 4.0 * double( i ); b.m = 1.1 + t + double( i ); b.I = 0.6 + t;
    if( b.fixed ) { b.v.setZero(); b.w = { { 0, 0, 0 } }; }
    b.kind = t == 2 ? 'b' : 'c'; if( t == 2 ) { b.dim = { { 0.5, 0.25, 0.75 } }; } else { b.dim[0] = 0.25 + 0.5 * t; }
    if( shared ) { r.uses.push_back( t ); } else { r.uses.push_back( int( types.size() - 1 - i ) ); }
    r.sc.b.push_back( b );
    const Eigen::Matrix3d Rm = rotation( b.rot );
    VectorXs rr( 9 ); for( int a = 0; a < 3; ++a ) { for( int c = 0; c < 3; ++c ) { rr( 3 * a + c ) = Rm( a, c ); } }
    X.push_back( b.x ); V.push_back( b.v ); W.push_back( Vector3s( b.w[0], b.w[1], b.w[2] ) ); M.push_back( b.m ); R.push_back( rr ); I0.push_back( inertia0( b ) ); fixed.push_back( b.fixed ); gi.push_back( unsigned( r.uses.back() ) );
  }
  if( !shared ) { for( size_t i = types.size(); i-- > 0; ) { r.shapes.push_back( Shape{ r.sc.b[i].kind, r.sc.b[i].dim } ); } }
  for( const Shape& sh : r.shapes ) { if( sh.kind == 'b' ) { geo.emplace_back( new RigidBodyBox( Vector3s( sh.dim[0], sh.dim[1], sh.dim[2] ) ) ); } else { geo.emplace_back( new RigidBodySphere( sh.dim[0] ) ); } }
  s.state().setState( X, V, M, R, W, I0, fixed, gi, geo );
}
static std::vector<Edit> edits( const Ref& r )
{
  std::vector<Edit> e;
  static const std::vector<std::vector<int>> lists = { {}, { 0 }, { 1 }, { 2 }, { 0, 1 }, { 2, 0 }, { 1, 2, 0 }, { 2, 2, 1, 0 } };
  for( const auto& l : lists ) { for( int sh = 0; sh < 2; ++sh ) { e.push_back( Edit{ "bodies" + vp::str( l ) + ( sh ? "shared" : "" ), [l,sh]( Sim& s, Ref& r ) { setBodies( s, r, l, sh == 1 ); } } ); } }
  if( r.sc.planes.size() < size_t( PLANES ) ) { e.push_back( Edit{ "plane", []( Sim& s, Ref& r ) { Plane p = planeNo( int( r.sc.planes.size() + r.sc.b.size() ) % 3 ); s.state().addStaticPlane( StaticPlane( p.x, p.n ) ); r.sc.planes.push_back( p ); } } ); }
  for( size_t i = 0; i < r.sc.planes.size(); ++i ) { e.push_back( Edit{ "noplane" + std::to_string( i ), [i]( Sim& s, Ref& r ) { s.state().deleteStaticPlane( i ); r.sc.planes.erase( r.sc.planes.begin() + long( i ) ); } } ); }
  if( r.sc.rounds.size() < size_t( ROUNDS ) ) { e.push_back( Edit{ "cylinder", []( Sim& s, Ref& r ) { Round c; c.x = vd( 0.5, 0, 0.25 * double( r.sc.rounds.size() ) ); c.axis = vd( 0, 0, 1 ); c.r = 20.1 + double( r.sc.rounds.size() ); s.state().addStaticCylinder( StaticCylinder( c.x, c.axis, c.r ) ); r.sc.rounds.push_back( c ); } } ); }
  if( !r.sc.b.empty() ) { e.push_back( Edit{ "turn", []( Sim& s, Ref& r )
  {
    // New orientations, then the mass matrices are brought up to date
    const int n = int( r.sc.b.size() );
    for( int i = 0; i < n; ++i )
    {
      Body& b = r.sc.b[size_t( i )]; b.rot = { { b.rot[1] + 0.5, 0.25 * i, b.rot[0] - 1.0 } };
      const Eigen::Matrix3d Rm = rotation( b.rot );
      for( int a = 0; a < 3; ++a ) { for( int c = 0; c < 3; ++c ) { q( s )( 3 * n + 9 * i + 3 * a + c ) = Rm( a, c ); } }
    }
    s.state().updateMandMinv();
  } } ); }
  e.push_back( Edit{ "reload", []( Sim& s, Ref& ) { reload( s ); } } );
  e.push_back( Edit{ "copy", []( Sim& s, Ref& ) { recopy( s ); } } );
  return e;
}
#endif

static void explore( Sim& sim, const Ref& ref, int depth, const std::string& trail )
{
  compare( sim, ref );
  if( depth == 0 ) { return; }
  for( const Edit& e : edits( ref ) )
  {
    Sim s( sim ); Ref r = ref;
    const std::string t = trail + " " + e.name;
    vp::note( t );
    const std::string before = image( sim );
    e.run( s, r );
    vp::transition();
    VP_CHECK( image( sim ) == before, "editing a copy changed the original" );
    try { explore( s, r, depth - 1, t ); }
    catch( const vp::Failure& f ) { if( f.msg.find( "after" ) == 0 ) { throw; } vp::fail( "after" + t + ": " + f.msg + " :: reference " + showRef( r ) ); }
  }
}

static void family( const std::string& name, const std::function<Sim()>& start, const Ref& ref, int depth )
{
  // One case per pair of first edits
  for( const Edit& e1 : edits( ref ) )
  {
    Sim probe = start(); Ref r1 = ref;
    if( depth < 2 ) { vp::runCase( [&] { return name + " " + e1.name; }, [&] { Sim s = start(); Ref r = ref; e1.run( s, r ); explore( s, r, 0, " " + e1.name ); } ); continue; }
    e1.run( probe, r1 );
    const size_t k = edits( r1 ).size();
    for( size_t j = 0; j < k; ++j )
    {
      const std::string n2 = edits( r1 )[j].name;
      vp::runCase( [&] { return name + " " + e1.name + " " + n2; }, [&]
      {
        Sim s = start(); Ref r = ref;
        compare( s, r );
        e1.run( s, r ); compare( s, r );
        const Edit e2 = edits( r )[j];
        e2.run( s, r ); vp::transition( 2 );
        explore( s, r, depth - 2, " " + e1.name + " " + e2.name );
      } );
    }
  }
}

// Long lists: every way of thinning them out in a menu, then going on
static void crowds()
{
  for( int n : { 9, 17, 33, 65, 130 } ) { for( int pat = 0; pat < 6; ++pat )
  {
    vp::runCase( [&] { return "list of " + std::to_string( n ) + ", removal pattern " + std::to_string( pat ); }, [&]
    {
      Ref r; r.sc.gravity = true; r.sc.g = vd( 0.6, -2.1, D > 2 ? 1.1 : 0 );
      std::vector<unsigned> gone;
      for( int i = 0; i < n; ++i ) { if( pat == 0 ? i % 2 == 0 : pat == 1 ? i % 3 != 1 : pat == 2 ? i < n / 2 : pat == 3 ? i != n - 2 : pat == 4 ? i == 1 : i % 7 == 6 ) { gone.push_back( unsigned( i ) ); } }
#if defined(SYS_RB2D)
      for( int i = 0; i < n; ++i )
      {
        Body b = bodyNo( i % 5 ); b.x = vd( 3.0 * i, 0.5 * i ); b.fixed = i % 3 == 1; b.kind = i % 2 ? 'b' : 'c'; b.dim = { { 0.25 + 0.03125 * i, 0.5, 1 } }; b.m = 1.1 + i; b.I = 2.3 + 3 * i;
        if( b.kind == 'b' ) { b.fixed = false; }
        r.sc.b.push_back( b ); r.shapes.push_back( Shape{ b.kind, b.dim } ); r.uses.push_back( i );
      }
      Sim s = build( r.sc );
      compare( s, r );
      dropBodies( s, r, gone ); compare( s, r );
      dropShapes( s, r, gone ); compare( s, r );
      for( int i = 0; i < n / 2; ++i ) { addBody( s, r, i % 3, unsigned( ( i * 5 ) % int( r.shapes.size() ) ) ); }
      compare( s, r );
      for( int i = 0; i < n; ++i ) { Plane p = planeNo( i % 3 ); p.x( 0 ) += i; s.state().planes().emplace_back( p.x, p.n ); r.sc.planes.push_back( p ); }
      compare( s, r );
      std::vector<unsigned> again; for( unsigned i = 0; i < unsigned( r.sc.b.size() ); i += 3 ) { again.push_back( i ); }
      dropBodies( s, r, again ); compare( s, r );
#elif defined(SYS_BALL2D)
      Sim s = build( r.sc );
      for( int i = 0; i < n; ++i )
      {
        Body b = bodyNo( i % 3 ); b.x = vd( 3.0 * i, 0.5 * i ); b.rot[0] = 0; b.w[0] = 0; b.dim[0] = 0.25 + 0.03125 * i; b.m = 1.1 + i;
        s.state().pushBallBack( b.x, b.v, b.dim[0], b.m, b.fixed ); r.sc.b.push_back( b );
        Plane p = planeNo( i % 3 ); p.x( 0 ) += i; s.state().staticPlanes().emplace_back( p.x, p.n ); r.sc.planes.push_back( p );
        Round d; d.x = vd( 0.5 * i, 1.0 ); d.r = 20.1 + i; s.state().staticDrums().emplace_back( d.x, d.r ); r.sc.rounds.push_back( d );
        if( i % 8 == 0 ) { compare( s, r ); }
      }
      compare( s, r );
      for( size_t k = gone.size(); k-- > 0; )
      {
        s.state().staticDrums().erase( s.state().staticDrums().begin() + long( gone[k] ) ); r.sc.rounds.erase( r.sc.rounds.begin() + long( gone[k] ) );
        s.state().staticPlanes().erase( s.state().staticPlanes().begin() + long( gone[k] ) ); r.sc.planes.erase( r.sc.planes.begin() + long( gone[k] ) );
      }
      compare( s, r );
#else
      for( int shared = 0; shared < 2; ++shared )
      {
        Sim s = build( r.sc );
        std::vector<int> types; for( int i = 0; i < n; ++i ) { types.push_back( ( i * i + pat ) % 3 ); }
        setBodies( s, r, types, shared == 1 ); compare( s, r );
        for( const Edit& e : edits( r ) ) { if( e.name == "turn" ) { e.run( s, r ); break; } }
        compare( s, r );
        for( int i = 0; i < n; ++i ) { Plane p = planeNo( i % 3 ); p.x( 0 ) += i; s.state().addStaticPlane( StaticPlane( p.x, p.n ) ); r.sc.planes.push_back( p ); }
        compare( s, r );
        for( size_t k = gone.size(); k-- > 0; ) { s.state().deleteStaticPlane( gone[k] ); r.sc.planes.erase( r.sc.planes.begin() + long( gone[k] ) ); }
        compare( s, r );
        std::vector<int> fewer; for( int i = 0; i < n / 2; ++i ) { fewer.push_back( i % 3 ); }
        setBodies( s, r, fewer, shared == 0 ); compare( s, r );
        recopy( s ); compare( s, r ); reload( s ); compare( s, r );
        r = Ref(); r.sc.gravity = true; r.sc.g = vd( 0.6, -2.1, D > 2 ? 1.1 : 0 );
      }
      vp::transition( 4 ); vp::outcome( "long lists" );
      return;
#endif
#if !defined(SYS_RB3D)
      recopy( s ); compare( s, r ); reload( s ); compare( s, r );
      vp::transition( 6 ); vp::outcome( "long lists" );
#endif
    } );
  } }
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  const bool T = vp::thorough();
  Ref empty;
  empty.sc.gravity = true; empty.sc.g = vd( 0.6, -2.1, D > 2 ? 1.1 : 0 );
#if defined(SYS_RB3D)
  const int depth = T ? 5 : 4;
#elif defined(SYS_BALL2D)
  const int depth = T ? 8 : 6;
#else
  const int depth = T ? 8 : 6;
#endif
  auto begin = [&]() -> Sim { return build( empty.sc ); };
  family( "empty", begin, empty, depth );
#if defined(SYS_RB2D)
  // Scenes with more bodies and boxes, removing every subset, then going on
  for( int k = 1; k <= 5; ++k )
  {
    for( int pat = 0; pat < 4; ++pat )
    {
      Ref r = empty;
      for( int i = 0; i < k; ++i )
      {
        Body b = bodyNo( i % 3 ); b.x( 0 ) += 0.5 * i + 0.03125; b.fixed = ( pat >> ( i % 2 ) ) & 1; b.kind = pat == 2 && i % 2 ? 'b' : 'c'; b.dim = { { 0.25 + 0.125 * i, 0.5, 1 } }; b.m = 1.1 + i; b.I = 2.3 + 3 * i;
        if( b.kind == 'b' ) { b.fixed = false; }
        if( pat == 2 ) { b.x = vd( 3.0 * i, 0.5 * i ); }
        r.sc.b.push_back( b ); r.shapes.push_back( Shape{ b.kind, b.dim } ); r.uses.push_back( i );
      }
      family( "start " + std::to_string( k ) + "/" + std::to_string( pat ), [r]() -> Sim { return build( r.sc ); }, r, k <= 3 ? ( T ? 4 : 3 ) : 2 );
    }
  }
#endif
  crowds();
  return vp::finish();
}
