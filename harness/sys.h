// One vocabulary for scenes in the three simulators (-DSYS_BALL2D, -DSYS_RB2D, -DSYS_RB3D).
#ifndef SYS_H
#define SYS_H
#include <cassert>
#include <memory>
#include <tuple>
#include <array>
#include "vp.h"
#include "scisim/Math/MathDefines.h"
#include "scisim/Math/Rational.h"
#include "scisim/Math/MathUtilities.h"
#include "scisim/Utilities.h"
#include "scisim/StringUtilities.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#include "scisim/UnconstrainedMaps/FlowableSystem.h"
#include "scisim/Constraints/ConstrainedSystem.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/FrictionSolver.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
#include "scisim/ConstrainedMaps/GRRFriction.h"
#include "scisim/ConstrainedMaps/ImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"

namespace sys
{
#if defined(SYS_BALL2D)
constexpr int D = 2, AD = 0;
#elif defined(SYS_RB2D)
constexpr int D = 2, AD = 1;
#else
constexpr int D = 3, AD = 3;
#endif
using VD = Eigen::Matrix<double,D,1>;
using VX = Eigen::VectorXd;
using MX = Eigen::MatrixXd;
using Dt = Rational<std::intmax_t>;
using Cons = std::vector<std::unique_ptr<Constraint>>;

struct Body
{
  VD x = VD::Zero();
  std::array<double,3> rot{ { 0, 0, 0 } };   // 2D: angle in [0]; 3D: axis times angle
  VD v = VD::Zero();
  std::array<double,3> w{ { 0, 0, 0 } };
  char kind = 'c';                           // c: disc / ball, b: box, m: box-shaped triangle mesh (3D, half widths in decreasing order)
  std::array<double,3> dim{ { 1, 1, 1 } };   // radius or half widths
  double m = 1.0;                            // mass
  double I = 1.0;                            // 2D: moment; 3D: scale of the (diagonal) body inertia
  std::array<double,3> I3{ { 0, 0, 0 } };    // 3D: if set, the body inertia itself
  bool fixed = false;
};
struct Plane { VD x = VD::Zero(), n = VD::Zero(), v = VD::Zero(); std::array<double,3> w{ { 0, 0, 0 } }; };
struct Round { VD x = VD::Zero(), axis = VD::Zero(); double r = 1.0; double w = 0.0; };   // drum / cylinder
struct Portal { VD xa, na, xb, nb; double speed = 0.0, bounds = 0.0; bool sliding = false; };
struct Scene
{
  std::vector<Body> b;
  std::vector<Plane> planes;
  std::vector<Round> rounds;
  std::vector<Portal> portals;
  bool gravity = false; VD g = VD::Zero();
  bool gravity2 = false; VD g2 = VD::Zero();   // a second, independent gravity force
  bool penalty = false; double pk = 0.0, pp = 2.0;
};

inline VD vd( double x, double y, double z = 0.0 ) { VD r; r( 0 ) = x; r( 1 ) = y; if( D > 2 ) { r( D - 1 ) = z; } return r; }
inline VD unitAngle( double t ) { return vd( std::cos( t ), std::sin( t ) ); }

inline std::string show( const Scene& s )
{
  std::ostringstream o; o.precision( 17 );
  for( const Body& b : s.b )
  {
    o << "body{" << b.kind << " x=" << vp::vstr( b.x ) << " rot=" << b.rot[0] << "," << b.rot[1] << "," << b.rot[2] << " v=" << vp::vstr( b.v ) << " w=" << b.w[0] << "," << b.w[1] << "," << b.w[2]
      << " dim=" << b.dim[0] << "," << b.dim[1] << "," << b.dim[2] << " m=" << b.m << " I=" << b.I << ( b.fixed ? " fixed" : "" ) << "} ";
  }
  for( const Plane& p : s.planes ) { o << "plane{x=" << vp::vstr( p.x ) << " n=" << vp::vstr( p.n ) << " v=" << vp::vstr( p.v ) << " w=" << p.w[0] << "," << p.w[1] << "," << p.w[2] << "} "; }
  for( const Round& r : s.rounds ) { o << "drum{x=" << vp::vstr( r.x ) << " axis=" << vp::vstr( r.axis ) << " r=" << r.r << " w=" << r.w << "} "; }
  for( const Portal& p : s.portals ) { o << "portal{A " << vp::vstr( p.xa ) << "," << vp::vstr( p.na ) << " B " << vp::vstr( p.xb ) << "," << vp::vstr( p.nb ) << " speed=" << p.speed << " bounds=" << p.bounds << "} "; }
  if( s.gravity ) { o << "g=" << vp::vstr( s.g ) << " "; }
  if( s.gravity2 ) { o << "g2=" << vp::vstr( s.g2 ) << " "; }
  if( s.penalty ) { o << "penalty k=" << s.pk << " p=" << s.pp << " "; }
  return o.str();
}
}

#if defined(SYS_BALL2D)
#include "ball2d/Ball2DSim.h"
#include "ball2d/Ball2DState.h"
#include "ball2d/PythonScripting.h"
#include "ball2d/SymplecticEulerMap.h"
#include "ball2d/VerletMap.h"
#include "ball2d/Forces/Ball2DGravityForce.h"
#include "ball2d/Forces/PenaltyForce.h"
#include "ball2d/StaticGeometry/StaticDrum.h"
#include "ball2d/StaticGeometry/StaticPlane.h"
#include "ball2d/Portals/PlanarPortal.h"
namespace sys
{
using Sim = Ball2DSim;
inline VX& q( Sim& s ) { return s.state().q(); }
inline VX& v( Sim& s ) { return s.state().v(); }
inline int nb( const VX& v ) { return int( v.size() ) / 2; }
inline VD pos( const VX& q, int i ) { return q.segment<2>( 2 * i ); }
inline VD lin( const VX& v, int i ) { return v.segment<2>( 2 * i ); }
inline VX ang( const VX&, int ) { return VX( 0 ); }
inline void setLin( VX& v, int i, const VD& x ) { v.segment<2>( 2 * i ) = x; }
inline void setPos( VX& q, int i, const VD& x ) { q.segment<2>( 2 * i ) = x; }
inline void setAng( VX&, int, const VX& ) {}
inline VD spin( const VX&, const VD& ) { return VD::Zero(); }
inline double massOf( Sim& s, int i ) { return s.state().M().coeff( 2 * i, 2 * i ); }
inline Sim build( const Scene& sc )
{
  Sim sim;
  Ball2DState& st = sim.state();
  const int n = int( sc.b.size() );
  st.q().resize( 2 * n ); st.v().resize( 2 * n ); st.r().resize( n ); st.fixed().resize( n );
  VX m( 2 * n );
  for( int i = 0; i < n; ++i )
  {
    st.q().segment<2>( 2 * i ) = sc.b[i].x; st.v().segment<2>( 2 * i ) = sc.b[i].v; st.r()( i ) = sc.b[i].dim[0];
    m.segment<2>( 2 * i ).setConstant( sc.b[i].m ); st.fixed()[i] = sc.b[i].fixed;
  }
  st.setMass( m );
  for( const Plane& p : sc.planes ) { StaticPlane sp( p.x, p.n ); sp.v() = p.v; st.staticPlanes().push_back( sp ); }
  for( const Round& r : sc.rounds ) { st.staticDrums().emplace_back( r.x, r.r ); }
  for( const Portal& p : sc.portals ) { st.planarPortals().emplace_back( StaticPlane( p.xa, p.na ), StaticPlane( p.xb, p.nb ), p.speed, p.bounds ); }
  if( sc.gravity ) { st.forces().emplace_back( new Ball2DGravityForce( sc.g ) ); }
  if( sc.gravity2 ) { st.forces().emplace_back( new Ball2DGravityForce( sc.g2 ) ); }
  if( sc.penalty ) { st.forces().emplace_back( new PenaltyForce( sc.pk, sc.pp ) ); }
  return sim;
}
constexpr int NUMAPS = 2;
inline const char* umapName( int i ) { return i == 0 ? "symplectic_euler" : "verlet"; }
inline std::unique_ptr<UnconstrainedMap> umap( int i ) { if( i == 0 ) { return std::unique_ptr<UnconstrainedMap>( new SymplecticEulerMap ); } return std::unique_ptr<UnconstrainedMap>( new VerletMap ); }
}
#elif defined(SYS_RB2D)
#include "rigidbody2d/RigidBody2DSim.h"
#include "rigidbody2d/RigidBody2DState.h"
#include "rigidbody2d/PythonScripting.h"
#include "rigidbody2d/SymplecticEulerMap.h"
#include "rigidbody2d/VerletMap.h"
#include "rigidbody2d/CircleGeometry.h"
#include "rigidbody2d/BoxGeometry.h"
#include "rigidbody2d/NearEarthGravityForce.h"
#include "rigidbody2d/RigidBody2DStaticPlane.h"
#include "rigidbody2d/PlanarPortal.h"
namespace sys
{
using Sim = RigidBody2DSim;
inline VX& q( Sim& s ) { return s.state().q(); }
inline VX& v( Sim& s ) { return s.state().v(); }
inline int nb( const VX& v ) { return int( v.size() ) / 3; }
inline VD pos( const VX& q, int i ) { return q.segment<2>( 3 * i ); }
inline VD lin( const VX& v, int i ) { return v.segment<2>( 3 * i ); }
inline VX ang( const VX& v, int i ) { return v.segment<1>( 3 * i + 2 ); }
inline void setLin( VX& v, int i, const VD& x ) { v.segment<2>( 3 * i ) = x; }
inline void setPos( VX& q, int i, const VD& x ) { q.segment<2>( 3 * i ) = x; }
inline void setAng( VX& v, int i, const VX& w ) { v( 3 * i + 2 ) = w( 0 ); }
inline VD spin( const VX& w, const VD& r ) { return VD( -w( 0 ) * r( 1 ), w( 0 ) * r( 0 ) ); }
inline double massOf( Sim& s, int i ) { return s.state().m( unsigned( i ) ); }
inline Sim build( const Scene& sc )
{
  const int n = int( sc.b.size() );
  VX q0( 3 * n ), v0( 3 * n ), m( 3 * n );
  std::vector<bool> fixed( n );
  VectorXu gi( n );
  std::vector<std::unique_ptr<RigidBody2DGeometry>> geo;
  for( int i = 0; i < n; ++i )
  {
    const Body& b = sc.b[i];
    q0.segment<2>( 3 * i ) = b.x; q0( 3 * i + 2 ) = b.rot[0];
    v0.segment<2>( 3 * i ) = b.v; v0( 3 * i + 2 ) = b.w[0];
    m( 3 * i ) = b.m; m( 3 * i + 1 ) = b.m; m( 3 * i + 2 ) = b.I;
    fixed[i] = b.fixed; gi( i ) = unsigned( i );
    if( b.kind == 'b' ) { geo.emplace_back( new BoxGeometry( Vector2s( b.dim[0], b.dim[1] ) ) ); }
    else { geo.emplace_back( new CircleGeometry( b.dim[0] ) ); }
  }
  std::vector<std::unique_ptr<RigidBody2DForce>> forces;
  if( sc.gravity ) { forces.emplace_back( new NearEarthGravityForce( sc.g ) ); }
  if( sc.gravity2 ) { forces.emplace_back( new NearEarthGravityForce( sc.g2 ) ); }
  std::vector<RigidBody2DStaticPlane> planes;
  for( const Plane& p : sc.planes ) { RigidBody2DStaticPlane sp( p.x, p.n ); sp.setV( p.v ); sp.setOmega( p.w[0] ); planes.push_back( sp ); }
  std::vector<PlanarPortal> portals;
  for( const Portal& p : sc.portals )
  {
    const RigidBody2DStaticPlane a( p.xa, p.na ), b( p.xb, p.nb );
    if( p.sliding ) { portals.emplace_back( a, b, p.speed, p.bounds ); } else { portals.emplace_back( a, b ); }
  }
  Sim sim;
  sim.state() = RigidBody2DState( q0, v0, m, fixed, gi, geo, forces, planes, portals );
  return sim;
}
constexpr int NUMAPS = 2;
inline const char* umapName( int i ) { return i == 0 ? "symplectic_euler" : "verlet"; }
inline std::unique_ptr<UnconstrainedMap> umap( int i ) { if( i == 0 ) { return std::unique_ptr<UnconstrainedMap>( new SymplecticEulerMap ); } return std::unique_ptr<UnconstrainedMap>( new VerletMap ); }
}
#else
#include "rigidbody3d/RigidBody3DSim.h"
#include "rigidbody3d/RigidBody3DState.h"
#include "rigidbody3d/PythonScripting.h"
#include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
#include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
#include "rigidbody3d/Geometry/RigidBodySphere.h"
#include "rigidbody3d/Geometry/RigidBodyBox.h"
#include "rigidbody3d/Geometry/RigidBodyStaple.h"
#include "rigidbody3d/Geometry/RigidBodyTriangleMesh.h"
#include "rigidbody3d/Forces/NearEarthGravityForce.h"
#include "rigidbody3d/StaticGeometry/StaticPlane.h"
#include "rigidbody3d/StaticGeometry/StaticCylinder.h"
#include "rigidbody3d/Portals/PlanarPortal.h"
namespace sys
{
using Sim = RigidBody3DSim;
inline VX& q( Sim& s ) { return s.state().q(); }
inline VX& v( Sim& s ) { return s.state().v(); }
inline int nb( const VX& v ) { return int( v.size() ) / 6; }
inline VD pos( const VX& q, int i ) { return q.segment<3>( 3 * i ); }
inline VD lin( const VX& v, int i ) { return v.segment<3>( 3 * i ); }
inline VX ang( const VX& v, int i ) { return v.segment<3>( v.size() / 2 + 3 * i ); }
inline void setLin( VX& v, int i, const VD& x ) { v.segment<3>( 3 * i ) = x; }
inline void setPos( VX& q, int i, const VD& x ) { q.segment<3>( 3 * i ) = x; }
inline void setAng( VX& v, int i, const VX& w ) { v.segment<3>( v.size() / 2 + 3 * i ) = w; }
inline VD spin( const VX& w, const VD& r ) { return VD( w( 1 ) * r( 2 ) - w( 2 ) * r( 1 ), w( 2 ) * r( 0 ) - w( 0 ) * r( 2 ), w( 0 ) * r( 1 ) - w( 1 ) * r( 0 ) ); }
inline double massOf( Sim& s, int i ) { return s.state().getTotalMass( unsigned( i ) ); }
inline Eigen::Matrix3d rotOf( const VX& q, int i )
{
  const int n = int( q.size() ) / 12;
  Eigen::Matrix3d R;
  for( int r = 0; r < 3; ++r ) { for( int c = 0; c < 3; ++c ) { R( r, c ) = q( 3 * n + 9 * i + 3 * r + c ); } }
  return R;
}
inline Eigen::Matrix3d rotation( const std::array<double,3>& a )
{
  const Eigen::Vector3d w( a[0], a[1], a[2] );
  const double t = w.norm();
  if( t == 0.0 ) { return Eigen::Matrix3d::Identity(); }
  return Eigen::AngleAxisd( t, w / t ).toRotationMatrix();
}
// Body-frame principal inertia of a scene body: an asymmetric one for boxes, isotropic for balls
inline Eigen::Vector3d inertia0( const Body& b ) { if( b.I3[0] > 0.0 ) { return Eigen::Vector3d( b.I3[0], b.I3[1], b.I3[2] ); } return b.kind != 'c' ? Eigen::Vector3d( b.I, 1.5 * b.I, 2.0 * b.I ) : Eigen::Vector3d( b.I, b.I, b.I ); }
// A box as a triangle mesh: surface samples at corners, edge and face centres; distance field on a grid whose
// cells are aligned with the faces, so that its interior is exactly the box.
constexpr int MESH_CELLS[3] = { 4, 6, 2 };     // different along the axes, and so is the padding on both sides
constexpr int MESH_PAD[3] = { 1, 2, 3 }, MESH_PAD_END[3] = { 2, 1, 1 };
inline std::vector<Eigen::Vector3d> meshSamples( const std::array<double,3>& h )
{
  std::vector<Eigen::Vector3d> s;
  for( int i = -1; i <= 1; ++i ) { for( int j = -1; j <= 1; ++j ) { for( int k = -1; k <= 1; ++k ) { if( i || j || k ) { s.emplace_back( i * h[0], j * h[1], k * h[2] ); } } } }
  return s;
}
inline double boxDistance( const std::array<double,3>& h, const Eigen::Vector3d& x )
{
  const Eigen::Vector3d d( std::abs( x( 0 ) ) - h[0], std::abs( x( 1 ) ) - h[1], std::abs( x( 2 ) ) - h[2] );
  return d.cwiseMax( 0.0 ).norm() + std::min( 0.0, d.maxCoeff() );
}
// The distance field of a mesh as the interpolation of its grid, at a point of the body's frame, with its gradient;
// clear: the point is away from the borders between cells
inline double meshField( const std::array<double,3>& h, const Eigen::Vector3d& x, Eigen::Vector3d& grad, bool& clear )
{
  clear = true;
  int c[3]; double t[3], w[3];
  for( int k = 0; k < 3; ++k )
  {
    const int cells = MESH_CELLS[k] + MESH_PAD[k] + MESH_PAD_END[k];
    w[k] = 2.0 * h[size_t( k )] / MESH_CELLS[k];
    const double u = ( x( k ) + h[size_t( k )] ) / w[k] + MESH_PAD[k];
    if( u < 0.0 || u > cells ) { grad.setZero(); return 1.0; }
    c[k] = std::min( cells - 1, int( std::floor( u ) ) ); t[k] = u - c[k];
    if( std::fabs( u - std::round( u ) ) < 1.0e-7 ) { clear = false; }
  }
  auto node = [&]( int i, int j, int k ) { return boxDistance( h, Eigen::Vector3d( -h[0] + ( c[0] + i - MESH_PAD[0] ) * w[0], -h[1] + ( c[1] + j - MESH_PAD[1] ) * w[1], -h[2] + ( c[2] + k - MESH_PAD[2] ) * w[2] ) ); };
  auto at = [&]( double a, double b, double d )
  {
    double s = 0.0;
    for( int i = 0; i < 8; ++i ) { s += ( i & 1 ? a : 1 - a ) * ( i & 2 ? b : 1 - b ) * ( i & 4 ? d : 1 - d ) * node( i & 1, ( i >> 1 ) & 1, ( i >> 2 ) & 1 ); }
    return s;
  };
  grad << ( at( 1, t[1], t[2] ) - at( 0, t[1], t[2] ) ) / w[0], ( at( t[0], 1, t[2] ) - at( t[0], 0, t[2] ) ) / w[1], ( at( t[0], t[1], 1 ) - at( t[0], t[1], 0 ) ) / w[2];
  return at( t[0], t[1], t[2] );
}
inline std::string meshBytes( const std::array<double,3>& h )
{
  std::ostringstream o;
  // The eight corners and one vertex in the middle of a face, which is no corner of the hull
  Matrix3Xsc V( 3, 9 ), H( 3, 8 ); Matrix3Xuc F( 3, 14 );
  for( int i = 0; i < 8; ++i ) { V.col( i ) << ( i & 1 ? h[0] : -h[0] ), ( i & 2 ? h[1] : -h[1] ), ( i & 4 ? h[2] : -h[2] ); H.col( 7 - i ) = V.col( i ); }
  V.col( 8 ) << 0.0, 0.0, h[2];
  const unsigned f[14][3] = { { 0, 2, 1 }, { 1, 2, 3 }, { 4, 5, 8 }, { 5, 7, 8 }, { 7, 6, 8 }, { 6, 4, 8 }, { 0, 1, 4 }, { 1, 5, 4 }, { 2, 6, 3 }, { 3, 6, 7 }, { 0, 4, 2 }, { 2, 4, 6 }, { 1, 3, 5 }, { 3, 7, 5 } };
  for( int i = 0; i < 14; ++i ) { F.col( i ) << f[i][0], f[i][1], f[i][2]; }
  const double vol = 8.0 * h[0] * h[1] * h[2];
  const Eigen::Vector3d I = vol / 3.0 * Eigen::Vector3d( h[1] * h[1] + h[2] * h[2], h[0] * h[0] + h[2] * h[2], h[0] * h[0] + h[1] * h[1] );
  const auto smp = meshSamples( h );
  Matrix3Xsc S( 3, int( smp.size() ) ); for( int i = 0; i < int( smp.size() ); ++i ) { S.col( i ) = smp[i]; }
  const Eigen::Vector3d cell( 2.0 * h[0] / MESH_CELLS[0], 2.0 * h[1] / MESH_CELLS[1], 2.0 * h[2] / MESH_CELLS[2] );
  Vector3u nn; Eigen::Vector3d origin, end;
  for( int k = 0; k < 3; ++k ) { nn( k ) = unsigned( MESH_CELLS[k] + MESH_PAD[k] + MESH_PAD_END[k] + 1 ); origin( k ) = -h[size_t( k )] - MESH_PAD[k] * cell( k ); end( k ) = origin( k ) + ( nn( k ) - 1.0 ) * cell( k ); }
  VectorXs sdf( nn( 0 ) * nn( 1 ) * nn( 2 ) );
  for( unsigned k = 0; k < nn( 2 ); ++k ) { for( unsigned j = 0; j < nn( 1 ); ++j ) { for( unsigned i = 0; i < nn( 0 ); ++i ) { sdf( ( k * nn( 1 ) + j ) * nn( 0 ) + i ) = boxDistance( h, origin + Eigen::Vector3d( i * cell( 0 ), j * cell( 1 ), k * cell( 2 ) ) ); } } }
  const std::string name = "mesh.h5";
  StringUtilities::serialize( name, o );
  MathUtilities::serialize( V, o ); MathUtilities::serialize( F, o ); Utilities::serialize( vol, o );
  MathUtilities::serialize( Vector3s( I ), o ); MathUtilities::serialize( Vector3s( Vector3s::Zero() ), o ); MathUtilities::serialize( Matrix3s( Matrix3s::Identity() ), o );
  MathUtilities::serialize( S, o ); MathUtilities::serialize( H, o ); MathUtilities::serialize( Vector3s( cell ), o ); MathUtilities::serialize( nn, o );
  MathUtilities::serialize( Vector3s( origin ), o ); MathUtilities::serialize( sdf, o ); MathUtilities::serialize( Vector3s( end ), o );
  return o.str();
}
inline std::unique_ptr<RigidBodyGeometry> meshGeometry( const std::array<double,3>& h )
{
  std::istringstream in( meshBytes( h ) );
  return std::unique_ptr<RigidBodyGeometry>( new RigidBodyTriangleMesh( in ) );
}
inline Sim build( const Scene& sc )
{
  Sim sim;
  RigidBody3DState& st = sim.state();
  const int n = int( sc.b.size() );
  std::vector<Vector3s> X, V, W, I0; std::vector<scalar> M; std::vector<VectorXs> R; std::vector<bool> fixed; std::vector<unsigned> gi;
  std::vector<std::unique_ptr<RigidBodyGeometry>> geo;
  for( int i = 0; i < n; ++i )
  {
    const Body& b = sc.b[i];
    X.push_back( b.x ); V.push_back( b.v ); W.push_back( Vector3s( b.w[0], b.w[1], b.w[2] ) ); M.push_back( b.m );
    const Eigen::Matrix3d Rm = rotation( b.rot );
    VectorXs r( 9 ); for( int a = 0; a < 3; ++a ) { for( int c = 0; c < 3; ++c ) { r( 3 * a + c ) = Rm( a, c ); } }
    R.push_back( r ); I0.push_back( inertia0( b ) ); fixed.push_back( b.fixed ); gi.push_back( unsigned( i ) );
    if( b.kind == 'b' ) { geo.emplace_back( new RigidBodyBox( Vector3s( b.dim[0], b.dim[1], b.dim[2] ) ) ); }
    else if( b.kind == 'm' ) { geo.push_back( meshGeometry( b.dim ) ); }
    else if( b.kind == 's' ) { geo.emplace_back( new RigidBodyStaple( b.dim[0], b.dim[1], b.dim[2] ) ); }
    else { geo.emplace_back( new RigidBodySphere( b.dim[0] ) ); }
  }
  st.setState( X, V, M, R, W, I0, fixed, gi, geo );
  for( const Plane& p : sc.planes ) { StaticPlane sp( p.x, p.n ); sp.v() = p.v; sp.omega() = Vector3s( p.w[0], p.w[1], p.w[2] ); st.addStaticPlane( sp ); }
  for( const Round& r : sc.rounds ) { StaticCylinder c( r.x, r.axis, r.r ); c.omega() = r.w * c.axis(); st.addStaticCylinder( c ); }
  for( const Portal& p : sc.portals )
  {
    // The multipliers under which the portal is the translation from plane A to plane B (opposite normals)
    const StaticPlane a( p.xa, p.na ), b( p.xb, p.nb );
    const Array3i mult( 1, -int( std::lround( a.t0().dot( b.t0() ) ) ), -int( std::lround( a.t1().dot( b.t1() ) ) ) );
    st.addPlanarPortal( PlanarPortal( a, b, mult ) );
  }
  if( sc.gravity ) { st.addForce( NearEarthGravityForce( sc.g ) ); }
  if( sc.gravity2 ) { st.addForce( NearEarthGravityForce( sc.g2 ) ); }
  return sim;
}
constexpr int NUMAPS = 3;
inline const char* umapName( int i ) { return i == 0 ? "exponential_euler" : i == 1 ? "split_ham" : "dmv"; }
inline std::unique_ptr<UnconstrainedMap> umap( int i )
{
  if( i == 0 ) { return std::unique_ptr<UnconstrainedMap>( new ExponentialEulerMap ); }
  if( i == 1 ) { return std::unique_ptr<UnconstrainedMap>( new SplitHamMap ); }
  return std::unique_ptr<UnconstrainedMap>( new DMVMap );
}
}
#endif

namespace sys
{
// Velocity of the material point of body i at offset r from its centre
inline VD pointVel( const VX& v, int i, const VD& r ) { return lin( v, i ) + ( AD ? spin( ang( v, i ), r ) : VD( VD::Zero() ) ); }

// Impact operators
constexpr int NIOPS = 5;
inline const char* iopName( int i ) { static const char* n[] = { "gauss_seidel", "gr_apgd", "grr_apgd", "lcp_apgd", "gr_gs" }; return n[i]; }
inline std::unique_ptr<ImpactOperator> iop( int i )
{
  const double tol = 1.0e-12;
  LCPOperatorAPGD apgd( tol, 100000 );
  switch( i )
  {
    case 0: return std::unique_ptr<ImpactOperator>( new GaussSeidelOperator( 1.0e-9 ) );
    case 1: return std::unique_ptr<ImpactOperator>( new GROperator( 1.0e-9, apgd ) );
    case 2: return std::unique_ptr<ImpactOperator>( new GRROperator( apgd, apgd ) );
    case 3: return std::unique_ptr<ImpactOperator>( new LCPOperatorAPGD( tol, 100000 ) );
    default: return std::unique_ptr<ImpactOperator>( new GROperator( 1.0e-9, GaussSeidelOperator( 1.0e-9 ) ) );
  }
}

inline void flowU( Sim& s, unsigned it, const Dt& dt, UnconstrainedMap& um ) { PythonScripting cb; s.flow( cb, it, dt, um ); }
inline void flowI( Sim& s, unsigned it, const Dt& dt, UnconstrainedMap& um, ImpactOperator& op, double CoR, ImpactMap& im )
{
  PythonScripting cb;
#if defined(SYS_RB3D)
  (void) im; s.flow( cb, it, dt, um, op, CoR );
#else
  s.flow( cb, it, dt, um, op, CoR, im );
#endif
}
inline void flowF( Sim& s, unsigned it, const Dt& dt, UnconstrainedMap& um, double CoR, double mu, FrictionSolver& fs, ImpactFrictionMap& ifm )
{
  PythonScripting cb; s.flow( cb, it, dt, um, CoR, mu, fs, ifm );
}

// One detected contact, in terms a user sees: which body, against which body / plane / drum
struct Hit
{
  char what;      // 'b' body-body, 'p' plane, 'r' drum or cylinder
  int i, j;       // bodies in ascending order, or body and static object
  bool operator<( const Hit& o ) const { return std::tie( what, i, j ) < std::tie( o.what, o.i, o.j ); }
  bool operator==( const Hit& o ) const { return what == o.what && i == o.i && j == o.j; }
};
inline Hit hitOf( const Constraint& c )
{
  std::pair<int,int> b( -7, -7 );
  c.getBodyIndices( b );
  if( b.second >= 0 ) { return Hit{ 'b', std::min( b.first, b.second ), std::max( b.first, b.second ) }; }
  const std::string n = c.name();
  const bool round = n.find( "drum" ) != std::string::npos || n.find( "cylinder" ) != std::string::npos;
  return Hit{ round ? 'r' : 'p', b.first, int( c.getStaticObjectIndex() ) };
}
inline std::map<Hit,int> hits( const Cons& set ) { std::map<Hit,int> m; for( const auto& c : set ) { ++m[ hitOf( *c ) ]; } return m; }
inline std::string showHits( const std::map<Hit,int>& m ) { std::ostringstream o; o << "{"; for( const auto& h : m ) { o << " " << h.first.what << h.first.i << "-" << h.first.j << "x" << h.second; } o << " }"; return o.str(); }
inline Cons detect( Sim& s, const VX& q0, const VX& q1, const VX& v ) { Cons c; s.computeActiveSet( q0, q1, v, c ); return c; }

// The simulators inherit these interfaces privately; a C-style cast reaches them.
inline FlowableSystem& fsys( Sim& s ) { return (FlowableSystem&) s; }
inline ConstrainedSystem& csys( Sim& s ) { return (ConstrainedSystem&) s; }

inline std::string image( const Sim& s ) { std::ostringstream o; s.serialize( o ); return o.str(); }
inline bool same( const VX& a, const VX& b ) { return a.size() == b.size() && ( a.size() == 0 || std::memcmp( a.data(), b.data(), sizeof( double ) * size_t( a.size() ) ) == 0 ); }
inline uint64_t hash( const VX& a, uint64_t h = 1469598103934665603ull ) { return vp::fnv( a.data(), sizeof( double ) * size_t( a.size() ), h ); }
}
#endif
