SEEDS = [
dict(id="lcp-boundary-velocity-once", property="P05", system="rigidbody2d", flags="-DSYS_RB2D",
 needs="a moving fixed body or boundary, a restitution coefficient above zero",
 breaks="the boundary's velocity is left out of the restitution term, so a body struck by a moving obstacle leaves at the wrong speed",
 edits=[("scisim/ConstrainedMaps/ImpactMaps/ImpactOperatorUtilities.cpp", "( CoR.array() * ( N.transpose() * v0 + nrel ).array() ).matrix();", "( CoR.array() * ( N.transpose() * v0 ).array() ).matrix();"),
        ("scisim/ConstrainedMaps/ImpactMaps/ImpactOperatorUtilities.cpp", "N.transpose() * ( CoR(0) * v0 + v0F ) + ( 1.0 + CoR(0) ) * nrel;", "N.transpose() * ( CoR(0) * v0 + v0F ) + nrel;")],
 demo=r'''
#include "sys.h"
using namespace sys;
int main()
{
  Scene sc; Body f; f.fixed = true; f.v = vd( 1, 0 ); sc.b.push_back( f );
  Body d; d.x = vd( 2.01, 0 ); sc.b.push_back( d );
  Sim s = build( sc );
  auto um = umap( 0 ); LCPOperatorAPGD op( 1.0e-9, 1000 ); ImpactMap im;
  flowI( s, 1, Dt( 1, 8 ), *um, op, 0.5, im );
  const double out = lin( v( s ), 1 )( 0 );
  std::cout << out << std::endl;
  return std::abs( out - 1.5 ) < 1e-6 ? 0 : 1;
}
'''),
dict(id="forcing-restitution-boundary", property="P06", system="rigidbody2d", flags="-DSYS_RB2D",
 needs="friction, a moving fixed body or boundary and a restitution coefficient above zero",
 breaks="the coupled solver is told to bounce off a moving boundary as if it were at rest",
 edits=[("scisim/Constraints/Constraint.cpp", "constant_term += basis.col(0) * ( CoR * evalNdotV( q, v ) + nrel );", "constant_term += basis.col(0) * ( CoR * ( evalNdotV( q, v ) - nrel ) + nrel );")],
 demo=r'''
#include "sys.h"
using namespace sys;
int main()
{
  Scene sc; Body f; f.fixed = true; f.v = vd( 1, 0 ); sc.b.push_back( f );
  Body d; d.x = vd( 1.9, 0 ); sc.b.push_back( d );
  Sim s = build( sc );
  Cons c = detect( s, q( s ), q( s ), v( s ) );
  if( c.size() != 1 ) { return 2; }
  MX basis; c[0]->computeBasis( q( s ), v( s ), basis );
  VX nrel( 1 ), drel( 1 ); Constraint::evalKinematicRelVelGivenBases( q( s ), v( s ), c, basis, nrel, drel );
  VX term; c[0]->computeForcingTerm( q( s ), v( s ), basis, 0.5, nrel( 0 ), drel, term );
  // separation speed the disc has to reach: half of the approach speed beyond the boundary's own speed
  const double want = 0.5 * c[0]->evalNdotV( q( s ), v( s ) ) + nrel( 0 ), got = basis.col( 0 ).dot( term );
  std::cout << got << " " << want << std::endl;
  return std::abs( got - want ) < 1e-9 ? 0 : 1;
}
'''),
dict(id="dmv-iterations", property="P08", system="rigidbody3d", flags="-DSYS_RB3D",
 needs="a body with unequal inertias spinning fast relative to the time step, so that the fixed-point iteration needs more than a handful of rounds",
 breaks="the DMV rotation update is cut off before it converges and the rotation departs from the integrator's definition",
 edits=[("rigidbody3d/UnconstrainedMaps/DMVMap.cpp", "dmv_itr < 50", "dmv_itr < 5")],
 demo=r'''
#include "sys.h"
using namespace sys;
int main()
{
  Scene sc; Body b; b.I3 = { { 1.0, 1.5, 2.2 } }; b.w = { { 0.5, 1.0, -0.75 } }; sc.b.push_back( b );
  Sim s = build( sc );
  std::ostringstream err; auto* old = std::cerr.rdbuf( err.rdbuf() );
  auto um = umap( 2 );
  for( unsigned it = 1; it <= 4; ++it ) { flowU( s, it, Dt( 1, 5 ), *um ); }
  std::cerr.rdbuf( old );
  std::cout << err.str() << std::endl;
  return err.str().empty() ? 0 : 1;
}
'''),
dict(id="verlet-end-force-on-fixed", property="P09", system="rigidbody2d", flags="-DSYS_RB2D",
 needs="a fixed body, gravity and the Verlet integrator",
 breaks="the second force evaluation of a Verlet step accelerates fixed bodies",
 edits=[("rigidbody2d/VerletMap.cpp", "  fsys.computeForce( q1, v0, start_time, F );\n  zeroForcesOnKinematicBodies( fsys, F );\n", "  fsys.computeForce( q1, v0, start_time, F );\n")],
 demo=r'''
#include "sys.h"
using namespace sys;
int main()
{
  Scene sc; Body b; b.fixed = true; b.v = vd( 1, 0 ); sc.b.push_back( b ); sc.gravity = true; sc.g = vd( 0, -10 );
  Sim s = build( sc );
  auto um = umap( 1 );
  flowU( s, 1, Dt( 1, 8 ), *um );
  std::cout << v( s ).transpose() << std::endl;
  return lin( v( s ), 0 )( 1 ) == 0.0 && lin( v( s ), 0 )( 0 ) == 1.0 ? 0 : 1;
}
'''),
dict(id="portal-wrap-truncates", property="P10", system="rigidbody2d", flags="-DSYS_RB2D",
 needs="a sliding boundary and a body that leaves through its second plane beyond the negative end of the bounds",
 breaks="the tangential position is truncated towards zero instead of wrapped, so the body reappears outside the bounds",
 edits=[("rigidbody2d/PlanarPortal.cpp", "int( floor( ( tB + m_bounds ) / ( 2.0 * m_bounds ) ) )", "int( ( tB + m_bounds ) / ( 2.0 * m_bounds ) )"),
        ("rigidbody2d/PlanarPortal.cpp", "  assert( tB >= -m_bounds * ( 1.0 + 1.0e-9 ) || !isLeesEdwards() );\n", "")],
 demo=r'''
#include "sys.h"
using namespace sys;
int main()
{
  int bad = 0;
  for( int k = -12; k <= 12; ++k )
  {
    PlanarPortal p( RigidBody2DStaticPlane( vd( 0, -4 ), vd( 0, 1 ) ), RigidBody2DStaticPlane( vd( 0, 4 ), vd( 0, -1 ) ), 1.0, 3.0 );
    p.updateMovingPortals( 0.25 );
    Vector2s out; p.teleportPointThroughPlaneB( vd( 0.5 * k + 0.125, 4.25 ), out );
    if( std::abs( out( 0 ) ) > 3.0 + 1e-9 ) { ++bad; }
  }
  std::cout << bad << std::endl;
  return bad ? 1 : 0;
}
'''),
dict(id="scene-portal-planes-unsorted", property="P13", system="rigidbody2d", flags="-DSYS_RB2D",
 needs="a scene whose periodic boundary names its planes in descending order, or several boundaries that interleave, with an ordinary plane among them",
 breaks="after the boundary's planes are taken out of the list the wrong ordinary plane is left",
 edits=[("rigidbody2dutils/RigidBody2DSceneParser.cpp", "    std::sort( indices.begin(), indices.end() );\n", "")],
 files=[("shim/xml/rapidxml.hpp", "xml/rapidxml.hpp")],
 script='#!/bin/bash\n. "$(dirname "$0")/demo_lib.sh"\nln -s "$PWD/rigidbody2dutils" "$T/u"\nbuild "rigidbody2d rigidbody2dutils" -DSYS_RB2D -I"$HERE/xml"\n"$T/demo" "$T"\n',
 demo=r'''
#include "sys.h"
#include "rigidbody2dutils/RigidBody2DSceneParser.h"
#include "rigidbody2dutils/CameraSettings2D.h"
#include <fstream>
using namespace sys;
int main( int argc, char** argv )
{
  const std::string f = std::string( argv[1] ) + "/scene.xml";
  std::ofstream( f ) << "<rigidbody2d_scene>\n<integrator type=\"symplectic_euler\" dt=\"0.5\"/>\n<static_plane x=\"0 -4\" n=\"0 1\"/>\n<static_plane x=\"-7 0\" n=\"1 0\"/>\n<static_plane x=\"0 4\" n=\"0 -1\"/>\n<static_plane x=\"7 0\" n=\"-1 0\"/>\n<planar_portal planeA=\"2\" planeB=\"0\"/>\n"
    "<geometry type=\"circle\" r=\"1\"/>\n<rigid_body x=\"0 0\" theta=\"0\" v=\"0 0\" omega=\"0\" rho=\"1\" geo_idx=\"0\"/>\n</rigidbody2d_scene>\n";
  std::string script, dts; RigidBody2DState st; std::unique_ptr<UnconstrainedMap> um; Rational<std::intmax_t> dt; scalar end, CoR, mu;
  std::unique_ptr<ImpactOperator> iop; std::unique_ptr<ImpactMap> im; std::unique_ptr<FrictionSolver> fs; std::unique_ptr<ImpactFrictionMap> ifm; CameraSettings2D cam;
  if( !RigidBody2DSceneParser::parseXMLSceneFile( f, script, st, um, dts, dt, end, iop, im, CoR, fs, mu, ifm, cam ) ) { return 2; }
  for( const auto& p : st.planes() ) { std::cout << p.x().transpose() << std::endl; }
  return st.planes().size() == 2 && st.planes()[0].x()( 0 ) == -7.0 && st.planes()[1].x()( 0 ) == 7.0 ? 0 : 1;
}
'''),
dict(id="mesh-product-of-inertia", property="P14", system="rigidbody3d", flags="-DSYS_RB3D",
 needs="a closed mesh whose centre of mass has different x and y coordinates (and is off the origin in z)",
 breaks="the yz product of inertia is moved to the centre of mass with the wrong offsets",
 edits=[("rigidbody3d/Geometry/MomentTools.cpp", "R(1,2) += mass * center.y() * center.z();", "R(1,2) += mass * center.x() * center.z();")],
 demo=r'''
#include "sys.h"
#include "rigidbody3d/Geometry/MomentTools.h"
int main()
{
  // a box of 2 by 3 by 4 away from the origin
  Matrix3Xsc V( 3, 8 ); Matrix3Xuc F( 3, 12 );
  for( int i = 0; i < 8; ++i ) { V.col( i ) = Vector3s( 0.5 + 2 * ( i & 1 ), -1.0 + 3 * ( ( i >> 1 ) & 1 ), 2.0 + 4 * ( i >> 2 ) ); }
  F << 0, 0, 4, 4, 0, 0, 2, 2, 0, 0, 1, 1,
       2, 3, 5, 7, 1, 5, 6, 7, 4, 6, 3, 7,
       3, 1, 7, 6, 5, 4, 7, 3, 6, 2, 7, 5;
  scalar m; Vector3s I, c; Matrix3s R; MomentTools::computeMoments( V, F, m, I, c, R );
  std::cout << m << " " << I.transpose() << std::endl;
  return std::abs( m - 24 ) < 1e-9 && ( I - Vector3s( 26, 40, 50 ) ).norm() < 1e-8 ? 0 : 1;
}
'''),
dict(id="remove-keeps-fixed-flags", property="P15", system="rigidbody2d", flags="-DSYS_RB2D",
 needs="removing a body that comes before another whose fixed flag differs",
 breaks="after the removal a free body is held fixed, or a fixed one is let go",
 edits=[("rigidbody2d/RigidBody2DState.cpp", "    m_fixed[ copy_to ] = m_fixed[ copy_from ];\n", "")],
 demo=r'''
#include "sys.h"
using namespace sys;
int main()
{
  Scene sc; Body b; sc.b.push_back( b ); b.x = vd( 5, 0 ); b.fixed = true; sc.b.push_back( b );
  Sim s = build( sc );
  VectorXu rem( 1 ); rem << 0u;
  s.state().removeBodies( rem );
  std::cout << s.state().fixed( 0 ) << std::endl;
  return s.state().fixed( 0 ) ? 0 : 1;
}
'''),
dict(id="mesh-pair-one-way", property="P16", system="rigidbody3d", flags="-DSYS_RB3D",
 needs="two overlapping meshes where samples of both lie inside the other",
 breaks="the second mesh's samples are left out once the first mesh's found something, so the contacts depend on which mesh comes first",
 edits=[("rigidbody3d/Constraints/MeshMeshUtilities.cpp", "  // mesh1 against mesh0\n  {\n", "  // mesh1 against mesh0\n  if( p.empty() )\n  {\n")],
 demo=r'''
#include "sys.h"
using namespace sys;
int main()
{
  auto count = []( bool swap )
  {
    Scene sc; Body a; a.kind = 'm'; a.dim = { { 2, 1.5, 1 } }; Body b = a; b.dim = { { 1, 0.75, 0.5 } }; b.x = vd( 2.6, 0.1, 0.05 );
    sc.b.push_back( swap ? b : a ); sc.b.push_back( swap ? a : b );
    Sim s = build( sc );
    return int( detect( s, q( s ), q( s ), v( s ) ).size() );
  };
  const int x = count( false ), y = count( true );
  std::cout << x << " " << y << std::endl;
  return x == y ? 0 : 1;
}
'''),
dict(id="end-hook-before-wrap", property="P17", system="ball2d", flags="-DSYS_BALL2D",
 needs="a scene with friction and a periodic boundary, a body that crosses it in the step, and a script that looks at positions at the end of the step",
 breaks="the end-of-step hook runs before bodies that left through a periodic boundary are moved to the other side",
 edits=[("ball2d/Ball2DSim.cpp", "  ifmap.flow( call_back, *this, *this, umap, solver, iteration, scalar(dt), CoR, mu, m_state.q(), m_state.v(), q1, v1 );\n\n  q1.swap( m_state.q() );\n  v1.swap( m_state.v() );\n\n  enforcePeriodicBoundaryConditions();\n\n  call_back.setState( m_state );\n  call_back.endOfStepCallback( iteration, dt );\n  call_back.forgetState();\n",
  "  ifmap.flow( call_back, *this, *this, umap, solver, iteration, scalar(dt), CoR, mu, m_state.q(), m_state.v(), q1, v1 );\n\n  q1.swap( m_state.q() );\n  v1.swap( m_state.v() );\n\n  call_back.setState( m_state );\n  call_back.endOfStepCallback( iteration, dt );\n  call_back.forgetState();\n\n  enforcePeriodicBoundaryConditions();\n")],
 files=[("shim/python/Python.h", "python/Python.h"), ("shim/python/numpy/arrayobject.h", "python/numpy/arrayobject.h")],
 script='#!/bin/bash\n. "$(dirname "$0")/demo_lib.sh"\nPYTHON=1 build ball2d -DSYS_BALL2D -DUSE_PYTHON -I"$HERE/python"\n"$T/demo"\n',
 demo=r'''
#include "sys.h"
#include "ball2d/PythonScripting.h"
using namespace sys;
class Nothing final : public FrictionSolver
{
public:
  virtual void solve( const unsigned, const scalar&, const FlowableSystem&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, const VectorXs&, const VectorXs& v0, std::vector<std::unique_ptr<Constraint>>&, const MatrixXXsc&, const VectorXs&, const VectorXs&, const unsigned, const scalar&, VectorXs&, VectorXs&, VectorXs&, VectorXs& v2, bool& ok, scalar& err ) override { v2 = v0; ok = true; err = 0.0; }
  virtual unsigned numFrictionImpulsesPerNormal( const unsigned d ) const override { return d - 1; }
  virtual void serialize( std::ostream& ) const override {}
  virtual std::string name() const override { return "nothing"; }
};
int main()
{
  double seen = -1.0e9;
  Scene sc; Body b; b.x = vd( 3.9, 0 ); b.v = vd( 8, 0 ); sc.b.push_back( b );
  Portal p; p.xa = vd( -4, 0 ); p.na = vd( 1, 0 ); p.xb = vd( 4, 0 ); p.nb = vd( -1, 0 ); sc.portals.push_back( p );
  Sim s = build( sc );
  fakepy::modules()["script"]; PythonScripting::initializeCallbacks();
  fakepy::modules()["script"].hooks["endOfStep"] = [&]() -> PyObject*
  {
    PyObject* o = fakepy::call( "configuration" );
    seen = static_cast<double*>( o->data )[0];
    fakepy::release( o );
    return fakepy::none();
  };
  PythonScripting cb( "/tmp", "script" );
  auto um = umap( 0 ); Nothing fs; GeometricImpactFrictionMap map( 1e-9, 10, ImpulsesToCache::NONE );
  s.flow( cb, 1, Dt( 1, 8 ), *um, 0.0, 0.5, fs, map );
  std::cout << seen << " " << q( s )( 0 ) << std::endl;
  return seen == q( s )( 0 ) ? 0 : 1;
}
'''),
dict(id="apgd-last-iterate", property="P18", system="", flags="",
 needs="a problem on which the residual does not fall monotonically and the iterations run out",
 breaks="the solver hands back its last iterate together with the residual of its best one",
 edits=[("scisim/Math/QPSolvers/ProjectionSolvers.h", "    x0.swap( best_solution );\n", "    // The iterate that met the tolerance\n    if( results.status == ProjectionSolveStatus::Success )\n    {\n      x0.swap( best_solution );\n    }\n")],
 demo=r'''
#include "scisim/Math/MathDefines.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/Constraints/Constraint.h"
#include <iostream>
#include <sstream>
#include <cmath>
int main()
{
  int bad = 0, runs = 0;
  for( int a = 1; a <= 6; ++a ) { for( int b = -6; b <= 6; ++b ) { for( unsigned iters = 1; iters <= 6; ++iters )
  {
    if( b * b >= 9 * a ) { continue; }
    SparseMatrixsc Q( 2, 2 ), N( 2, 2 ), I( 2, 2 ); Q.insert( 0, 0 ) = a; Q.insert( 0, 1 ) = b; Q.insert( 1, 0 ) = b; Q.insert( 1, 1 ) = 9;
    I.setIdentity(); N.setIdentity();
    Q.makeCompressed();
    VectorXs v( 2 ); v << -3, -1; VectorXs z = VectorXs::Zero( 2 ), alpha = VectorXs::Zero( 2 );
    LCPOperatorAPGD op( 1e-12, iters );
    std::vector<std::unique_ptr<Constraint>> cons;
    std::ostringstream err; auto* old = std::cerr.rdbuf( err.rdbuf() );
    op.flow( cons, I, I, v, v, v, N, Q, z, z, alpha );
    std::cerr.rdbuf( old );
    const auto at = err.str().find( "tolerance: " );
    if( at == std::string::npos ) { continue; }
    const double said = std::stod( err.str().substr( at + 11 ) );
    const VectorXs g = Q * alpha + v;
    double res = 0.0; for( int i = 0; i < 2; ++i ) { res = std::max( res, std::abs( std::min( alpha( i ), g( i ) ) ) ); }
    ++runs;
    if( std::abs( said - res ) > 1e-4 * ( 1.0 + res ) ) { ++bad; }
  } } }
  std::cout << bad << " of " << runs << std::endl;
  return bad || runs == 0 ? 1 : 0;
}
''',
 script='#!/bin/bash\n. "$(dirname "$0")/demo_lib.sh"\nbuild "" \n"$T/demo"\n'),
]
