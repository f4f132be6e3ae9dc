HDR = '#include "sys.h"\n#include "maps.h"\nusing namespace sys;\n'
PROBE = r'''
class Probe final : public FrictionSolver
{
public:
  VX first, seen; VX alpha_out; MatrixXXsc bases; int calls = 0;
  virtual void solve( const unsigned, const scalar&, const FlowableSystem&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, const VectorXs&, const VectorXs& v0, std::vector<std::unique_ptr<Constraint>>&, const MatrixXXsc&, const VectorXs&, const VectorXs&, const unsigned, const scalar&, VectorXs& f, VectorXs& alpha, VectorXs& beta, VectorXs& v2, bool& ok, scalar& error ) override
  {
    seen.resize( 3 ); seen << alpha( 0 ), beta( 0 ), beta( 1 );
    ++calls;
    alpha.setConstant( 2.0 ); beta.setZero();
    v2 = v0; f = VX::Zero( v0.size() ); ok = true; error = 0.0;
  }
  virtual unsigned numFrictionImpulsesPerNormal( const unsigned ) const override { return 2; }
  virtual void serialize( std::ostream& ) const override {}
  virtual std::string name() const override { return "probe"; }
};
'''
SEEDS = [
dict(id="domain-before-wrap", property="P20", system="rigidbody3d", flags="-DSYS_RB3D",
 needs="impacts with friction in a periodic scene whose simulation domain reaches just beyond the periodic boundary",
 breaks="a body that crosses the periodic boundary is judged before it is put back on the other side, so the run ends although it never left the domain",
 edits=[("rigidbody3d/RigidBody3DSim.cpp", "  ifmap.flow( call_back, *this, *this, umap, solver, iteration, scalar( dt ), CoR, mu, m_sim_state.q(), m_sim_state.v(), q1, v1 );\n\n  q1.swap( m_sim_state.q() );\n  v1.swap( m_sim_state.v() );\n  m_sim_state.updateMandMinv();\n", "  ifmap.flow( call_back, *this, *this, umap, solver, iteration, scalar( dt ), CoR, mu, m_sim_state.q(), m_sim_state.v(), q1, v1 );\n\n  q1.swap( m_sim_state.q() );\n  v1.swap( m_sim_state.v() );\n  m_sim_state.updateMandMinv();\n\n  treatSimulationBoundary();\n")],
 demo=HDR + PROBE + r'''
int main()
{
  Scene sc; Portal p; p.xa = vd( -2, 0, 0 ); p.na = vd( 1, 0, 0 ); p.xb = vd( 2, 0, 0 ); p.nb = vd( -1, 0, 0 ); sc.portals.push_back( p );
  Body b; b.dim[0] = 0.5; b.x = vd( 1.7, 0, 0 ); b.v = vd( 4, 0, 0 ); sc.b.push_back( b );
  Sim s = build( sc );
  s.state().setBoundaryBehavior( SimBoundaryBehavior::EXIT ); s.state().setBoundaryMin( vd( -2.52, -5, -5 ) ); s.state().setBoundaryMax( vd( 2.52, 5, 5 ) );
  auto um = umap( 1 ); Probe fs; auto m = ifmap( GEO, 1e-6, 100 );
  flowF( s, 1, Dt( 1, 10 ), *um, 0.0, 0.5, fs, *m );
  std::cout << pos( q( s ), 0 ).transpose() << std::endl;
  return 0;
}
'''),
dict(id="split-ham-one-sided", property="P08", system="rigidbody3d", flags="-DSYS_RB3D",
 needs="a body with three different inertias turning about all of its axes",
 breaks="the second half of the rotation is composed in the same order as the first instead of its mirror image, so the integrator is no longer reversible or second order",
 edits=[("rigidbody3d/UnconstrainedMaps/SplitHamMap.cpp", "    R.angle() = dt * pAngB.x() / I.x(); // Note the lack of 1/2\n    R.axis() = -Vector3s::UnitX();\n    R1 = R1 * R.inverse();\n    pAngB = R * pAngB;\n\n    R.angle() = 0.5 * dt * pAngB.y() / I.y();\n    R.axis() = -Vector3s::UnitY();\n    R1 = R1 * R.inverse();\n    pAngB = R * pAngB;\n\n    R.angle() = 0.5 * dt * pAngB.z() / I.z();\n    R.axis() = -Vector3s::UnitZ();\n    R1 = R1 * R.inverse();\n    pAngB = R * pAngB;\n",
  "    R.angle() = dt * pAngB.x() / I.x(); // Note the lack of 1/2\n    R.axis() = -Vector3s::UnitX();\n    R1 = R1 * R.inverse();\n    pAngB = R * pAngB;\n\n    R.angle() = 0.5 * dt * pAngB.z() / I.z();\n    R.axis() = -Vector3s::UnitZ();\n    R1 = R1 * R.inverse();\n    pAngB = R * pAngB;\n\n    R.angle() = 0.5 * dt * pAngB.y() / I.y();\n    R.axis() = -Vector3s::UnitY();\n    R1 = R1 * R.inverse();\n    pAngB = R * pAngB;\n")],
 demo=HDR + r'''
int main()
{
  // Forward, then back with the velocities turned round
  Scene sc; Body b; b.I3 = { { 1.0, 1.5, 2.2 } }; b.w = { { 0.5, 1.0, -0.75 } }; b.rot = { { 0.3, -0.2, 0.6 } }; sc.b.push_back( b );
  Sim s = build( sc ); const VX start = q( s );
  auto um = umap( 1 );
  for( unsigned it = 1; it <= 5; ++it ) { flowU( s, it, Dt( 1, 10 ), *um ); }
  v( s ) = -v( s );
  for( unsigned it = 1; it <= 5; ++it ) { flowU( s, it, Dt( 1, 10 ), *um ); }
  const double e = ( q( s ) - start ).cwiseAbs().maxCoeff();
  std::cout << "came back to within " << e << std::endl;
  return e < 1.0e-9 ? 0 : 1;
}
'''),
dict(id="box-bounds-quadrant", property="P03", system="rigidbody2d", flags="-DSYS_RB2D",
 needs="a box turned by more than a quarter turn",
 breaks="the bounds of the box are taken from the signed cosine, so they shrink and its contacts are missed",
 edits=[("rigidbody2d/BoxGeometry.cpp", "  const Array2s extents{ Eigen::Rotation2D<scalar>( theta ).matrix().cwiseAbs() * m_r };\n", "  const scalar c{ std::cos( theta ) };\n  const scalar s{ std::fabs( std::sin( theta ) ) };\n  const Array2s extents{ std::fabs( c * m_r.x() + s * m_r.y() ), std::fabs( s * m_r.x() + c * m_r.y() ) };\n")],
 demo=HDR + r'''
int main()
{
  int bad = 0;
  for( double angle : { 0.5, 2.5 } )
  {
    Scene sc; Body a; a.kind = 'b'; a.dim = { { 2.0, 0.5, 0 } }; a.rot[0] = angle; sc.b.push_back( a );
    Body c; c.dim[0] = 0.25; c.x = VD( 2.1 * std::cos( angle ), 2.1 * std::sin( angle ) ); sc.b.push_back( c );
    Sim s = build( sc );
    const size_t n = detect( s, q( s ), q( s ), v( s ) ).size();
    std::cout << "angle " << angle << ": " << n << " contacts" << std::endl;
    bad += n != 1;
  }
  return bad ? 1 : 0;
}
'''),
dict(id="remembered-friction-stale-basis", property="P07", system="rigidbody3d", flags="-DSYS_RB3D",
 needs="the symplectic Euler scheme remembering normal and friction impulses, and a contact whose normal turns between two steps",
 breaks="the remembered impulse is resolved as it is instead of being turned along with the contact's normal",
 edits=[("scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp", "            const Vector3s f{ R * cached_impulse.segment<3>(3) };", "            const Vector3s f{ R.dot( Quaternions::Identity() ) > 0.0 ? Vector3s( cached_impulse.segment<3>(3) ) : Vector3s( R * cached_impulse.segment<3>(3) ) };")],
 demo=HDR + PROBE + r'''
int main()
{
  // One ball rolls over another: the impulse along the normal stays along the normal
  Scene sc; Body a; a.dim[0] = 1; Body b = a; b.x = vd( 1.9, 0, 0 ); sc.b = { a, b };
  Sim s = build( sc );
  auto um = umap( 1 ); auto m = ifmap( SE_NF, 1e-6, 100 );
  Probe p;
  flowF( s, 1, Dt( 1, 10 ), *um, 0.0, 0.5, p, *m );
  setPos( q( s ), 1, vd( 1.9 * std::cos( 0.5 ), 1.9 * std::sin( 0.5 ), 0 ) );
  flowF( s, 2, Dt( 1, 10 ), *um, 0.0, 0.5, p, *m );
  std::cout << p.calls << " solves, the second starts from " << p.seen.transpose() << std::endl;
  return p.calls == 2 && std::fabs( p.seen( 0 ) - 2.0 ) < 1e-9 && std::fabs( p.seen( 1 ) ) < 1e-9 && std::fabs( p.seen( 2 ) ) < 1e-9 ? 0 : 1;
}
'''),
]
