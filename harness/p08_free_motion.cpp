// P08: contact-free motion. From every explored state one step of the real integrator is compared with the integrator's
// defining update, written here from its definition; along each history rotations, momenta, energies, forces and
// reversibility are checked as well.
#include "sys.h"
using namespace sys;

static double mag( const VX& a ) { return a.size() ? a.cwiseAbs().maxCoeff() : 0.0; }
static bool close( const VX& a, const VX& b, double tol = 1.0e-10 ) { return a.size() == b.size() && ( a.size() == 0 || ( a - b ).cwiseAbs().maxCoeff() <= tol * std::max( 1.0, std::max( mag( a ), mag( b ) ) ) ); }
static bool close( double a, double b, double tol = 1.0e-10 ) { return std::abs( a - b ) <= tol * std::max( 1.0, std::max( std::abs( a ), std::abs( b ) ) ); }

// A position-dependent force added through the simulators' own interface: every body is tied to the origin by a spring,
// and its orientation to a fixed direction
struct Tie { bool on = false; double k = 0.0, kr = 0.0; };
static const double FIELD[3] = { 0.3, -0.5, 0.8 };

#if defined(SYS_BALL2D)
class TieForce final : public Ball2DForce
{
public:
  explicit TieForce( const Tie& t ) : m( t ) {}
  virtual scalar computePotential( const VectorXs& q, const SparseMatrixsc&, const VectorXs& ) const override { return 0.5 * m.k * q.squaredNorm(); }
  virtual void computeForce( const VectorXs& q, const VectorXs&, const SparseMatrixsc&, const VectorXs&, VectorXs& F ) const override { F -= m.k * q; }
  virtual std::unique_ptr<Ball2DForce> clone() const override { return std::unique_ptr<Ball2DForce>( new TieForce( m ) ); }
  virtual void serialize( std::ostream& ) const override {}
private:
  Tie m;
};
#elif defined(SYS_RB2D)
class TieForce final : public RigidBody2DForce
{
public:
  explicit TieForce( const Tie& t ) : m( t ) {}
  virtual scalar computePotential( const VectorXs& q, const SparseMatrixsc& ) const override { double U = 0; for( int i = 0; i < q.size(); ++i ) { U += 0.5 * ( i % 3 == 2 ? m.kr : m.k ) * q( i ) * q( i ); } return U; }
  virtual void computeForce( const VectorXs& q, const VectorXs&, const SparseMatrixsc&, VectorXs& F ) const override { for( int i = 0; i < q.size(); ++i ) { F( i ) -= ( i % 3 == 2 ? m.kr : m.k ) * q( i ); } }
  virtual std::unique_ptr<RigidBody2DForce> clone() const override { return std::unique_ptr<RigidBody2DForce>( new TieForce( m ) ); }
  virtual void serialize( std::ostream& ) const override {}
private:
  Tie m;
};
#else
class TieForce final : public Force
{
public:
  explicit TieForce( const Tie& t ) : m( t ) {}
  virtual scalar computePotential( const VectorXs& q, const SparseMatrixsc& ) const override
  {
    const int n = int( q.size() ) / 12; double U = 0;
    for( int i = 0; i < n; ++i ) { U += 0.5 * m.k * pos( q, i ).squaredNorm() - m.kr * rotOf( q, i ).col( 0 ).dot( Eigen::Vector3d( FIELD[0], FIELD[1], FIELD[2] ) ); }
    return U;
  }
  virtual void computeForce( const VectorXs& q, const VectorXs&, const SparseMatrixsc&, VectorXs& F ) const override
  {
    const int n = int( q.size() ) / 12;
    for( int i = 0; i < n; ++i )
    {
      F.segment<3>( 3 * i ) -= m.k * pos( q, i );
      const Eigen::Vector3d a = rotOf( q, i ).col( 0 ), b( FIELD[0], FIELD[1], FIELD[2] );
      F.segment<3>( 3 * n + 3 * i ) += m.kr * a.cross( b );
    }
  }
  virtual std::string name() const override { return "tie"; }
  virtual std::unique_ptr<Force> clone() const override { return std::unique_ptr<Force>( new TieForce( m ) ); }
  virtual void serialize( std::ostream& ) const override {}
private:
  Tie m;
};
#endif

static Sim make( const Scene& sc, const Tie& t )
{
  Sim sim = build( sc );
  if( !t.on ) { return sim; }
#if defined(SYS_BALL2D)
  sim.state().forces().emplace_back( new TieForce( t ) );
#elif defined(SYS_RB2D)
  const int n = int( sc.b.size() );
  VX m( 3 * n ); std::vector<bool> fixed; VectorXu gi( n ); std::vector<std::unique_ptr<RigidBody2DGeometry>> geo; std::vector<std::unique_ptr<RigidBody2DForce>> f; std::vector<RigidBody2DStaticPlane> pl; std::vector<PlanarPortal> po;
  for( int i = 0; i < n; ++i ) { m.segment<3>( 3 * i ) << sc.b[size_t( i )].m, sc.b[size_t( i )].m, sc.b[size_t( i )].I; fixed.push_back( sc.b[size_t( i )].fixed ); gi( i ) = 0; }
  geo.emplace_back( new CircleGeometry( 1.0 ) );
  f.emplace_back( new TieForce( t ) );
  for( const auto& o : sim.state().forces() ) { f.push_back( o->clone() ); }
  const VX q0 = q( sim ), v0 = v( sim );
  sim.state() = RigidBody2DState( q0, v0, m, fixed, gi, geo, f, pl, po );
#else
  sim.state().addForce( TieForce( t ) );
#endif
  return sim;
}

// ---- the reference ----
struct Ref
{
  const Scene& sc; const Tie& tie;
  int n() const { return int( sc.b.size() ); }
  VX force( const VX& q ) const
  {
    const int w = D + AD;
    VX F = VX::Zero( w * n() );
    for( int i = 0; i < n(); ++i )
    {
      VD f = VD::Zero();
      if( sc.gravity ) { f += sc.b[size_t( i )].m * sc.g; }
      if( sc.gravity2 ) { f += sc.b[size_t( i )].m * sc.g2; }
      if( tie.on ) { f -= tie.k * pos( q, i ); }
      if( sc.penalty )
      {
        for( int j = 0; j < n(); ++j )
        {
          if( j == i ) { continue; }
          const VD d = pos( q, i ) - pos( q, j );
          const double depth = sc.b[size_t( i )].dim[0] + sc.b[size_t( j )].dim[0] - d.norm();
          if( depth > 0 ) { f += 0.5 * sc.pk * sc.pp * std::pow( depth, sc.pp - 1.0 ) * d.normalized(); }
        }
      }
      setLin( F, i, f );
#if defined(SYS_RB2D)
      if( tie.on ) { F( 3 * i + 2 ) -= tie.kr * q( 3 * i + 2 ); }
#elif defined(SYS_RB3D)
      if( tie.on ) { const Eigen::Vector3d a = rotOf( q, i ).col( 0 ), b( FIELD[0], FIELD[1], FIELD[2] ); setAng( F, i, VX( tie.kr * a.cross( b ) ) ); }
#endif
    }
    return F;
  }
  double potential( const VX& q ) const
  {
    double U = 0;
    for( int i = 0; i < n(); ++i )
    {
      if( sc.gravity ) { U -= sc.b[size_t( i )].m * sc.g.dot( pos( q, i ) ); }
      if( sc.gravity2 ) { U -= sc.b[size_t( i )].m * sc.g2.dot( pos( q, i ) ); }
      if( tie.on ) { U += 0.5 * tie.k * pos( q, i ).squaredNorm(); }
      if( sc.penalty ) { for( int j = i + 1; j < n(); ++j ) { const double depth = sc.b[size_t( i )].dim[0] + sc.b[size_t( j )].dim[0] - ( pos( q, i ) - pos( q, j ) ).norm(); if( depth > 0 ) { U += 0.5 * sc.pk * std::pow( depth, sc.pp ); } } }
#if defined(SYS_RB2D)
      if( tie.on ) { U += 0.5 * tie.kr * q( 3 * i + 2 ) * q( 3 * i + 2 ); }
#elif defined(SYS_RB3D)
      if( tie.on ) { U -= tie.kr * rotOf( q, i ).col( 0 ).dot( Eigen::Vector3d( FIELD[0], FIELD[1], FIELD[2] ) ); }
#endif
    }
    return U;
  }
#if defined(SYS_RB3D)
  Eigen::Matrix3d inertia( const VX& q, int i ) const { const Eigen::Matrix3d R = rotOf( q, i ); return R * inertia0( sc.b[size_t( i )] ).asDiagonal() * R.transpose(); }
#endif
  double kinetic( const VX& q, const VX& v ) const
  {
    double T = 0; (void) q;
    for( int i = 0; i < n(); ++i )
    {
      T += 0.5 * sc.b[size_t( i )].m * lin( v, i ).squaredNorm();
#if defined(SYS_RB2D)
      T += 0.5 * sc.b[size_t( i )].I * v( 3 * i + 2 ) * v( 3 * i + 2 );
#elif defined(SYS_RB3D)
      const Eigen::Vector3d w = ang( v, i ); T += 0.5 * w.dot( inertia( q, i ) * w );
#endif
    }
    return T;
  }
  VD momentum( const VX& v ) const { VD p = VD::Zero(); for( int i = 0; i < n(); ++i ) { p += sc.b[size_t( i )].m * lin( v, i ); } return p; }
  VX angular( const VX& q, const VX& v ) const
  {
    VX L = VX::Zero( D == 2 ? 1 : 3 );
    for( int i = 0; i < n(); ++i )
    {
      const VD x = pos( q, i ), u = sc.b[size_t( i )].m * lin( v, i );
#if defined(SYS_RB3D)
      const Eigen::Vector3d w = ang( v, i );
      L += Eigen::Vector3d( x( 1 ) * u( 2 ) - x( 2 ) * u( 1 ), x( 2 ) * u( 0 ) - x( 0 ) * u( 2 ), x( 0 ) * u( 1 ) - x( 1 ) * u( 0 ) ) + inertia( q, i ) * w;
#else
      L( 0 ) += x( 0 ) * u( 1 ) - x( 1 ) * u( 0 ) + ( AD ? sc.b[size_t( i )].I * ang( v, i )( 0 ) : 0.0 );
#endif
    }
    return L;
  }
  bool moves( int i ) const { return AD == 0 || !sc.b[size_t( i )].fixed; }
};

// Checks one step (q0,v0) -> (q1,v1) of integrator u against its definition
static void checkStep( const Ref& r, int u, double dt, const VX& q0, const VX& v0, const VX& q1, const VX& v1 )
{
  const VX F0 = r.force( q0 );
#if !defined(SYS_RB3D)
  const int w = D + AD;
  VX im( w * r.n() );
  for( int i = 0; i < r.n(); ++i ) { for( int k = 0; k < w; ++k ) { im( w * i + k ) = r.moves( i ) ? 1.0 / ( k == 2 ? r.sc.b[size_t( i )].I : r.sc.b[size_t( i )].m ) : 0.0; } }
  VX eq, ev;
  if( u == 0 ) { ev = v0 + dt * im.cwiseProduct( F0 ); eq = q0 + dt * ev; }
  else { eq = q0 + dt * v0 + 0.5 * dt * dt * im.cwiseProduct( F0 ); ev = v0 + 0.5 * dt * im.cwiseProduct( F0 + r.force( eq ) ); }
  VP_CHECK( close( q1, eq ), umapName( u ) << ": positions after a step " << vp::vstr( q1 ) << ", defined " << vp::vstr( eq ) << " from q " << vp::vstr( q0 ) << " v " << vp::vstr( v0 ) );
  VP_CHECK( close( v1, ev ), umapName( u ) << ": velocities after a step " << vp::vstr( v1 ) << ", defined " << vp::vstr( ev ) << " from q " << vp::vstr( q0 ) << " v " << vp::vstr( v0 ) );
#else
  using V3 = Eigen::Vector3d; using M3 = Eigen::Matrix3d;
  // Positions and orientations first: the end force depends on them
  for( int i = 0; i < r.n(); ++i )
  {
    const Body& b = r.sc.b[size_t( i )];
    const M3 R0 = rotOf( q0, i ), R1 = rotOf( q1, i );
    VP_CHECK( ( R1 * R1.transpose() - M3::Identity() ).cwiseAbs().maxCoeff() <= 1e-9 && std::abs( R1.determinant() - 1.0 ) <= 1e-9, umapName( u ) << ": orientation of body " << i << " is not a rotation:\n" << R1 );
    if( !r.moves( i ) )
    {
      VP_CHECK( pos( q1, i ) == pos( q0, i ) && R1 == R0, umapName( u ) << ": fixed body " << i << " moved" );
      continue;
    }
    const V3 f = lin( F0, i ), t = ang( F0, i ), x0 = pos( q0, i ), x1 = pos( q1, i ), u0 = lin( v0, i ), w0 = ang( v0, i );
    const V3 ex = u == 0 ? V3( x0 + dt * u0 ) : V3( x0 + dt * u0 + 0.5 * dt * dt / b.m * f );
    VP_CHECK( close( VX( x1 ), VX( ex ) ), umapName( u ) << ": position of body " << i << " after a step " << vp::vstr( x1 ) << ", defined " << vp::vstr( ex ) );
    const V3 I0 = inertia0( b );
    if( u == 0 )
    {
      M3 X = R0;
      for( int c = 0; c < 3; ++c ) { X.col( c ) += dt * w0.cross( V3( R0.col( c ) ) ); }
      for( int k = 0; k < 60; ++k ) { X = M3( 0.5 * ( X + X.inverse().transpose() ) ); }   // nearest rotation
      VP_CHECK( ( X - R1 ).cwiseAbs().maxCoeff() <= 1e-9, umapName( u ) << ": orientation of body " << i << "\n" << R1 << "\ndefined\n" << X );
    }
    else
    {
      const V3 L = r.inertia( q0, i ) * w0 + 0.5 * dt * t;   // spatial angular momentum after the half kick
      V3 m = R0.transpose() * L;
      if( u == 1 )
      {
        M3 X = R0;
        const int ax[5] = { 2, 1, 0, 1, 2 };
        for( int k = 0; k < 5; ++k )
        {
          const double th = ( k == 2 ? 1.0 : 0.5 ) * dt * m( ax[k] ) / I0( ax[k] );
          const M3 E = Eigen::AngleAxisd( th, V3( V3::Unit( ax[k] ) ) ).toRotationMatrix();
          X = M3( X * E ); m = V3( E.transpose() * m );
        }
        VP_CHECK( ( X - R1 ).cwiseAbs().maxCoeff() <= 1e-9, umapName( u ) << ": orientation of body " << i << "\n" << R1 << "\ndefined\n" << X );
      }
      else
      {
        // Discrete Moser-Veselov: with E = R0^T R1 and Jd the coefficient matrix of the inertia, E Jd - Jd E^T = dt [m]x
        const M3 E = R0.transpose() * R1;
        const M3 Jd = V3( 0.5 * ( -I0( 0 ) + I0( 1 ) + I0( 2 ) ), 0.5 * ( I0( 0 ) - I0( 1 ) + I0( 2 ) ), 0.5 * ( I0( 0 ) + I0( 1 ) - I0( 2 ) ) ).asDiagonal();
        M3 S; S << 0, -m( 2 ), m( 1 ), m( 2 ), 0, -m( 0 ), -m( 1 ), m( 0 ), 0;
        const M3 res = E * Jd - Jd * E.transpose() - dt * S;
        VP_CHECK( res.cwiseAbs().maxCoeff() <= 1e-12 * std::max( 1.0, I0.maxCoeff() ), umapName( u ) << ": orientation of body " << i << " does not satisfy the discrete Moser-Veselov equation, residual\n" << res );
        // the solution near the identity
        VP_CHECK( E.trace() > 1.0, umapName( u ) << ": orientation of body " << i << " turned by more than a right angle" );
      }
    }
  }
  const VX F1 = r.force( q1 );
  for( int i = 0; i < r.n(); ++i )
  {
    const Body& b = r.sc.b[size_t( i )];
    if( !r.moves( i ) ) { VP_CHECK( lin( v1, i ) == lin( v0, i ) && ang( v1, i ) == ang( v0, i ), umapName( u ) << ": velocity of fixed body " << i << " changed" ); continue; }
    const V3 u0 = lin( v0, i ), w0 = ang( v0, i ), f0 = lin( F0, i ), f1 = lin( F1, i ), t0 = ang( F0, i ), t1 = ang( F1, i );
    V3 eu, ew;
    if( u == 0 ) { eu = u0 + dt / b.m * f0; ew = w0 + dt * ( r.inertia( q0, i ).inverse() * t0 ); }
    else { eu = u0 + 0.5 * dt / b.m * ( f0 + f1 ); ew = r.inertia( q1, i ).inverse() * ( r.inertia( q0, i ) * w0 + 0.5 * dt * ( t0 + t1 ) ); }
    VP_CHECK( close( VX( V3( lin( v1, i ) ) ), VX( eu ) ), umapName( u ) << ": velocity of body " << i << " " << vp::vstr( lin( v1, i ) ) << ", defined " << vp::vstr( eu ) );
    VP_CHECK( close( VX( ang( v1, i ) ), VX( ew ), 1e-9 ), umapName( u ) << ": spin of body " << i << " " << vp::vstr( ang( v1, i ) ) << ", defined " << vp::vstr( ew ) );
  }
#endif
}

// Reported momenta, energies and forces against their definitions in the simulation's current state
static void checkReports( Sim& sim, const Ref& r )
{
  const VX q0 = q( sim ), v0 = v( sim );
  const double T = r.kinetic( q0, v0 ), U = r.potential( q0 );
  const VD p = r.momentum( v0 ); const VX L = r.angular( q0, v0 );
#if defined(SYS_BALL2D)
  const auto& st = sim.state();
  const double rT = st.computeKineticEnergy(), rU = st.computePotentialEnergy(), rE = st.computeTotalEnergy();
  const VX rp = VX( st.computeMomentum() ); VX rL( 1 ); rL( 0 ) = st.computeAngularMomentum();
#elif defined(SYS_RB2D)
  const double rT = sim.computeKineticEnergy(), rU = sim.computePotentialEnergy(), rE = sim.computeTotalEnergy();
  const VX rp = VX( sim.computeTotalMomentum() ); VX rL( 1 ); rL( 0 ) = sim.computeTotalAngularMomentum();
#else
  const double rT = sim.computeKineticEnergy(), rU = sim.computePotentialEnergy(), rE = sim.computeTotalEnergy();
  const VX rp = VX( sim.computeTotalMomentum() ), rL = VX( sim.computeTotalAngularMomentum() );
#endif
  VP_CHECK( close( rT, T ), "kinetic energy " << rT << ", defined " << T );
  VP_CHECK( close( rU, U ), "potential energy " << rU << ", defined " << U );
  VP_CHECK( close( rE, T + U ), "total energy " << rE << ", defined " << T + U );
  VP_CHECK( close( rp, VX( p ) ), "momentum " << vp::vstr( rp ) << ", defined " << vp::vstr( p ) );
  VP_CHECK( close( rL, L, 1e-9 ), "angular momentum " << vp::vstr( rL ) << ", defined " << vp::vstr( L ) );
  // The same for a velocity that is not the current one
  const VX v2 = VX::LinSpaced( v0.size(), -1.0, 2.5 );
  VX p2, L2;
  fsys( sim ).computeMomentum( v2, p2 ); fsys( sim ).computeAngularMomentum( v2, L2 );
  VP_CHECK( close( p2, VX( r.momentum( v2 ) ) ) && close( L2, r.angular( q0, v2 ), 1e-9 ), "momenta of a given velocity: " << vp::vstr( p2 ) << vp::vstr( L2 ) << ", defined " << vp::vstr( r.momentum( v2 ) ) << vp::vstr( r.angular( q0, v2 ) ) );
  // Forces: their definition, at the state's own and at another configuration, and minus the slope of the reported potential
  VX q2 = q0; for( int i = 0; i < r.n(); ++i ) { setPos( q2, i, VD( pos( q0, i ) + vd( 0.25, -0.125 * i, 0.5 ) ) ); }
  for( const VX& qq : { q0, q2 } )
  {
    VX F = VX::Constant( v0.size(), 7.0 );
    fsys( sim ).computeForce( qq, v2, 0.5, F );
    VP_CHECK( close( F, r.force( qq ) ), "force at " << vp::vstr( qq ) << ": " << vp::vstr( F ) << ", defined " << vp::vstr( r.force( qq ) ) );
  }
  VX F = VX::Constant( v0.size(), 7.0 );
  fsys( sim ).computeForce( q0, v0, 0.0, F );
  for( int i = 0; i < r.n(); ++i ) { for( int k = 0; k < D; ++k )
  {
    const double h = 1.0e-5;
    double Up[2];
    for( int s = 0; s < 2; ++s )
    {
      VD x = pos( q0, i ); x( k ) += s ? h : -h;
      setPos( q( sim ), i, x );
#if defined(SYS_BALL2D)
      Up[s] = sim.state().computePotentialEnergy();
#else
      Up[s] = sim.computePotentialEnergy();
#endif
    }
    q( sim ) = q0;
    const double slope = ( Up[1] - Up[0] ) / ( 2 * h );
    VP_CHECK( std::abs( slope + lin( F, i )( k ) ) <= ( r.sc.penalty ? r.sc.pk * h : 0.0 ) + 1e-4 * std::max( 1.0, std::max( std::abs( Up[0] ), mag( F ) ) ), "force " << lin( F, i )( k ) << " on body " << i << " along axis " << k << " but the potential's slope is " << slope );
  } }
  // The linear configuration update moves by the given velocity for the given time
  VX qn( q0.size() ); qn.setConstant( 9.0 );
  fsys( sim ).linearInertialConfigurationUpdate( q0, v2, 0.125, qn );
  for( int i = 0; i < r.n(); ++i )
  {
#if defined(SYS_RB3D)
    const bool mv = r.moves( i );
    const Eigen::Vector3d w = ang( v2, i );
    const Eigen::Matrix3d E = mv ? rotation( { { 0.125 * w( 0 ), 0.125 * w( 1 ), 0.125 * w( 2 ) } } ) : Eigen::Matrix3d( Eigen::Matrix3d::Identity() );
    VP_CHECK( close( VX( pos( qn, i ) ), VX( pos( q0, i ) + ( mv ? 0.125 : 0.0 ) * lin( v2, i ) ) ) && ( rotOf( qn, i ) - E * rotOf( q0, i ) ).cwiseAbs().maxCoeff() <= 1e-10, "linear update of body " << i << ": " << vp::vstr( pos( qn, i ) ) << "\n" << rotOf( qn, i ) );
#else
    VP_CHECK( close( VX( qn.segment( ( D + AD ) * i, D + AD ) ), VX( ( q0 + 0.125 * v2 ).segment( ( D + AD ) * i, D + AD ) ) ), "linear update of body " << i << ": " << vp::vstr( qn ) );
#endif
  }
}

static void history( const Scene& sc, const Tie& tie, int u, const Dt& dt, int steps, unsigned it0 )
{
  Sim sim = make( sc, tie );
  const Ref r{ sc, tie };
  const double h = double( dt.numerator() ) / double( dt.denominator() );
  const auto um = umap( u );
  checkReports( sim, r );
  bool anyFixed = false; for( int i = 0; i < r.n(); ++i ) { anyFixed = anyFixed || !r.moves( i ); }
  const VX qs = q( sim ), vs = v( sim );
  for( int s = 0; s < steps; ++s )
  {
    const VX q0 = q( sim ), v0 = v( sim );
    flowU( sim, it0 + unsigned( s ), dt, *um );
    vp::transition(); vp::state( hash( q( sim ), hash( v( sim ) ) ) );
    checkStep( r, u, h, q0, v0, q( sim ), v( sim ) );
    checkReports( sim, r );
    if( !tie.on && !sc.gravity && !sc.gravity2 && !anyFixed )
    {
      VP_CHECK( close( VX( r.momentum( v( sim ) ) ), VX( r.momentum( vs ) ) ), umapName( u ) << ": momentum " << vp::vstr( r.momentum( v( sim ) ) ) << " after " << s + 1 << " steps, " << vp::vstr( r.momentum( vs ) ) << " before" );
      if( !sc.penalty && ( D == 2 || u > 0 ) ) { VP_CHECK( close( r.angular( q( sim ), v( sim ) ), r.angular( qs, vs ), 1e-9 ), umapName( u ) << ": angular momentum " << vp::vstr( r.angular( q( sim ), v( sim ) ) ) << " after " << s + 1 << " steps, " << vp::vstr( r.angular( qs, vs ) ) << " before" ); }
    }
  }
  // Verlet and the two momentum-preserving rotational integrators retrace their path when velocities are turned around
  const bool symmetric = u > 0;
  bool still = true; for( int i = 0; i < r.n(); ++i ) { if( !r.moves( i ) && ( lin( vs, i ).norm() > 0 || ( AD && ang( vs, i ).norm() > 0 ) ) ) { still = false; } }
  if( symmetric && still )
  {
    v( sim ) *= -1.0;
    for( int s = 0; s < steps; ++s ) { flowU( sim, it0 + unsigned( steps + s ), dt, *um ); vp::transition(); }
    VP_CHECK( close( q( sim ), qs, 1e-8 ) && close( VX( -v( sim ) ), vs, 1e-8 ), umapName( u ) << ": turning the velocities around does not lead back: " << vp::vstr( q( sim ) ) << ", started from " << vp::vstr( qs ) );
  }
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  const int steps = vp::thorough() ? 8 : 3;
  const std::vector<Dt> dts = { Dt( 1, 1000 ), Dt( 1, 10 ), Dt( 1, 5 ) };
  const double ms[] = { 0.3, 1.0, 30.1 };
  const std::array<double,3> rots[] = { { { 0, 0, 0 } }, { { 0.5, 0, 0 } }, { { -1.2, 0.3, 2.0 } }, { { 0, 3.0, 0.1 } } };
  const std::array<double,3> spins[] = { { { 0, 0, 0 } }, { { 1.5, 0, 0 } }, { { 0, -1.5, 0 } }, { { 0, 0, 1.0 } }, { { 0.5, -1.0, 0.75 } }, { { -1e-3, 0, 1.5 } } };
  const std::array<double,3> I3s[] = { { { 1, 1, 1 } }, { { 1.1, 1.5, 2 } }, { { 2.5, 1, 2 } }, { { 1.9, 2, 0.2 } }, { { 10.1, 10.1, 12.3 } } };
  const VD vels[] = { vd( 0, 0, 0 ), vd( 1, 0, 0 ), vd( -0.6, 2.1, 1.2 ), vd( 0, -3.3, 0.7 ) };
  // One body: every mass, inertia, orientation, spin, velocity, force combination and integrator
  const int nI = D == 3 ? 5 : AD ? 3 : 1, nR = AD ? 4 : 1, nW = AD ? ( D == 3 ? 6 : 3 ) : 1;
  vp::product( { 3, nI, nR, nW, 4, 8, NUMAPS, int( dts.size() ) }, [&]( const std::vector<int>& d )
  {
    vp::runCase( [&] { return "one body " + vp::str( d ) + " (mass, inertia, orientation, spin, velocity, forces, integrator, dt)"; }, [&]
    {
      Scene sc; Body b; b.x = vd( 0.6, -1.1, 2.3 ); b.m = ms[d[0]]; b.I = ms[d[1] % 3] * 0.4; b.I3 = I3s[d[1]]; b.rot = rots[d[2]]; b.w = D == 3 ? spins[d[3]] : std::array<double,3>{ { d[3] * 1.25 - 1.0, 0, 0 } }; b.v = vels[d[4]];
      b.kind = D == 3 ? 'b' : 'c';
      sc.b = { b };
      sc.gravity = d[5] & 1; sc.g = vd( 0.4, -9.81, 0.3 ); sc.gravity2 = d[5] & 2; sc.g2 = vd( -3.1, 1.1, 2.3 );
      Tie t; t.on = d[5] & 4; t.k = 2.0; t.kr = 0.3;
      // keep the discrete Moser-Veselov iteration within its range of convergence
      history( sc, t, d[6], dts[size_t( d[7] )], steps, 1 );
    } );
  } );
  // Several bodies, mixed kinds, all fixed subsets
  vp::product( { 3, 3, 8, 2, 4, NUMAPS, 3 }, [&]( const std::vector<int>& d )
  {
    vp::runCase( [&] { return "several bodies " + vp::str( d ) + " (count, menu offset, fixed, kinds, forces, integrator, first step number)"; }, [&]
    {
      Scene sc;
      const unsigned its[] = { 1, 13, 1000001 };
      for( int i = 0; i <= d[0]; ++i )
      {
        Body b; b.x = vd( 4.0 * i, 1.0 - 2.0 * i, -1.0 * i ); b.m = ms[size_t( ( i + d[1] ) % 3 )]; b.I = 0.5 * ms[size_t( ( 2 * i + d[1] ) % 3 )]; b.rot = rots[size_t( ( i + d[1] ) % 4 )]; b.w = spins[size_t( ( 2 * i + d[1] + 1 ) % 6 )]; b.v = vels[size_t( ( i + 2 * d[1] + 1 ) % 4 )];
        b.I3 = I3s[size_t( ( i + d[1] ) % 5 )];
        b.kind = AD && ( ( i + d[3] ) % 2 ) ? 'b' : 'c';
        if( b.kind == 'c' && D == 3 ) { b.I3 = { { b.I, b.I, b.I } }; }
        if( D == 3 && d[5] == 0 && d[2] ) { return; }   // exponential Euler supports no fixed bodies
        if( AD && ( d[2] >> i & 1 ) ) { b.fixed = true; if( D == 3 ) { b.v = VD::Zero(); b.w = { { 0, 0, 0 } }; } }
        sc.b.push_back( b );
      }
      if( d[2] >> ( d[0] + 1 ) ) { return; }
      sc.gravity = d[4] & 1; sc.g = vd( 0.4, -9.81, 0.3 );
      Tie t; t.on = d[4] & 2; t.k = 0.5; t.kr = 0.2;
      history( sc, t, d[5], Dt( 1, 10 ), steps, its[size_t( d[6] )] );
    } );
  } );
  // Crowds: nothing depends on a body's number
  const int crowd[] = { 9, 18, 35, 70 };
  vp::product( { vp::thorough() ? 4 : 3, 4, 4, NUMAPS }, [&]( const std::vector<int>& d )
  {
    vp::runCase( [&] { return "crowd " + vp::str( d ) + " (size, fixed pattern, forces, integrator)"; }, [&]
    {
      Scene sc;
      for( int i = 0; i < crowd[d[0]]; ++i )
      {
        Body b; b.x = vd( 4.0 * i, 1.0 - 2.0 * ( i % 7 ), -1.0 * i ); b.m = ms[size_t( i % 3 )]; b.I = 0.5 * ms[size_t( 2 * i % 3 )]; b.rot = rots[size_t( i % 4 )]; b.w = spins[size_t( ( 2 * i + 1 ) % 6 )]; b.v = vels[size_t( ( i + 1 ) % 4 )];
        b.I3 = I3s[size_t( i % 5 )];
        b.kind = AD && i % 2 ? 'b' : 'c';
        if( b.kind == 'c' && D == 3 ) { b.I3 = { { b.I, b.I, b.I } }; }
        if( D == 3 && d[3] == 0 && d[1] ) { return; }
        if( AD && ( d[1] == 1 ? i % 3 == 2 : d[1] == 2 ? i != crowd[d[0]] - 2 : d[1] == 3 ? i >= crowd[d[0]] / 2 : false ) ) { b.fixed = true; if( D == 3 ) { b.v = VD::Zero(); b.w = { { 0, 0, 0 } }; } }
        sc.b.push_back( b );
      }
      sc.gravity = d[2] & 1; sc.g = vd( 0.4, -9.81, 0.3 );
      Tie t; t.on = d[2] & 2; t.k = 0.5; t.kr = 0.2;
      history( sc, t, d[3], Dt( 1, 10 ), 2, 1 );
    } );
  } );
#if defined(SYS_BALL2D)
  // Penalty forces: pairs and triples on a lattice from deep overlap through touching to apart
  const double ks[] = { 1.0, 100.0 }, ps[] = { 2.0, 2.5, 3.0 };
  for( double k : ks ) { for( double p : ps ) { for( int g = 0; g < 2; ++g ) { for( int u = 0; u < NUMAPS; ++u )
  {
    for( int x = -8; x <= 8; ++x ) { for( int y = -8; y <= 8; ++y ) { for( int third = 0; third < 4; ++third )
    {
      if( !x && !y ) { continue; }
      vp::runCase( [&] { std::ostringstream o; o << "penalty k=" << k << " p=" << p << " gravity " << g << " " << umapName( u ) << " offset " << x << "," << y << " third " << third; return o.str(); }, [&]
      {
        Scene sc; sc.penalty = true; sc.pk = k; sc.pp = p; sc.gravity = g; sc.g = vd( 0, -2 );
        Body a; a.x = vd( 0, 0 ); a.dim[0] = 0.75; a.m = 2.1; a.v = vd( 0.3, 0 );
        Body b; b.x = vd( 0.25 * x, 0.25 * y ); b.dim[0] = 0.5; b.m = 0.5; b.v = vd( 0, -1 );
        sc.b = { a, b };
        if( third ) { Body c; c.x = third == 1 ? vd( 0.5, 0.3125 ) : third == 2 ? vd( 30, 0 ) : vd( -1.5, 0.0625 ); c.dim[0] = 1.0; c.m = 1.0; sc.b.insert( sc.b.begin() + ( x & 1 ), c ); }
        history( sc, Tie(), u, Dt( 1, 100 ), steps, 1 );
      } );
    } } }
  } } } }
#endif
  return vp::finish();
}
