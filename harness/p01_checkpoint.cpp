// P01: a simulation restored from a checkpoint is indistinguishable from one that was never interrupted.
//
// A session is everything a checkpoint of the command line programs holds: simulator (state and contact memory),
// step number, integrator, time step, impact and friction solvers with their settings. For every session of the
// enumerated family, every step at which it is written out and read back into fresh objects (and every later step
// at which the restored session is written out and read back again), all later states must equal, bit for bit,
// those of the uninterrupted session, and so must every later checkpoint.
#include "sys.h"
#include "maps.h"
#if defined(SYS_BALL2D)
#include "ball2d/Ball2DUtilities.h"
namespace SU = Ball2DUtilities;
#elif defined(SYS_RB2D)
#include "rigidbody2d/RigidBody2DUtilities.h"
namespace SU = RigidBody2DUtilities;
#else
#include "rigidbody3d/RigidBody3DUtilities.h"
namespace SU = RigidBody3DUtilities;
#endif
using namespace sys;

struct Cfg
{
  std::string name;
  char mode = 'U';              // U: no contacts handled, I: impacts, F: impacts and friction
  int um = 0;
  int io = 0; bool warm = false;
  int fs = 0, ifm = 0;
  double CoR = 0.5, mu = 0.3, tol = 1.0e-8;
  unsigned iters = 5000, eval_every = 1;
};

struct Session
{
  Sim sim;
  unsigned it = 0;
  std::unique_ptr<UnconstrainedMap> um;
  Dt dt;
  std::unique_ptr<ImpactOperator> io;
  double CoR = 0.0;
  std::unique_ptr<FrictionSolver> fs;
  double mu = 0.0;
  std::unique_ptr<ImpactMap> im;
  std::unique_ptr<ImpactFrictionMap> ifm;

  void write( std::ostream& o ) const
  {
    sim.serialize( o );
    Utilities::serialize( it, o );
    SU::serialize( um, o );
    Utilities::serialize( dt, o );
    ConstrainedMapUtilities::serialize( io, o );
    Utilities::serialize( CoR, o );
    ConstrainedMapUtilities::serialize( fs, o );
    Utilities::serialize( mu, o );
#if !defined(SYS_RB3D)
    ConstrainedMapUtilities::serialize( im, o );
#endif
    ConstrainedMapUtilities::serialize( ifm, o );
  }
  void read( std::istream& i )
  {
    sim.deserialize( i );
    it = Utilities::deserialize<unsigned>( i );
    um = SU::deserializeUnconstrainedMap( i );
    dt = Utilities::deserialize<Dt>( i );
    io = ConstrainedMapUtilities::deserializeImpactOperator( i );
    CoR = Utilities::deserialize<double>( i );
    fs = ConstrainedMapUtilities::deserializeFrictionSolver( i );
    mu = Utilities::deserialize<double>( i );
#if !defined(SYS_RB3D)
    im = ConstrainedMapUtilities::deserializeImpactMap( i );
#endif
    ifm = ConstrainedMapUtilities::deserializeImpactFrictionMap( i );
  }
  std::string bytes() const { std::ostringstream o; write( o ); return o.str(); }
  void step()
  {
    PythonScripting cb;
    const unsigned next = it + 1;
    if( fs ) { sim.flow( cb, next, dt, *um, CoR, mu, *fs, *ifm ); }
    else if( io )
    {
#if defined(SYS_RB3D)
      sim.flow( cb, next, dt, *um, *io, CoR );
#else
      sim.flow( cb, next, dt, *um, *io, CoR, *im );
#endif
    }
    else { sim.flow( cb, next, dt, *um ); }
    ++it;
  }
};

static void start( Session& s, const Scene& sc, const Cfg& c )
{
  s.sim = build( sc );
  s.um = umap( c.um );
  s.dt = Dt( 1, 16 );
  s.CoR = c.CoR; s.mu = c.mu;
  if( c.mode == 'I' )
  {
    const double tol = c.tol;
    const unsigned it = c.iters;
    switch( c.io )
    {
      case 0: s.io.reset( new GaussSeidelOperator( 1.0e-9 ) ); break;
      case 1: s.io.reset( new GROperator( 1.0e-3, LCPOperatorAPGD( tol, it ) ) ); break;
      case 2: s.io.reset( new GRROperator( LCPOperatorAPGD( tol, it ), LCPOperatorAPGD( 0.5 * tol, it + 1 ) ) ); break;
      case 3: s.io.reset( new LCPOperatorAPGD( tol, it ) ); break;
      case 4: s.io.reset( new GROperator( 1.0e-9, GaussSeidelOperator( 1.0e-9 ) ) ); break;
      default: s.io.reset( new LCPOperatorQL( tol ) ); break;
    }
    s.im.reset( new ImpactMap( c.warm ) );
  }
  if( c.mode == 'F' ) { s.fs = fsolver( c.fs, 1.0e-6, c.eval_every, 6, 1000, 1.0e-3 ); s.ifm = ifmap( c.ifm, c.tol, c.iters, 0.001 ); }
}

// Every value the public interface of the simulator exposes
struct Dump
{
  std::ostringstream o;
  void d( double x ) { char b[40]; std::snprintf( b, sizeof b, "%a ", x ); o << b; }
  template<typename V> void v( const char* n, const V& x ) { o << n << "="; for( int i = 0; i < int( x.size() ); ++i ) { d( double( x.data()[i] ) ); } o << "\n"; }
  void s( const char* n, double x ) { o << n << "="; d( x ); o << "\n"; }
  void m( const char* n, const SparseMatrixsc& A ) { const MX D = MX( A ); o << n << " " << A.nonZeros() << " "; v( "", D ); }
};
static std::string dump( Sim& sim )
{
  Dump D;
  auto& st = sim.state();
  const VX q = st.q(), v = st.v();
  D.v( "q", q ); D.v( "v", v ); D.m( "M", st.M() ); D.m( "Minv", st.Minv() );
  std::unique_ptr<UnconstrainedMap> u = umap( 0 );
#if defined(SYS_BALL2D)
  D.v( "r", st.r() ); for( bool b : st.fixed() ) { D.s( "fixed", b ); }
  for( const auto& p : st.staticDrums() ) { D.v( "drum x", p.x() ); D.s( "r", p.r() ); }
  for( const auto& p : st.staticPlanes() ) { D.v( "plane x", p.x() ); D.v( "v", p.v() ); D.v( "n", p.n() ); D.v( "t", p.t() ); }
  for( const auto& p : st.planarPortals() )
  {
    D.v( "portal ax", p.planeA().x() ); D.v( "an", p.planeA().n() ); D.v( "bx", p.planeB().x() ); D.v( "bn", p.planeB().n() ); D.v( "av", p.planeA().v() ); D.v( "bv", p.planeB().v() );
    D.s( "bounds", p.bounds() ); D.v( "tax", p.transformedAx() ); D.v( "tbx", p.transformedBx() ); D.s( "le", p.isLeesEdwards() ); D.v( "kv", p.getKinematicVelocityOfPoint( p.planeA().x() - 0.25 * p.planeA().n() ) );
  }
  for( const auto& f : st.forces() ) { VX F = VX::Zero( v.size() ); f->computeForce( q, v, st.M(), st.r(), F ); D.v( "force", F ); D.s( "U", f->computePotential( q, st.M(), st.r() ) ); }
  D.s( "T", st.computeKineticEnergy() ); D.s( "V", st.computePotentialEnergy() );
#elif defined(SYS_RB2D)
  for( unsigned i = 0; i < unsigned( v.size() / 3 ); ++i )
  {
    D.s( "fixed", st.fixed( i ) ); D.s( "m", st.m( i ) ); D.s( "I", st.I( i ) ); D.s( "gi", st.geometryIndices()( i ) );
    const auto& g = st.bodyGeometry( i );
    Array2s lo, hi; g->computeAABB( Vector2s( 0.1, 0.2 ), 0.3, lo, hi ); D.v( "aabb", lo ); D.v( "", hi ); D.s( "type", double( g->type() ) );
  }
  D.s( "ngeo", double( st.geometry().size() ) );
  for( const auto& p : st.planes() ) { D.v( "plane x", p.x() ); D.v( "v", p.v() ); D.v( "n", p.n() ); D.v( "t", p.t() ); D.s( "omega", p.omega() ); }
  for( const auto& p : st.planarPortals() )
  {
    D.v( "portal ax", p.planeA().x() ); D.v( "an", p.planeA().n() ); D.v( "bx", p.planeB().x() ); D.v( "bn", p.planeB().n() );
    D.s( "bounds", p.bounds() ); D.s( "v", p.v() ); D.s( "delta", p.delta() ); D.v( "tax", p.transformedAx() ); D.v( "tbx", p.transformedBx() );
  }
  for( const auto& f : st.forces() ) { VX F = VX::Zero( v.size() ); f->computeForce( q, v, st.M(), F ); D.v( "force", F ); D.s( "U", f->computePotential( q, st.M() ) ); }
  D.s( "T", sim.computeKineticEnergy() ); D.s( "V", sim.computePotentialEnergy() );
#else
  D.m( "M0", st.M0() ); D.m( "Minv0", st.Minv0() );
  for( unsigned i = 0; i < st.nbodies(); ++i )
  {
    D.s( "fixed", st.isKinematicallyScripted( i ) ); D.s( "m", st.getTotalMass( i ) ); D.s( "gi", st.getGeometryIndexOfBody( i ) );
    const RigidBodyGeometry& g = st.getGeometryOfBody( i );
    D.o << g.name() << "\n"; D.s( "vol", g.volume() );
    Array3s lo, hi; g.computeAABB( Vector3s( 0.1, 0.2, 0.3 ), Matrix33sr( rotation( { { 0.3, 0.4, 0.5 } } ) ), lo, hi ); D.v( "aabb", lo ); D.v( "", hi );
    double M; Vector3s c, I; Matrix33sr R; g.computeMassAndInertia( 1.25, M, c, I, R ); D.s( "mass", M ); D.v( "c", c ); D.v( "I", I ); D.v( "R", R );
    if( g.getType() == RigidBodyGeometryType::TRIANGLE_MESH )
    {
      const RigidBodyTriangleMesh& m = static_cast<const RigidBodyTriangleMesh&>( g );
      D.o << m.inputFileName() << "\n"; D.v( "verts", m.vertices() ); D.v( "faces", m.faces() ); D.v( "hull", m.convexHullVertices() ); D.v( "samples", m.samples() ); D.v( "R", m.R() );
      for( int k = 0; k < 60; ++k ) { Vector3s n = Vector3s::Zero(); const Vector3s x( 0.17 * ( k % 5 ) - 0.3, 0.11 * ( k % 4 ) - 0.2, 0.13 * ( k % 3 ) - 0.1 ); D.s( "hit", m.detectCollision( x, n ) ); D.v( "n", n ); }
    }
  }
  D.s( "ngeo", st.ngeo() );
  for( const auto& p : st.staticPlanes() ) { D.v( "plane x", p.x() ); D.v( "v", p.v() ); D.v( "n", p.n() ); D.v( "omega", p.omega() ); D.v( "t0", p.t0() ); }
  for( const auto& p : st.staticCylinders() ) { D.v( "cyl x", p.x() ); D.v( "v", p.v() ); D.v( "axis", p.axis() ); D.v( "omega", p.omega() ); D.s( "r", p.r() ); D.v( "R", p.R().coeffs() ); }
  for( unsigned i = 0; i < st.numPlanarPortals(); ++i )
  {
    const PlanarPortal& p = st.planarPortal( i );
    D.v( "portal ax", p.planeA().x() ); D.v( "an", p.planeA().n() ); D.v( "bx", p.planeB().x() ); D.v( "bn", p.planeB().n() );
    for( int k = 0; k < 2; ++k ) { Vector3s y; p.teleportPoint( Vector3s( 0.1, 0.2, 0.3 ), k == 1, y ); D.v( "tp", y ); }
  }
  for( const auto& f : st.forces() ) { VX F = VX::Zero( v.size() ); f->computeForce( q, v, st.M(), F ); D.v( "force", F ); D.s( "U", f->computePotential( q, st.M() ) ); D.o << f->name() << "\n"; }
  D.s( "bb", double( st.boundaryBehavior() ) ); D.v( "bmin", st.boundaryMin() ); D.v( "bmax", st.boundaryMax() );
#endif
  return D.o.str();
}

static Body ball( VD x, VD v, double r, double m, bool fixed = false, double w = 0.0 )
{
  Body b; b.x = x; b.v = v; b.dim = { { r, r, r } }; b.m = m; b.I = 0.4 * m * r * r; b.fixed = fixed;
  if( AD == 1 ) { b.w[0] = w; } else if( AD == 3 ) { b.w = { { 0.3 * w, w, -0.5 * w } }; b.rot = { { 0.2, -0.1, 0.4 } }; }
  return b;
}

struct Sc { std::string name; Scene s; bool cacheable = true, smooth = true, gap = true, exit_box = false; };

static std::vector<Sc> scenes()
{
  std::vector<Sc> r;
#if defined(SYS_BALL2D)
  {
    Sc s; s.name = "pile in a drum with moving planes";
    s.s.b = { ball( vd( 0, 0.99 ), vd( 0.3, -0.5 ), 1.0, 1.0 ), ball( vd( 1.7, 1.2 ), vd( -0.8, -0.3 ), 0.75, 2.0, true ), ball( vd( 0.8, 2.4 ), vd( 0.1, -1.1 ), 0.5, 0.7 ), ball( vd( -1.4, 0.98 ), vd( 1.5, 0.2 ), 0.5, 1.3 ) };
    Plane p; p.x = vd( 0, 0 ); p.n = vd( 0, 1 ); p.v = vd( 0.25, 0.0 ); s.s.planes.push_back( p );
    p.x = vd( -1.9, 0 ); p.n = vd( 1, 0 ); p.v = vd( 0.125, 0.5 ); s.s.planes.push_back( p );
    Round d; d.x = vd( 0.5, 1.0 ); d.r = 2.25; s.s.rounds.push_back( d );
    d.x = vd( 0.25, 1.25 ); d.r = 3.5; s.s.rounds.push_back( d );
    s.s.gravity = true; s.s.g = vd( 0.2, -4.0 ); s.s.gravity2 = true; s.s.g2 = vd( -0.7, 0.5 );
    s.gap = false;
    r.push_back( s );
    s.name = "pile on moving planes"; s.s.rounds.clear(); s.gap = true; r.push_back( s );
  }
  {
    Sc s; s.name = "penalty forces";
    s.s.b = { ball( vd( 0, 0 ), vd( 0.3, -0.5 ), 1.0, 1.0 ), ball( vd( 1.7, 0.2 ), vd( -0.8, -0.3 ), 0.75, 2.0 ), ball( vd( 0.8, 1.1 ), vd( 0.1, -1.1 ), 0.5, 0.7 ) };
    s.s.gravity = true; s.s.g = vd( 0.2, -1.0 ); s.s.penalty = true; s.s.pk = 12.5; s.s.pp = 2.5;
    r.push_back( s );
  }
  {
    Sc s; s.name = "sheared periodic box"; s.cacheable = false; s.smooth = false; s.gap = false;
    s.s.b = { ball( vd( 3.4, 3.6 ), vd( 1.9, 2.5 ), 0.75, 1.0 ), ball( vd( -3.6, -3.5 ), vd( -1.7, -2.1 ), 0.5, 2.0 ), ball( vd( 3.3, -3.7 ), vd( 0.4, -1.1 ), 0.6, 0.7 ), ball( vd( 0, 0 ), vd( 1, 2 ), 0.5, 1.0 ) };
    Portal p; p.xa = vd( -4, 0 ); p.na = vd( 1, 0 ); p.xb = vd( 4, 0 ); p.nb = vd( -1, 0 ); s.s.portals.push_back( p );
    p.xa = vd( 0, -4 ); p.na = vd( 0, 1 ); p.xb = vd( 0, 4 ); p.nb = vd( 0, -1 ); p.speed = 5.0; p.bounds = 4.0; p.sliding = true; s.s.portals.push_back( p );
    s.s.gravity = true; s.s.g = vd( 0.2, -1.0 );
    r.push_back( s );
  }
#elif defined(SYS_RB2D)
  {
    Sc s; s.name = "discs, fixed disc and moving planes"; s.smooth = false; s.gap = false;
    s.s.b = { ball( vd( 0, 0.99 ), vd( 0.3, -0.5 ), 1.0, 1.0, false, 0.5 ), ball( vd( 1.7, 1.3 ), vd( 0.1, 0.1 ), 0.75, 2.0, true, 0.75 ), ball( vd( 0.8, 2.4 ), vd( 0.1, -1.1 ), 0.5, 0.7, false, -0.3 ), ball( vd( -1.4, 0.98 ), vd( 1.5, 0.2 ), 0.5, 1.3, false, 0.2 ) };
    Plane p; p.x = vd( 0, 0 ); p.n = vd( 0, 1 ); p.v = vd( 0.25, 0.0 ); p.w[0] = 0.125; s.s.planes.push_back( p );
    p.x = vd( -1.9, 0 ); p.n = vd( 1, 0 ); p.v = vd( -0.125, 0.5 ); p.w[0] = -0.0625; s.s.planes.push_back( p );
    s.s.gravity = true; s.s.g = vd( 0.2, -4.0 ); s.s.gravity2 = true; s.s.g2 = vd( -0.7, 0.5 );
    r.push_back( s );
    s.name = "free discs"; s.smooth = true; s.s.planes.clear(); s.s.b[1].fixed = false; s.s.b[1].v = vd( -1.5, -1 ); s.s.b[3].v = vd( 4, 0.1 );
    r.push_back( s );
  }
  {
    Sc s; s.name = "boxes and discs on a plane"; s.smooth = false; s.gap = false; s.cacheable = false;
    Body a = ball( vd( 0, 0.5 ), vd( 0.3, -0.5 ), 1.0, 1.0, false, 0.5 ); a.kind = 'b'; a.dim = { { 1.0, 0.5, 1 } }; a.rot[0] = 0.1;
    Body b = ball( vd( 0.4, 1.45 ), vd( -0.3, -0.5 ), 1.0, 2.0, false, -0.25 ); b.kind = 'b'; b.dim = { { 0.75, 0.5, 1 } }; b.rot[0] = 0.2;
    Body c = ball( vd( 0.1, 2.35 ), vd( 0.2, -0.9 ), 0.5, 0.5, false, 0.1 );
    s.s.b = { a, b, c };
    Plane p; p.x = vd( 0, 0 ); p.n = vd( 0, 1 ); s.s.planes.push_back( p );
    s.s.gravity = true; s.s.g = vd( 0.2, -4.0 );
    r.push_back( s );
  }
  {
    Sc s; s.name = "sheared periodic box"; s.cacheable = false; s.smooth = false; s.gap = false;
    s.s.b = { ball( vd( 3.4, 3.6 ), vd( 1.9, 2.5 ), 0.75, 1.0, false, 0.5 ), ball( vd( -3.6, -3.5 ), vd( -1.7, -2.1 ), 0.5, 2.0, false, 0.25 ), ball( vd( 3.3, -3.7 ), vd( 0.4, -1.1 ), 0.6, 0.7 ), ball( vd( 0, 0 ), vd( 1, 2 ), 0.5, 1.0 ) };
    Portal p; p.xa = vd( -4, 0 ); p.na = vd( 1, 0 ); p.xb = vd( 4, 0 ); p.nb = vd( -1, 0 ); s.s.portals.push_back( p );
    p.xa = vd( 0, -4 ); p.na = vd( 0, 1 ); p.xb = vd( 0, 4 ); p.nb = vd( 0, -1 ); p.speed = 5.0; p.bounds = 4.0; p.sliding = true; s.s.portals.push_back( p );
    s.s.gravity = true; s.s.g = vd( 0.2, -1.0 );
    r.push_back( s );
  }
#else
  {
    Sc s; s.name = "balls in a spinning cylinder on a moving plane with a fixed ball";
    s.s.b = { ball( vd( 0, 0.99, 0.1 ), vd( 0.3, -0.5, 0.2 ), 1.0, 1.0, false, 0.5 ), ball( vd( 1.7, 1.25, 0 ), vd( 0, 0, 0 ), 0.75, 2.0, true ), ball( vd( 0.8, 2.4, -0.1 ), vd( 0.1, -1.1, 0.3 ), 0.5, 0.7, false, -0.3 ), ball( vd( -1.4, 0.98, 0.2 ), vd( -1.5, -0.2, 0.1 ), 0.5, 1.3, false, 0.2 ) };
    s.s.b[1].w = { { 0, 0, 0 } };
    Plane p; p.x = vd( 0, 0, 0 ); p.n = vd( 0, 1, 0 ); p.v = vd( 0.25, 0.0, -0.5 ); p.w = { { 0.0, 0.125, 0.0 } }; s.s.planes.push_back( p );
    Round c; c.x = vd( 0.3, 0.8, 0 ); c.axis = vd( 0, 0, 1 ); c.r = 2.2; c.w = 0.75; s.s.rounds.push_back( c );
    c.x = vd( 0.3, 0.9, 0 ); c.axis = vd( 0, 1, 0 ); c.r = 2.4; c.w = -0.5; s.s.rounds.push_back( c );
    s.s.gravity = true; s.s.g = vd( 0.2, -4.0, 0.3 ); s.s.gravity2 = true; s.s.g2 = vd( -0.7, 0.5, 0.1 );
    r.push_back( s );
    s.name = "balls inside a bounded domain"; s.exit_box = true; r.push_back( s );
  }
  {
    Sc s; s.name = "free balls on a plane";
    s.s.b = { ball( vd( 0, 0.99, 0.1 ), vd( 0.3, -0.5, 0.2 ), 1.0, 1.0, false, 0.5 ), ball( vd( 1.7, 1.3, 0 ), vd( -1.5, -1, 0.1 ), 0.75, 2.0, false, -0.2 ), ball( vd( 0.8, 2.45, -0.1 ), vd( 0.1, -1.1, 0.3 ), 0.5, 0.7, false, -0.3 ) };
    Plane p; p.x = vd( 0, 0, 0 ); p.n = vd( 0, 1, 0 ); s.s.planes.push_back( p );
    s.s.gravity = true; s.s.g = vd( 0.2, -4.0, 0.3 );
    r.push_back( s );
  }
  {
    Sc s; s.name = "boxes on a plane"; s.cacheable = false; s.gap = false;
    Body a = ball( vd( 0, 0.5, 0 ), vd( 0.3, -0.5, 0.1 ), 1.0, 1.0, false, 0.5 ); a.kind = 'b'; a.dim = { { 1.0, 0.5, 0.75 } }; a.rot = { { 0.05, 0.3, 0.02 } };
    Body b = ball( vd( 0.4, 1.45, 0.2 ), vd( -0.3, -0.5, -0.2 ), 1.0, 2.0, false, -0.25 ); b.kind = 'b'; b.dim = { { 0.75, 0.5, 0.5 } }; b.rot = { { 0.0, -0.2, 0.1 } };
    s.s.b = { a, b };
    Plane p; p.x = vd( 0, 0, 0 ); p.n = vd( 0, 1, 0 ); s.s.planes.push_back( p );
    s.s.gravity = true; s.s.g = vd( 0.2, -4.0, 0.1 );
    r.push_back( s );
  }
  {
    Sc s; s.name = "meshes on a plane in a cylinder"; s.cacheable = false; s.gap = false; s.smooth = false;
    Body a = ball( vd( 0, 0.2, 0 ), vd( 0.3, -0.5, 0.1 ), 1.0, 1.0, false, 0.5 ); a.kind = 'm'; a.dim = { { 1.0, 0.5, 0.25 } }; a.rot = { { 1.5, 0.3, 0.02 } };
    Body b = ball( vd( 0.4, 0.68, 0.2 ), vd( -0.3, -0.5, -0.2 ), 1.0, 2.0, false, -0.25 ); b.kind = 'm'; b.dim = { { 0.75, 0.5, 0.3 } }; b.rot = { { 1.4, -0.2, 0.1 } };
    s.s.b = { a, b };
    Plane p; p.x = vd( 0, 0, 0 ); p.n = vd( 0, 1, 0 ); s.s.planes.push_back( p );
    s.s.gravity = true; s.s.g = vd( 0.2, -4.0, 0.1 );
    r.push_back( s );
    Round c; c.x = vd( 0.3, 0.8, 0 ); c.axis = vd( 0, 1, 0 ); c.r = 1.1; s.s.rounds.push_back( c ); s.name = "meshes on a plane in a cylinder (Sobogus)"; r.push_back( s );
  }
  {
    Sc s; s.name = "periodic box"; s.cacheable = false; s.smooth = false; s.gap = false;
    s.s.b = { ball( vd( 3.4, 3.6, 3.5 ), vd( 1.9, 2.5, 1.6 ), 0.75, 1.0, false, 0.5 ), ball( vd( -3.6, 3.5, 3.4 ), vd( -1.7, -2.1, 1 ), 0.6, 2.0, false, 0.25 ), ball( vd( 3.3, -3.6, 3.7 ), vd( 0.4, -1.1, 2 ), 0.6, 0.7 ), ball( vd( 0, 0, 0 ), vd( 1, 2, 3 ), 0.5, 1.0 ) };
    Portal p; p.xa = vd( -4, 0, 0 ); p.na = vd( 1, 0, 0 ); p.xb = vd( 4, 0, 0 ); p.nb = vd( -1, 0, 0 ); s.s.portals.push_back( p );
    p.xa = vd( 0, -4, 0 ); p.na = vd( 0, 1, 0 ); p.xb = vd( 0, 4, 0 ); p.nb = vd( 0, -1, 0 ); s.s.portals.push_back( p );
    s.s.gravity = true; s.s.g = vd( 0.2, -1.0, 0.3 );
    r.push_back( s );
  }
#endif
  {
    // indices and counts that no longer fit small numbers
    Sc s; s.name = "crowd on a moving plane"; s.smooth = false; s.gap = false;
    for( int i = 0; i < 24; ++i )
    {
      const int c = i / 2, up = i % 2;
      s.s.b.push_back( ball( vd( 1.3 * c + 0.1 * up, 0.49 + 0.97 * up, D == 3 ? 0.05 * c : 0.0 ), vd( 0.3 - 0.05 * c, -0.5 - 0.25 * up, D == 3 ? 0.1 : 0.0 ), 0.5, 1.0 + 0.25 * ( i % 5 ), false, 0.1 * ( i % 4 ) ) );
    }
    Plane p; p.x = vd( 0, 0 ); p.n = vd( 0, 1 ); p.v = vd( 0.25, 0.0 ); s.s.planes.push_back( p );
    s.s.gravity = true; s.s.g = vd( 0.2, -4.0 );
    r.push_back( s );
  }
  return r;
}

static std::vector<Cfg> configs( const Sc& s )
{
  std::vector<Cfg> r;
  const bool boxes = s.s.b[0].kind == 'b', mesh = s.s.b[0].kind == 'm';
  for( int u = 0; u < NUMAPS; ++u )
  {
    if( D == 3 && u == 0 && std::any_of( s.s.b.begin(), s.s.b.end(), []( const Body& b ) { return b.fixed; } ) ) { continue; } // exponential Euler refuses fixed bodies
    Cfg c; c.um = u; c.name = std::string( umapName( u ) ); r.push_back( c );
    // Impacts
    for( int io = 0; io < 6; ++io )
    {
#if defined(SYS_RB2D)
      if( io == 0 || io == 4 || boxes ) { continue; }   // not implemented for these contacts
#endif
#if defined(SYS_BALL2D)
      if( ( io == 0 || io == 4 ) && ( !s.s.portals.empty() || !s.s.rounds.empty() || !s.s.planes.empty() ) ) { continue; }
#endif
#if defined(SYS_RB3D)
      if( io == 0 || io == 4 ) { continue; }
      if( !s.s.rounds.empty() && mesh ) { continue; }
#endif
      for( int warm = 0; warm < ( D == 3 || !s.cacheable || io == 0 || io == 4 ? 1 : 2 ); ++warm )
      {
        for( double CoR : { 0.0, 0.5 } )
        {
          Cfg d = c; d.mode = 'I'; d.io = io; d.warm = warm != 0; d.CoR = CoR; d.tol = 1.0e-3; d.iters = 40;
          if( io == 2 || io == 1 ) { d.tol = 1.0e-6; d.iters = 1000; }
          d.name += std::string( " impact " ) + ( io == 5 ? "lcp_ql" : iopName( io ) ) + ( warm ? " warm" : "" ) + " CoR=" + std::to_string( CoR );
          r.push_back( d );
        }
      }
    }
    // Friction
    for( int f = 0; f < 5; ++f )
    {
      if( f == GRRF && ( D == 2 || mesh ) ) { continue; }
      if( ( f == STAGGERED || f == STAGGERED_WARM || f == STAGGERED_QL ) && ( D == 3 || !s.smooth ) ) { continue; }
#if defined(SYS_RB3D)
      if( f == GRRF && ( boxes || !s.s.portals.empty() || s.s.b[1].fixed ) ) { continue; }
#endif
      for( int m = GEO; m <= SE_NFS; ++m )
      {
        if( m == GEO_NF && D == 3 ) { continue; }
        if( ifmCaches( m ) && !s.cacheable ) { continue; }
        if( ifmIsSE( m ) && f != SOBOGUS ) { continue; }
        if( ifmIsSE( m ) && ( AD == 1 || !s.s.portals.empty() || boxes || mesh || u != ( D == 3 ? 1 : 0 ) ) ) { continue; }
        if( ifmStabilizes( m ) && !s.gap ) { continue; }
        for( double CoR : { 0.0, 0.5 } )
        {
          if( ifmIsSE( m ) && CoR != 0.0 ) { continue; }
          for( int coarse = 0; coarse < ( f == SOBOGUS ? 2 : 1 ); ++coarse )
          {
            Cfg d = c; d.mode = 'F'; d.fs = f; d.ifm = m; d.CoR = CoR; d.mu = CoR == 0.0 ? 0.3 : 0.6;
            if( coarse ) { d.iters = 4; d.eval_every = 3; d.tol = 1.0e-4; }
            else { d.iters = mesh ? 40 : f == SOBOGUS ? 500 : 5; d.tol = 1.0e-6; }
            d.name += std::string( " friction " ) + fsName( f ) + " " + ifmName( m ) + ( coarse ? " coarse" : "" ) + " CoR=" + std::to_string( CoR );
            r.push_back( d );
          }
        }
      }
    }
  }
  return r;
}

static void compareTo( const std::vector<std::string>& ref, const std::vector<VX>& refq, const std::vector<VX>& refv, Session& t, unsigned k, const char* when )
{
  VP_CHECK( same( q( t.sim ), refq[k] ) && same( v( t.sim ), refv[k] ), when << ": state differs at step " << k << ": q " << vp::vstr( q( t.sim ) ) << " v " << vp::vstr( v( t.sim ) ) << " instead of q " << vp::vstr( refq[k] ) << " v " << vp::vstr( refv[k] ) );
  const std::string b = t.bytes();
  VP_CHECK( b == ref[k], when << ": the checkpoint written at step " << k << " differs (" << b.size() << " bytes against " << ref[k].size() << ")" );
}

static void restore( const std::string& bytes, Session& t )
{
  std::istringstream in( bytes );
  t.read( in );
  VP_CHECK( in.good() && size_t( in.tellg() ) == bytes.size(), "restoring read " << in.tellg() << " of " << bytes.size() << " bytes" );
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  const unsigned N = vp::thorough() ? 10 : 6;
  for( const Sc& sc : scenes() )
  {
    for( const Cfg& c : configs( sc ) )
    {
      vp::runCase( [&] { return sc.name + ", " + c.name + ": " + show( sc.s ); }, [&]
      {
        std::vector<std::string> ref, dumps; std::vector<VX> rq, rv;
        Session s; start( s, sc.s, c );
#if defined(SYS_RB3D)
        if( sc.exit_box )
        {
          s.sim.state().setBoundaryBehavior( SimBoundaryBehavior::EXIT );
          s.sim.state().setBoundaryMin( Vector3s( -20, -30, -40 ) ); s.sim.state().setBoundaryMax( Vector3s( 50, 60, 70 ) );
        }
#endif
        vp::note( "uninterrupted run" );
        bool contact = false;
        for( unsigned k = 0; ; ++k )
        {
          rq.push_back( q( s.sim ) ); rv.push_back( v( s.sim ) ); ref.push_back( s.bytes() ); dumps.push_back( dump( s.sim ) );
          vp::state( ref.back() );
          if( k == N ) { break; }
          Session chk; // what the step would do without contacts tells whether contacts mattered
          restore( ref.back(), chk );
          chk.fs.reset(); chk.io.reset(); chk.step();
          s.step(); vp::transition();
          contact = contact || !same( v( chk.sim ), v( s.sim ) );
        }
        if( c.mode != 'U' ) { vp::outcome( contact ? "contacts exercised" : "no contact: " + sc.name + ", " + c.name ); }
        for( unsigned i = 0; i <= N; ++i )
        {
          vp::note( "restored at step " + std::to_string( i ) );
          Session t; restore( ref[i], t );
          VP_CHECK( dump( t.sim ) == dumps[i], "restored scene differs at step " << i << "\n" << dump( t.sim ) << "\n instead of \n" << dumps[i] );
          compareTo( ref, rq, rv, t, i, "on restore" );
          for( unsigned k = i; k < N; ++k )
          {
            t.step(); vp::transition();
            compareTo( ref, rq, rv, t, k + 1, "after one restore" );
            if( i > 0 && !vp::thorough() && k > i ) { continue; }
            // a second interruption
            Session w; restore( t.bytes(), w );
            for( unsigned l = k + 1; l < N; ++l ) { w.step(); vp::transition(); compareTo( ref, rq, rv, w, l + 1, "after two restores" ); }
          }
        }
      } );
    }
  }

  // Every subset of scene features: what is written is what is read, and the next step agrees
  {
    const int NF = 8;
    for( int mask = 0; mask < ( 1 << NF ); ++mask )
    {
      for( int nbod = 1; nbod <= 3; ++nbod )
      {
        Scene sc;
        for( int i = 0; i < nbod; ++i ) { sc.b.push_back( ball( vd( 2.5 * i - 0.3, 1.0 + 0.4 * i, 0.1 * i ), vd( 0.5 - i, -0.5, 0.25 * i ), 1.0 + 0.1 * i, 1.0 + i, false, 0.25 * i ) ); }
        if( mask & 1 ) { sc.gravity = true; sc.g = vd( 0.25, -2.0, 0.5 ); }
        if( mask & 2 ) { sc.gravity2 = true; sc.g2 = vd( -0.5, 1.0, 0.125 ); }
        if( mask & 4 ) { Plane p; p.x = vd( 0.5, -0.0625 ); p.n = vd( 0, 1 ); p.v = vd( 0.5, 0 ); sc.planes.push_back( p ); }
        if( mask & 8 ) { Plane p; p.x = vd( -1.3, 0.25 ); p.n = vd( 0.8, 0.6 ); p.v = vd( -0.5, 0.25 ); if( AD == 1 ) { p.w[0] = 0.25; } else if( AD == 3 ) { p.w = { { 0.25, 0.5, -0.5 } }; } sc.planes.push_back( p ); }
        if( AD != 1 && ( mask & 16 ) ) { Round d; d.x = vd( 0.25, 0.5 ); if( D == 3 ) { d.axis = vd( 0.6, 0, 0.8 ); } d.r = 9.0; d.w = 0.375; sc.rounds.push_back( d ); }
        if( AD == 1 && ( mask & 16 ) ) { sc.b[0].kind = 'b'; sc.b[0].dim = { { 1.5, 0.5, 1 } }; sc.b[0].rot[0] = 0.3; }
        if( AD != 0 && ( mask & 32 ) && !( AD == 1 && ( mask & 64 ) ) ) { sc.b.back().fixed = true; if( D == 3 ) { sc.b.back().v.setZero(); sc.b.back().w = { { 0, 0, 0 } }; } }
        if( AD == 0 && ( mask & 32 ) ) { sc.penalty = true; sc.pk = 3.0; sc.pp = 2.5; }
        if( ( mask & 64 ) && !( AD == 1 && ( mask & ( 16 | 32 ) ) ) ) { Portal p; p.xa = vd( -9, 0 ); p.na = vd( 1, 0 ); p.xb = vd( 9, 0 ); p.nb = vd( -1, 0 ); sc.portals.push_back( p ); }
        if( ( mask & 128 ) && D == 2 && !( AD == 1 && ( mask & ( 16 | 32 ) ) ) ) { Portal p; p.xa = vd( 0, -9 ); p.na = vd( 0, 1 ); p.xb = vd( 0, 9 ); p.nb = vd( 0, -1 ); p.speed = 3.0; p.bounds = 8.0; p.sliding = true; sc.portals.push_back( p ); }
        vp::runCase( [&] { return "features: " + show( sc ); }, [&]
        {
          Cfg c; c.mode = 'U'; c.um = D == 3 ? 1 + mask % 2 : mask % 2;
          Session s; start( s, sc, c );
#if defined(SYS_RB3D)
          if( mask & 128 )
          {
            s.sim.state().setBoundaryBehavior( SimBoundaryBehavior::EXIT );
            s.sim.state().setBoundaryMin( Vector3s( -21, -31, -41 ) ); s.sim.state().setBoundaryMax( Vector3s( 51, 61, 71 ) );
          }
#endif
          for( int k = 0; k < 3; ++k )
          {
            const std::string b = s.bytes();
            Session t; restore( b, t );
            const std::string da = dump( s.sim ), db = dump( t.sim );
            VP_CHECK( da == db, "restored scene differs\n" << db << "\n instead of\n" << da );
            VP_CHECK( t.bytes() == b, "re-written checkpoint differs" );
            s.step(); t.step(); vp::transition( 2 );
            VP_CHECK( s.bytes() == t.bytes() && same( q( s.sim ), q( t.sim ) ) && same( v( s.sim ), v( t.sim ) ), "the step after the restore differs" );
            vp::state( b );
          }
        } );
      }
    }
  }
  // Boundaries, bodies and forces in every lattice direction, with values that are not exact in short binary form
  {
    const int L = D == 3 ? 3 : 9;
    for( int a = -L; a <= L; ++a ) { for( int b = -L; b <= L; ++b ) { for( int e = D == 3 ? -L : 0; e <= ( D == 3 ? L : 0 ); ++e )
    {
      if( a == 0 && b == 0 && e == 0 ) { continue; }
      const VD u = vd( a, b, e ).normalized();
      const VD dir = vd( a, b, e );
      Scene sc;
      for( int i = 0; i < 3; ++i )
      {
        Body x = ball( vd( 2.1 * i - 0.3, 1.0 / 3.0 + 0.4 * i, 0.1 * i ), ( 0.7 + 0.1 * i ) * u, 1.0 + 0.1 * i, 1.0 / 3.0 + i, AD != 0 && i == 2, i == 2 ? 0.0 : 0.3 );
        if( D == 3 ) { x.rot = { { 0.3 * a, 0.7 * b, 0.9 * e } }; if( i == 2 ) { x.v.setZero(); } if( i == 1 ) { x.kind = 'b'; x.dim = { { 0.7, 0.6, 0.3 } }; } }
        if( AD == 1 ) { x.rot[0] = 0.37 * a + 0.11 * b; if( i == 1 ) { x.kind = 'b'; x.dim = { { 0.7, 0.6, 0.3 } }; } }
        sc.b.push_back( x );
      }
      for( int i = 0; i < 2; ++i ) { Plane p; p.x = ( 20.0 + 1.0 / 3.0 ) * ( i ? -dir : dir ); p.n = i ? u : VD( -u ); p.v = 0.1 * dir; if( AD == 1 ) { p.w[0] = 0.1 * a; } else if( AD == 3 ) { p.w = { { 0.1 * a, 0.3 * b, 0.7 } }; } sc.planes.push_back( p ); }
      if( AD != 1 ) { Round d; d.x = 0.1 * dir; if( D == 3 ) { d.axis = dir; } d.r = 70.0 / 3.0; d.w = 0.1 * a; sc.rounds.push_back( d ); }
      if( AD == 0 ) { Portal p; p.xa = -17.0 / 3.0 * dir; p.na = u; p.xb = 17.0 / 3.0 * dir; p.nb = -u; sc.portals.push_back( p ); }
      sc.gravity = true; sc.g = 0.3 * u; if( AD == 0 ) { sc.penalty = true; sc.pk = 10.0 / 3.0; sc.pp = 2.1; }
      vp::runCase( [&] { return "directions: " + show( sc ); }, [&]
      {
        Cfg c; c.mode = 'U'; c.um = 1;
        Session s; start( s, sc, c );
#if defined(SYS_RB3D)
        { StaticCylinder cyl( sc.rounds[0].x, dir, 71.0 / 3.0 ); cyl.setOrientation( dir, 0.1 * a + 0.7 ); cyl.omega() = 0.3 * u; s.sim.state().addStaticCylinder( cyl ); }
#endif
        for( int k = 0; k < 3; ++k )
        {
          const std::string by = s.bytes();
          Session t; restore( by, t );
          const std::string da = dump( s.sim ), db = dump( t.sim );
          VP_CHECK( da == db, "restored scene differs\n" << db << "\n instead of\n" << da );
          VP_CHECK( t.bytes() == by, "re-written checkpoint differs" );
          s.step(); t.step(); vp::transition( 2 );
          VP_CHECK( s.bytes() == t.bytes() && same( q( s.sim ), q( t.sim ) ) && same( v( s.sim ), v( t.sim ) ), "the step after the restore differs" );
          vp::state( by );
        }
      } );
    } } }
  }
  return vp::finish();
}
