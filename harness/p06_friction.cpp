// P06: friction obeys Coulomb's law and only dissipates.
// One or more steps of the real simulator with the real friction solvers and coupling schemes; a recording wrapper around the
// solver notes what it was given and what it answered. The relative velocity of each contact comes from the contact itself (checked
// against kinematics by P04) as an affine map of all velocities; the law, the energy and momentum balance, the velocities that must
// follow from the impulses and the positions that must follow from the velocities are worked out here.
#include "maps.h"
#include <Eigen/Dense>
using namespace sys;

namespace
{
struct Contact { MX J; VD kin; MX B; VD p; std::pair<int,int> bodies; double mu, e, alpha, sum; bool nonneg; double gap; VD extra; std::vector<VD> disc; };
struct Seen { int calls = 0; std::vector<Contact> c; VX vin, vout; bool ok = false; double error = 0.0; };

class Recorder final : public FrictionSolver
{
public:
  FrictionSolver& fs; Seen* s; bool disc, gaps;
  Recorder( FrictionSolver& f, Seen* t, bool d, bool g ) : fs( f ), s( t ), disc( d ), gaps( g ) {}
  virtual void solve( const unsigned iteration, const scalar& dt, const FlowableSystem& sysm, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& CoR, const VectorXs& mu, const VectorXs& q0, const VectorXs& v0, std::vector<std::unique_ptr<Constraint>>& active_set, const MatrixXXsc& contact_bases, const VectorXs& nrel, const VectorXs& drel, const unsigned max_iters, const scalar& tol, VectorXs& f, VectorXs& alpha, VectorXs& beta, VectorXs& v2, bool& succeeded, scalar& error ) override
  {
    ++s->calls;
    const int nc = int( active_set.size() ), nd = int( v0.size() );
    s->c.assign( size_t( nc ), Contact() ); s->vin = v0;
    for( int k = 0; k < nc; ++k )
    {
      Contact& c = s->c[size_t( k )]; const Constraint& con = *active_set[size_t( k )];
      con.getSimulatedBodyIndices( c.bodies );
      c.kin = con.computeRelativeVelocity( q0, VX::Zero( nd ) );
      c.J = MX::Zero( D, nd ); for( int i = 0; i < nd; ++i ) { c.J.col( i ) = con.computeRelativeVelocity( q0, VX::Unit( nd, i ) ) - c.kin; }
      c.B = contact_bases.block( 0, D * k, D, D );
      c.mu = mu( k ); c.e = CoR( k );
      c.gap = gaps ? con.evaluateGapFunction( q0 ) : 0.0;
      c.extra = VD::Zero();
      if( nrel.size() ) { c.extra += nrel( k ) * c.B.col( 0 ); }
      if( drel.size() ) { for( int j = 1; j < D; ++j ) { c.extra += drel( ( D - 1 ) * k + j - 1 ) * c.B.col( j ); } }
      if( disc )
      {
        const int ns = int( fs.numFrictionImpulsesPerNormal( D ) );
        SparseMatrixsc G( nd, ns ); VX dr( ns );
        { Eigen::VectorXi per = Eigen::VectorXi::Constant( ns, nd ); G.reserve( per ); }
        con.computeGeneralizedFrictionDisk( q0, v0, 0, ns, G, dr );
        const MX Gd( G );
        for( int j = 0; j < ns; ++j ) { const VX t = c.J.transpose().completeOrthogonalDecomposition().solve( VX( Gd.col( j ) ) ); c.disc.push_back( t ); }
      }
    }
    fs.solve( iteration, dt, sysm, M, Minv, CoR, mu, q0, v0, active_set, contact_bases, nrel, drel, max_iters, tol, f, alpha, beta, v2, succeeded, error );
    s->ok = succeeded; s->error = error; s->vout = v2;
    for( int k = 0; k < nc; ++k )
    {
      Contact& c = s->c[size_t( k )]; const int ns = int( beta.size() ) / nc;
      c.alpha = alpha( k ); c.p = alpha( k ) * c.B.col( 0 ); c.nonneg = true; c.sum = 0.0;
      for( int j = 0; j < ns; ++j )
      {
        const double b = beta( ns * k + j );
        if( disc ) { c.p += b * c.disc[size_t( j )]; c.nonneg = c.nonneg && b >= -1.0e-9; c.sum += b; }
        else { c.p += b * c.B.col( j + 1 ); }
      }
    }
  }
  virtual unsigned numFrictionImpulsesPerNormal( const unsigned d ) const override { return fs.numFrictionImpulsesPerNormal( d ); }
  virtual void serialize( std::ostream& o ) const override { fs.serialize( o ); }
  virtual std::string name() const override { return fs.name(); }
};

VX angularOf( const VX& q, const VX& c )
{
  VX L = VX::Zero( D == 2 ? 1 : 3 );
  for( int i = 0; i < nb( c ); ++i )
  {
    const VD x = pos( q, i ), p = lin( c, i );
    if( D == 2 ) { L( 0 ) += x( 0 ) * p( 1 ) - x( 1 ) * p( 0 ); if( AD ) { L( 0 ) += ang( c, i )( 0 ); } }
    else { const int z = D - 1; L( 0 ) += x( 1 ) * p( z ) - x( z ) * p( 1 ); L( z ) += x( 0 ) * p( 1 ) - x( 1 ) * p( 0 ); L( 1 ) += x( z ) * p( 0 ) - x( 0 ) * p( z ); if( AD ) { L += ang( c, i ); } }
  }
  return L;
}

struct How { int fs, ifm, um; double e, mu; int steps; bool rest; int expect; bool round; };

void judge( const Scene& sc, const How& h )
{
  vp::note( show( sc ) + " " + fsName( h.fs ) + " " + ifmName( h.ifm ) + " " + umapName( h.um ) + " restitution " + std::to_string( h.e ) + " friction " + std::to_string( h.mu ) );
  Sim sim = build( sc );
  Seen seen;
  const double stol = h.fs == SOBOGUS ? 1.0e-9 : 1.0e-6;
  const auto solver = fsolver( h.fs, h.fs == STAGGERED_QL ? 1.0e-9 : 1.0e-6, 1, 8, h.round ? 5000 : 1000, 1.0e-4 );
  Recorder rec( *solver, &seen, h.fs == GRRF, ifmStabilizes( h.ifm ) );
  const double threshold = 0.01;
  const auto map = ifmap( h.ifm, stol, h.fs == SOBOGUS ? 2000 : h.round ? 50 : 20, threshold );
  const auto u = umap( h.um );
  const Dt dt( 1, 100 ); const double hh = 0.01;
  const double tol = h.fs == SOBOGUS ? 1.0e-7 : h.fs == STAGGERED_QL ? 1.0e-4 : 3.0e-4;
  for( int st = 0; st < h.steps; ++st )
  {
    const VX q0 = q( sim ), v0 = v( sim );
    Sim plain = sim;
    const MX M( fsys( plain ).M() ), Minv( fsys( plain ).Minv() );
    Sim other = plain, third = plain;
    const unsigned it = unsigned( st + 1 );
    // velocity change by forces alone
    VX vdelta = VX::Zero( v0.size() );
    VX q_free = q0, v_free = v0;
    if( ifmIsSE( h.ifm ) )
    {
      VX F( v0.size() ); fsys( third ).computeForce( q0, v0, hh, F );
      fsys( third ).zeroOutForcesOnFixedBodies( F );
      vdelta = hh * ( Minv * F ); v_free = v0 + vdelta; fsys( third ).linearInertialConfigurationUpdate( q0, v_free, hh, q_free );
    }
    else { flowU( plain, it, dt, *u ); q_free = q( plain ); v_free = v( plain ); }
    const size_t contacts = sc.portals.empty() ? detect( other, q0, q_free, v0 ).size() : 1;
    seen = Seen();
    flowF( sim, it, dt, *u, h.e, h.mu, rec, *map );
    vp::transition();
    if( sc.portals.empty() ) { VP_CHECK( seen.calls == ( contacts ? 1 : 0 ), "step " << st << ": " << contacts << " contacts, but the friction solver ran " << seen.calls << " times" ); }
    if( h.expect >= 0 && st == 0 ) { VP_CHECK( int( seen.c.size() ) == h.expect, "harness: " << seen.c.size() << " contacts instead of " << h.expect ); }
    if( seen.calls == 0 )
    {
      VP_CHECK( ( q( sim ) - q_free ).lpNorm<Eigen::Infinity>() <= 1.0e-12 && ( v( sim ) - v_free ).lpNorm<Eigen::Infinity>() <= 1.0e-12, "step " << st << ": no contact, but not the plain motion" );
      vp::outcome( "no contact" ); continue;
    }
    const int nc = int( seen.c.size() );
    // the solver works on the velocity the scheme promises
    const VX vin = h.ifm == STAB ? v_free : v0;
    VP_CHECK( ( seen.vin - vin ).lpNorm<Eigen::Infinity>() <= 1.0e-12, "the solver was given velocities " << vp::vstr( seen.vin ) << " instead of " << vp::vstr( vin ) );
    // velocities follow from the impulses
    VX v2 = vin; double push = 0.0;
    for( const Contact& c : seen.c ) { v2 += Minv * c.J.transpose() * c.p; push += c.p.norm(); }
    VP_CHECK( v2.allFinite() && push < 1.0e6, "impulses are not finite" );
    VP_CHECK( ( seen.vout - v2 ).lpNorm<Eigen::Infinity>() <= 1.0e-8 * ( 1.0 + push ), "velocities " << vp::vstr( seen.vout ) << " do not follow from the impulses, which give " << vp::vstr( v2 ) );
    // the step follows from the velocities
    if( sc.portals.empty() )
    {
      VX q1 = q0, v1 = v2;
      if( ifmIsSE( h.ifm ) ) { v1 = v2 + vdelta; fsys( other ).linearInertialConfigurationUpdate( q0, v1, hh, q1 ); }
      else if( h.ifm == STAB ) { fsys( other ).linearInertialConfigurationUpdate( q0, v1, hh, q1 ); }
      else { v( other ) = v2; flowU( other, it, dt, *u ); q1 = q( other ); v1 = v( other ); }
      VP_CHECK( ( q( sim ) - q1 ).lpNorm<Eigen::Infinity>() <= 1.0e-9 * ( 1.0 + push ), "positions after the step " << vp::vstr( q( sim ) ) << ", expected " << vp::vstr( q1 ) );
      VP_CHECK( ( v( sim ) - v1 ).lpNorm<Eigen::Infinity>() <= 1.0e-8 * ( 1.0 + push ), "velocities after the step " << vp::vstr( v( sim ) ) << ", expected " << vp::vstr( v1 ) );
    }
    const VX v_end = v2 + vdelta;   // what the law is imposed on
    // impulse limits, whatever the solver says about convergence
    for( int k = 0; k < nc; ++k )
    {
      const Contact& c = seen.c[size_t( k )];
      const VD n = c.B.col( 0 );
      const double pn = n.dot( c.p ); const VD pt = c.p - pn * n;
      VP_CHECK( c.mu == h.mu && c.e == h.e, "contact " << k << " was given coefficients " << c.mu << ", " << c.e );
      VP_CHECK( c.alpha >= -1.0e-9, "contact " << k << ": impulse " << c.alpha << " pulls" );
      VP_CHECK( std::abs( pn - c.alpha ) <= 1.0e-9 * ( 1.0 + push ), "contact " << k << ": friction has a normal part" );
      // (staggered projections re-solve the normal impulses once more after friction was limited)
      if( h.fs == SOBOGUS || h.fs == GRRF || seen.ok ) { VP_CHECK( pt.norm() <= h.mu * c.alpha + ( h.fs == SOBOGUS ? 1.0e-8 : h.fs == GRRF ? 1.0e-6 : tol ), "contact " << k << ": friction " << pt.norm() << " exceeds " << h.mu << " times " << c.alpha ); }
      if( h.mu == 0.0 ) { VP_CHECK( pt.norm() <= 1.0e-13 * ( 1.0 + push ), "contact " << k << ": friction " << pt.norm() << " with coefficient zero" ); }
      if( h.fs == GRRF )
      {
        VP_CHECK( c.nonneg && c.sum <= h.mu * c.alpha + 1.0e-6, "contact " << k << ": friction weights negative or beyond the limit: sum " << c.sum );
        for( const VD& t : c.disc ) { VP_CHECK( std::abs( t.norm() - 1.0 ) <= 1.0e-6 && std::abs( t.dot( n ) ) <= 1.0e-6, "friction direction " << vp::vstr( t ) << " is not a unit tangent" ); }
      }
      if( ifmIsSE( h.ifm ) )
      {
        const VD ext = c.extra - c.J * vdelta; const double g = -c.gap < threshold ? 0.0 : std::min( 0.0, c.gap ) / hh;
        VP_CHECK( ( ext - g * n ).norm() <= 1.0e-8 * ( 1.0 + std::abs( g ) ), "contact " << k << ": force and stabilisation terms " << vp::vstr( c.extra ) << ", expected " << vp::vstr( c.J * vdelta + g * n ) );
      }
      else { VP_CHECK( c.extra.norm() == 0.0, "unexpected extra relative velocity" ); }
    }
    if( h.fs != GRRF && ( nc == 1 || h.fs == SOBOGUS ) && h.round ) { VP_CHECK( seen.ok, "no convergence (error " << seen.error << ") for " << nc << " contacts" ); }
    vp::outcome( seen.ok ? nc == 1 ? "one contact" : "several contacts" : "not converged" );
    // Coulomb's law
    for( int k = 0; k < nc; ++k )
    {
      const Contact& c = seen.c[size_t( k )];
      const VD n = c.B.col( 0 );
      const VD before = c.J * vin + c.kin; VD after = c.J * v_end + c.kin;
      if( ifmIsSE( h.ifm ) ) { after += ( -c.gap < threshold ? 0.0 : std::min( 0.0, c.gap ) / hh ) * n; }
      const double un = n.dot( after ), bn = n.dot( before ); const VD ut = after - un * n, pt = c.p - c.alpha * n;
      if( seen.ok && h.fs != GRRF )
      {
        VP_CHECK( un + h.e * bn >= -tol, "contact " << k << " leaves with speed " << un << " after " << bn );
        VP_CHECK( c.alpha * ( un + h.e * bn ) <= tol * ( 1.0 + c.alpha ), "contact " << k << " pushes with " << c.alpha << " although it leaves with speed " << un << " after " << bn );
        VP_CHECK( pt.dot( ut ) <= -h.mu * c.alpha * ut.norm() + tol * ( 1.0 + c.alpha + ut.norm() ), "contact " << k << ": sliding " << vp::vstr( ut ) << " remains, friction " << vp::vstr( pt ) << " limit " << h.mu * c.alpha );
        vp::outcome( c.alpha <= tol ? "no push" : ut.norm() > 1.0e-3 ? h.mu > 0.0 ? "slides" : "frictionless" : "sticks" );
      }
      if( h.fs == GRRF )
      {
        // maximal dissipation over the polygon of directions
        double best = 0.0; for( const VD& t : c.disc ) { best = std::min( best, h.mu * c.alpha * t.dot( ut ) ); }
        VP_CHECK( pt.dot( ut ) <= best + 1.0e-4 * ( 1.0 + c.alpha ), "contact " << k << ": sliding " << vp::vstr( ut ) << " remains, friction " << vp::vstr( pt ) << " limit " << h.mu * c.alpha << ", a better choice of directions takes " << best << " instead of " << pt.dot( ut ) );
        vp::outcome( c.alpha <= tol ? "no push" : ut.norm() > 1.0e-3 ? "slides" : "sticks" );
      }
      const bool alone = nc == 1 || ( h.fs == SOBOGUS && std::none_of( seen.c.begin(), seen.c.end(), [&]( const Contact& o ) { const auto meets = [&]( int b ) { return b >= 0 && ( b == c.bodies.first || b == c.bodies.second ); }; return &o != &c && ( meets( o.bodies.first ) || meets( o.bodies.second ) ); } ) );
      if( alone && h.round )
      {
        if( nc > 1 ) { vp::outcome( "contact alone in its group" ); }
        VP_CHECK( un >= -tol, "contact still approaches with speed " << -un );
        if( h.ifm <= STAB ) { const double want = bn < 0.0 ? -h.e * bn : bn; VP_CHECK( std::abs( un - want ) <= tol, "separation speed " << un << " after " << bn << ", expected " << want ); }
        if( bn >= tol && h.ifm <= STAB ) { VP_CHECK( c.p.norm() <= tol, "a separating contact was given the impulse " << vp::vstr( c.p ) ); }
        // closed form of one contact between round bodies: the tangential response is the same in all directions
        if( h.ifm <= STAB && h.fs != GRRF )
        {
          const VD bt = before - bn * n; const MX W = c.J * Minv * c.J.transpose();
          VD t = bt; if( t.norm() < 1.0e-9 ) { t = c.B.col( 1 ); } t /= t.norm();
          const double wt = t.dot( W * t ), a = std::max( 0.0, -( 1.0 + h.e ) * bn ) / n.dot( W * n ), b = std::min( h.mu * a, bt.norm() / wt );
          VP_CHECK( std::abs( c.alpha - a ) <= tol * ( 1.0 + a ) && ( pt + b * t ).norm() <= 2.0 * tol * ( 1.0 + a ), "impulse " << vp::vstr( c.p ) << ", expected " << vp::vstr( VD( a * n - b * t ) ) );
        }
      }
    }
    // bodies in no contact
    const int nbod = nb( v0 );
    for( int i = 0; i < nbod; ++i )
    {
      bool touched = false; for( const Contact& c : seen.c ) { touched = touched || c.bodies.first == i || c.bodies.second == i; }
      if( !touched ) { VP_CHECK( same( lin( seen.vout, i ), lin( vin, i ) ) && same( ang( seen.vout, i ), ang( vin, i ) ), "body " << i << " touches nothing but changed velocity from " << vp::vstr( lin( vin, i ) ) << " to " << vp::vstr( lin( seen.vout, i ) ) ); vp::outcome( "bystander" ); }
    }
    // energy
    const VX ve = seen.vout;
    const double T0 = 0.5 * vin.dot( M * vin ), T1 = 0.5 * ve.dot( M * ve );
    bool stab = false; for( const Contact& c : seen.c ) { stab = stab || ( ifmStabilizes( h.ifm ) && c.gap <= -threshold ); }
    if( h.rest && !stab && vdelta.norm() == 0.0 && ( h.e == 0.0 || ( nc == 1 && h.round ) || ( h.fs == GRRF ) ) && ( seen.ok || h.fs != SOBOGUS ) )
    {
      VP_CHECK( T1 <= T0 + tol * ( 0.01 + push ), "kinetic energy grew from " << T0 << " to " << T1 << ( seen.ok ? "" : " (not converged)" ) );
    }
    // momentum
    bool free_only = true; for( const Contact& c : seen.c ) { free_only = free_only && c.bodies.first >= 0 && c.bodies.second >= 0; }
    if( free_only )
    {
      const VX dp = M * ( ve - vin ); VD p = VD::Zero(); for( int i = 0; i < nbod; ++i ) { p += lin( dp, i ); }
      VP_CHECK( p.norm() <= 1.0e-9 * ( 1.0 + push ), "total momentum changed by " << vp::vstr( p ) );
      // (balls of the 2D ball simulator do not spin, so friction between them carries no torque balance)
      if( AD && sc.portals.empty() ) { const VX L = angularOf( q0, dp ); double deep = 1.0e-8;
        // arms end at the surfaces, which differ by the overlap
        if( h.mu > 0.0 ) { for( const Contact& c : seen.c ) { const Body& a = sc.b[size_t( c.bodies.first )]; const Body& b = sc.b[size_t( c.bodies.second )]; if( a.kind == 'c' && b.kind == 'c' ) { deep += 1.0001 * std::abs( ( pos( q0, c.bodies.first ) - pos( q0, c.bodies.second ) ).norm() - a.dim[0] - b.dim[0] ); } } }
        VP_CHECK( L.norm() <= deep * ( 1.0 + push ), "total angular momentum changed by " << vp::vstr( L ) ); }
    }
    vp::state( hash( ve, hash( q0 ) ) );
  }
}

struct Pick { int fs, ifm; };
// solver and scheme combinations scenes can ask for; level 0: all, 1: the main ones
std::vector<Pick> picks( bool round_pair, bool many = false )
{
  std::vector<Pick> p;
#if defined(SYS_BALL2D)
  for( int f : { SOBOGUS, STAGGERED, STAGGERED_WARM, STAGGERED_QL } ) { p.push_back( { f, GEO } ); p.push_back( { f, STAB } ); }
  p.push_back( { SOBOGUS, SE } );
  if( many ) { p.push_back( { SOBOGUS, GEO_N } ); p.push_back( { SOBOGUS, GEO_NF } ); p.push_back( { SOBOGUS, SE_NF } ); p.push_back( { STAGGERED_WARM, GEO_NF } ); }
  (void) round_pair;
#elif defined(SYS_RB2D)
  p = { { SOBOGUS, GEO }, { SOBOGUS, STAB } };
  if( round_pair ) { for( int f : { STAGGERED, STAGGERED_WARM, STAGGERED_QL } ) { p.push_back( { f, GEO } ); } p.push_back( { STAGGERED, STAB } ); }
  if( many ) { p.push_back( { SOBOGUS, GEO_NF } ); }
#else
  p = { { SOBOGUS, GEO }, { SOBOGUS, STAB }, { GRRF, GEO }, { GRRF, STAB } };
  if( round_pair ) { p.push_back( { SOBOGUS, SE } ); }
  if( many && round_pair ) { p.push_back( { SOBOGUS, GEO_N } ); p.push_back( { SOBOGUS, SE_NF } ); p.push_back( { SOBOGUS, SE_N } ); }
#endif
  return p;
}
const double MU[] = { 0.0, 0.3, 1.5 };
const double RES[] = { 0.0, 0.5 };

Body ball( const VD& x, double r, double m, const VD& vv, int w = 1 )
{
  Body b; b.x = x; b.dim = { { r, r, r } }; b.m = m; b.I = 0.4 * m * r * r; b.v = vv;
#if !defined(SYS_BALL2D)
  if( w == 1 ) { b.w = { { 0.5, D == 3 ? -1.0 : 0.0, D == 3 ? 0.25 : 0.0 } }; }
  if( w == 2 ) { b.w = { { -3.0, 0.0, D == 3 ? 2.0 : 0.0 } }; }
#endif
  (void) w;
  return b;
}
std::vector<VD> directions()
{
  if( D == 2 ) { return { vd( 1, 0 ), vd( 0, 1 ), vd( 0, -1 ), vd( 0.6, 0.8 ), vd( -0.8, 0.6 ) }; }
  return { vd( 1, 0, 0 ), vd( 0, -1, 0 ), vd( 0, 0, 1 ), vd( 0.6, 0, 0.8 ), vd( 2.0 / 3, -1.0 / 3, 2.0 / 3 ) };
}
std::vector<VD> speeds()
{
  std::vector<VD> s;
  if( vp::thorough() ) { for( int x = -1; x <= 1; ++x ) { for( int y = -1; y <= 1; ++y ) { if( D == 2 ) { s.push_back( vd( x, y ) ); s.push_back( vd( 2.0 * x + 0.25, 0.5 * y - 1.0 ) ); } else { for( int z = -1; z <= 1; ++z ) { s.push_back( vd( x, y, z ) ); } } } } }
  else if( D == 2 ) { for( int x = -1; x <= 1; ++x ) { for( int y = -1; y <= 1; ++y ) { s.push_back( vd( x, y ) ); } } }
  else { s = { vd( 0, 0, 0 ), vd( 1, 0, 0 ), vd( -1, 0, 0 ), vd( 0, 1, 0 ), vd( 0, 0, -1 ), vd( 1, -1, 1 ), vd( -0.5, 0.5, -1 ) }; }
  return s;
}

void pairsOfBalls()
{
  const auto dirs = directions(); const auto vs = speeds();
  for( size_t di = 0; di < dirs.size(); ++di ) { for( int mi = 0; mi < 2; ++mi ) { for( int place = 0; place < 4; ++place ) { for( const Pick& pk : picks( true ) )
  {
    if( ( pk.fs == STAGGERED_WARM || pk.fs == STAGGERED_QL ) && ( mi || place > 1 ) && !vp::thorough() ) { continue; }
    vp::runCase( [&]{ return std::string( fsName( pk.fs ) ) + " " + ifmName( pk.ifm ) + ": two round bodies, direction " + vp::vstr( dirs[di] ) + " masses " + std::to_string( mi ) + " bystander place " + std::to_string( place ); }, [&]
    {
      for( const VD& a : vs ) { for( size_t bi = 0; bi < vs.size(); ++bi ) { for( double e : RES ) { for( double mu : MU ) { for( int um = 0; um < ( place == 0 ? NUMAPS : 1 ); ++um )
      {
        if( place && ( bi % 3 ) ) { continue; }
        if( ifmIsSE( pk.ifm ) && ( e != 0.0 || um ) ) { continue; }
        Scene sc;
        // touching exactly, so that arms and contact points agree for both bodies
        const double d = 1.25 - 1.0e-9;
        sc.b = { ball( vd( 0.25, -0.5, 0.125 ), 0.75, mi ? 3.0 : 1.0, a ), ball( vd( 0.25, -0.5, 0.125 ) + d * dirs[di], 0.5, 1.0, vs[bi], 2 ) };
        // make sure they meet within the step
        if( ( a - vs[bi] ).dot( dirs[di] ) <= 0.0 ) { sc.b[1].x = sc.b[0].x + 1.2 * dirs[di]; }
        if( place ) { sc.b.insert( sc.b.begin() + ( place - 1 ), ball( vd( 9, 9, 9 ), 0.5, 2.0, vd( 1, -2, 0.5 ) ) ); }
        if( place == 3 ) { sc.gravity = true; sc.g = vd( 0.5, -3.0, 1.0 ); }
        judge( sc, How{ pk.fs, pk.ifm, um, e, mu, 1, true, place == 3 ? -1 : 1, true } );
      } } } } }
    } );
  } } } }
}

void boundaries()
{
  const auto dirs = directions(); const auto vs = speeds();
  for( size_t di = 0; di < dirs.size(); ++di ) { for( int kind = 0; kind < 3; ++kind ) { for( const Pick& pk : picks( false ) )
  {
#if defined(SYS_RB2D)
    if( kind == 1 ) { continue; }
#endif
#if defined(SYS_BALL2D)
    if( kind == 2 ) { continue; }
#endif
    if( kind == 2 && pk.fs == GRRF ) { continue; }   // not offered against fixed bodies
    vp::runCase( [&]{ return std::string( fsName( pk.fs ) ) + " " + ifmName( pk.ifm ) + ": " + ( kind == 0 ? "plane" : kind == 1 ? "drum or cylinder" : "fixed body" ) + ", direction " + vp::vstr( dirs[di] ); }, [&]
    {
      for( const VD& a : vs ) { for( const VD& b : vs ) { for( double e : RES ) { for( double mu : MU ) { for( int w = 0; w < ( AD ? 3 : 1 ); ++w )
      {
        if( ifmIsSE( pk.ifm ) && e != 0.0 ) { continue; }
        if( ifmIsSE( pk.ifm ) && mu == 0.0 ) { continue; }   // the scheme's own check of the frictionless case ignores moving boundaries
        Scene sc;
        sc.b = { ball( vd( 5, 5, 5 ), 0.5, 2.0, vd( 1, 1, 1 ) ), ball( vd( 0.25, -0.5, 0.125 ), 0.75, 1.5, a, w ), ball( vd( 9, 5, 5 ), 0.5, 2.0, vd( -1, 1, 0 ) ) };
        bool rest = b.norm() == 0.0;
        if( kind == 0 )
        {
          Plane p; p.x = sc.b[1].x - 0.75 * dirs[di] + 1.0e-9 * dirs[di]; p.n = dirs[di]; p.v = b;
          if( D == 3 && w == 2 ) { p.w = { { 0.0, 0.0, 0.0 } }; }
          if( a.dot( dirs[di] ) >= 0.0 ) { p.x = sc.b[1].x - 0.7 * dirs[di]; }
          sc.b[0].x = sc.b[1].x + 10.0 * dirs[di]; sc.b[2].x = sc.b[1].x + 12.0 * dirs[di];
          sc.planes.push_back( p );
        }
        if( kind == 1 )
        {
          if( !rest ) { continue; }
          Round r; r.r = 30.0; r.x = sc.b[1].x - ( 30.0 - 0.7 ) * dirs[di];
          if( D == 3 )
          {
            VD ax = std::abs( dirs[di]( 0 ) ) < 0.7 ? vd( 1, 0, 0 ) : vd( 0, 1, 0 ); ax -= ax.dot( dirs[di] ) * dirs[di]; r.axis = ax / ax.norm();
            r.w = w == 1 ? 0.5 : w == 2 ? -2.0 : 0.0; if( r.w != 0.0 ) { rest = false; }
          }
          sc.b[0].x = sc.b[1].x - 10.0 * dirs[di]; sc.b[2].x = sc.b[1].x - 12.0 * dirs[di];
          sc.rounds.push_back( r );
        }
        if( kind == 2 )
        {
          Body f = ball( sc.b[1].x - 1.2 * dirs[di], 0.5, 1.0, b, 2 ); f.fixed = true;
#if defined(SYS_RB3D)
          if( !rest ) { continue; }   // fixed bodies are at rest in 3D
          f.v = VD::Zero(); f.w = { { 0, 0, 0 } };
#else
          rest = false;
#endif
          sc.b[0] = f;
        }
        const int um = D == 3 && kind == 2 ? 1 : 0;
        judge( sc, How{ pk.fs, pk.ifm, um, e, mu, 1, rest, 1, true } );
      } } } } }
    } );
  } } }
}

// arrangements of several round bodies that touch their neighbours
struct Cluster { const char* name; std::vector<VD> x; int planes; };
std::vector<Cluster> clusters()
{
  const double g = std::sqrt( 3.0 ) / 2.0, s = 0.98;
  std::vector<Cluster> c = {
    { "row of three numbered from the middle", { vd( 0.98, 0 ), vd( 0, 0 ), vd( 1.96, 0 ) }, 0 },
    { "triangle", { vd( 0, 0 ), vd( s, 0 ), vd( 0.5 * s, g * s ) }, 0 },
    { "two on the floor", { vd( 0, 0.49 ), vd( 0.98, 0.49 ) }, 1 },
    { "stack of two on the floor", { vd( 0, 0.49 ), vd( 0, 1.47 ) }, 1 },
    { "one in a corner", { vd( 0.49, 0.49 ) }, 3 },
    { "two in a corner", { vd( 0.49, 0.49 ), vd( 1.47, 0.49 ) }, 3 },
    { "one between two walls", { vd( 0.49, 3.0 ) }, 4 },
    { "two separate pairs", { vd( 0, 0 ), vd( 7, 0 ), vd( 0.98, 0 ), vd( 7, 0.98 ) }, 0 } };
  if( D == 3 ) { c.push_back( { "tetrahedron", { vd( 0, 0, 0 ), vd( s, 0, 0 ), vd( 0.5 * s, g * s, 0 ), vd( 0.5 * s, g * s / 3, std::sqrt( 2.0 / 3.0 ) * s ) }, 0 } ); }
  return c;
}
void manyBodies()
{
  std::vector<VD> vs;
  if( D == 2 ) { vs = { vd( 0, 0 ), vd( 1, 0 ), vd( -0.5, -1 ), vd( 0, -1 ), vd( -1, 0.5 ) }; } else { vs = { vd( 0, 0, 0 ), vd( 1, 0, 0.5 ), vd( -1, 0, 0 ), vd( -0.5, 0.5, -1 ) }; }
  for( const Cluster& c : clusters() ) { for( int mi = 0; mi < 2; ++mi ) { for( const Pick& pk : picks( D == 3 || c.planes == 0, true ) ) { for( double e : RES )
  {
    if( ifmIsSE( pk.ifm ) && e != 0.0 ) { continue; }
    const bool slow = pk.fs == STAGGERED || pk.fs == STAGGERED_WARM || pk.fs == STAGGERED_QL;
    if( slow && mi && !ifmCaches( pk.ifm ) && !vp::thorough() ) { continue; }
    vp::runCase( [&]{ return std::string( fsName( pk.fs ) ) + " " + ifmName( pk.ifm ) + ": " + c.name + ( mi ? ", unequal masses" : "" ) + " restitution " + std::to_string( e ); }, [&]
    {
      const int n = int( c.x.size() );
      vp::product( std::vector<int>( size_t( n ), n >= 4 ? 3 + ( vp::thorough() ? 1 : 0 ) : int( vs.size() ) ), [&]( const std::vector<int>& d )
      {
        for( double mu : MU )
        {
          if( slow && mu == 1.5 && !vp::thorough() ) { continue; }
          Scene sc;
          for( int i = 0; i < n; ++i ) { sc.b.push_back( ball( c.x[size_t( i )], 0.5, mi ? 1.0 + i : 1.0, vs[size_t( d[size_t( i )] )], i % 3 ) ); }
          Plane p;
          if( c.planes == 1 || c.planes == 3 ) { p.x = vd( 0, 0 ); p.n = vd( 0, 1 ); sc.planes.push_back( p ); }
          if( c.planes == 3 || c.planes == 4 ) { p.x = vd( 0, 0 ); p.n = vd( 1, 0 ); sc.planes.push_back( p ); }
          if( c.planes == 4 ) { p.x = vd( 0.98, 0 ); p.n = vd( -1, 0 ); sc.planes.push_back( p ); }
          if( mi == 1 && e == 0.0 ) { sc.gravity = true; sc.g = vd( 0, -5 ); }
          judge( sc, How{ pk.fs, pk.ifm, 0, e, mu, ifmCaches( pk.ifm ) || mi == 1 ? 2 : 1, true, -1, false } );
        }
      } );
    } );
  } } } }
}

// more contacts than any of the arrangements above, each between bodies of its own
void crowds()
{
  std::vector<VD> vs;
  if( D == 2 ) { vs = { vd( 0, 0 ), vd( 1, 0 ), vd( -0.5, -1 ), vd( 0, -1 ), vd( -1, 0.5 ), vd( 0.5, 1 ), vd( 1, -1 ) }; } else { vs = { vd( 0, 0, 0 ), vd( 1, 0, 0.5 ), vd( -1, 0, 0 ), vd( -0.5, 0.5, -1 ), vd( 0, -1, 0.25 ), vd( 0.5, 1, 1 ), vd( 1, -1, -0.5 ) }; }
  for( int many : { 9, 20, 70 } ) { for( int form = 0; form < 3; ++form ) { for( const Pick& pk : picks( true, true ) ) { for( double e : RES )
  {
    if( ifmIsSE( pk.ifm ) && e != 0.0 ) { continue; }
    if( pk.fs != SOBOGUS && many > 9 ) { continue; }
    if( AD == 1 && form == 2 && pk.fs != SOBOGUS ) { continue; }
    vp::runCase( [&]{ return std::string( fsName( pk.fs ) ) + " " + ifmName( pk.ifm ) + ": " + std::to_string( many ) + ( form == 0 ? " pairs" : form == 1 ? " pairs with partners far apart in number" : " bodies on the floor" ) + ", restitution " + std::to_string( e ); }, [&]
    {
      for( int stride = 1; stride < ( pk.fs == SOBOGUS ? 6 : 3 ); stride += 2 ) { for( double mu : MU )
      {
        Scene sc; const int per = form == 2 ? 1 : 2; sc.b.resize( size_t( many * per ) );
        for( int g = 0; g < many; ++g ) { for( int k = 0; k < per; ++k )
        {
          const int i = form == 1 ? g + k * many : per * g + k;
          const VD x = form == 2 ? vd( 1.5 * g, 0.49, D == 3 ? 0.5 * ( g % 3 ) : 0.0 ) : vd( 3.5 * ( g % 6 ) + ( g & 1 ? 0.98 * k : 0.0 ), 3.5 * ( g / 6 ) + ( g & 1 ? 0.0 : 0.98 * k ), D == 3 ? 0.5 * ( g % 3 ) : 0.0 );
          sc.b[size_t( i )] = ball( x, 0.5, 1.0 + ( g * 3 + k * 5 ) % 4, vs[size_t( ( i * stride + k ) % 7 )], i % 3 );
        } }
        if( form == 2 ) { Plane p; p.n = vd( 0, 1 ); sc.planes.push_back( p ); }
        judge( sc, How{ pk.fs, pk.ifm, 0, e, mu, ifmCaches( pk.ifm ) ? 2 : 1, true, -1, pk.fs == SOBOGUS } );
      } }
    } );
  } } } }
}

// stabilised symplectic Euler: overlapping bodies are pushed apart
#if !defined(SYS_RB2D)
void stabilized()
{
  const auto vs = speeds();
  for( int im : { SE_S, SE_NFS } ) { for( double depth : { 0.0, 0.005, 0.02, 0.1 } ) { for( int plane = 0; plane < 2; ++plane )
  {
    vp::runCase( [&]{ return std::string( ifmName( im ) ) + ": overlap " + std::to_string( depth ) + ( plane ? " with a plane" : " of a pair" ); }, [&]
    {
      for( const VD& a : vs ) { for( const VD& b : vs ) { for( double mu : { 0.3, 1.5 } )
      {
        Scene sc; sc.gravity = true; sc.g = vd( 0.5, -4 );
        sc.b = { ball( vd( 0, 0.75 - ( plane ? depth : 0.0 ) ), 0.75, 1.0, a ), ball( plane ? vd( 3, 3 ) : vd( 0, 0.75 + 1.25 - depth ), 0.5, 2.0, b ) };
        if( plane ) { Plane p; p.n = vd( 0, 1 ); sc.planes.push_back( p ); }
        judge( sc, How{ SOBOGUS, im, 0, 0.0, mu, 2, true, -1, false } );
      } } }
    } );
  } } }
}
#endif

// pairs that touch across a periodic boundary
void portals()
{
  const auto vs = speeds();
  for( int axis = 0; axis < D; ++axis ) { for( int swap = 0; swap < 2; ++swap ) { for( int speed = 0; speed < ( D == 2 ? 2 : 1 ); ++speed )
  {
    vp::runCase( [&]{ return "across a periodic boundary, axis " + std::to_string( axis ) + ( swap ? ", swapped" : "" ) + ( speed ? ", sliding" : "" ); }, [&]
    {
      for( const VD& a : vs ) { for( const VD& b : vs ) { for( double e : RES ) { for( double mu : MU )
      {
        Scene sc;
        const VD ex = VD::Unit( axis );
        Portal p; p.xa = -4.0 * ex; p.na = ex; p.xb = 4.0 * ex; p.nb = -ex;
        if( speed ) { p.sliding = true; p.speed = 0.75; p.bounds = 4.0; const VD ey = VD::Unit( 1 - axis % 2 ); Portal o; o.xa = -4.0 * ey; o.na = ey; o.xb = 4.0 * ey; o.nb = -ey; sc.portals.push_back( o ); }
        sc.portals.push_back( p );
        sc.b = { ball( 3.6 * ex, 0.5, 1.0, a ), ball( -3.5 * ex, 0.5, 2.0, b, 2 ) };
        if( swap ) { std::swap( sc.b[0], sc.b[1] ); }
        sc.b.push_back( ball( VD::Zero(), 0.5, 1.0, vd( 0.5, 0.25, 0 ) ) );
        for( int f : { int( SOBOGUS ), int( GRRF ) } ) { if( f == GRRF && D == 2 ) { continue; } judge( sc, How{ f, GEO, 0, e, mu, 1, !speed, 1, true } ); }
      } } } }
    } );
  } } }
}

#if !defined(SYS_BALL2D)
void boxes()
{
#if defined(SYS_RB3D)
  const std::vector<std::array<double,3>> rots = { { { 0, 0, 0 } }, { { 0, 0, 0.3 } }, { { 0.4, 0, 0 } }, { { 0.3, 0.5, -0.2 } } };
#else
  const std::vector<std::array<double,3>> rots = { { { 0, 0, 0 } }, { { 0.3, 0, 0 } }, { { -0.2, 0, 0 } } };
#endif
  const auto vs = speeds();
  for( size_t ri = 0; ri < rots.size(); ++ri ) { for( char kind : { 'b', 'm' } ) { for( int two = 0; two < 2; ++two )
  {
    if( kind == 'm' && D == 2 ) { continue; }
    vp::runCase( [&]{ return std::string( kind == 'b' ? "box" : "mesh" ) + ( two ? " against another" : " on a plane" ) + " rotation " + std::to_string( ri ); }, [&]
    {
      for( const VD& a : vs ) { for( int wi = 0; wi < 3; ++wi ) { for( double e : RES ) { for( double mu : { 0.0, 0.3, 0.8 } ) { for( int fs : { int( SOBOGUS ), int( GRRF ) } ) { for( int im : { int( GEO ), int( STAB ) } )
      {
        if( fs == GRRF && D == 2 ) { continue; }
        if( fs == GRRF && im == STAB ) { continue; }
        Scene sc;
        Body b; b.kind = kind; b.dim = { { 0.75, 0.5, 0.25 } }; b.m = 2.0; b.I = 0.5; b.rot = rots[ri]; b.v = a;
        b.w = { { wi == 1 ? 1.0 : 0.0, wi == 2 && D == 3 ? -1.0 : 0.0, wi == 2 && D == 3 ? 2.0 : 0.0 } };
        if( wi == 2 && D == 2 ) { b.w[0] = -2.0; }
        if( two )
        {
          if( ri == 3 && kind == 'b' ) { continue; }
          Body o = b; o.rot = { { 0, 0, 0 } }; o.m = 1.0; o.v = vd( 0, 0.5, 0 ); o.w = { { 0, 0, 0 } };
          b.x = vd( 0, 0.97, 0 ) + ( ri == 2 ? vd( 0, 0.06, 0 ) : ri == 3 ? vd( 0, 0.25, 0.05 ) : vd( 0, 0.1, 0 ) ); if( ri == 0 ) { b.x = vd( 0.125, 0.97, 0.0625 ); }
          sc.b = { o, b };
        }
        else
        {
          double low = 0.0;
          for( int k = 0; k < 8; ++k )
          {
#if defined(SYS_RB3D)
            low = std::min( low, ( rotation( b.rot ) * Eigen::Vector3d( k & 1 ? 0.75 : -0.75, k & 2 ? 0.5 : -0.5, k & 4 ? 0.25 : -0.25 ) )( 1 ) );
#else
            low = std::min( low, std::sin( b.rot[0] ) * ( k & 1 ? 0.75 : -0.75 ) + std::cos( b.rot[0] ) * ( k & 2 ? 0.5 : -0.5 ) );
#endif
          }
          b.x = vd( 0, -low - 0.001, 0 );
          Plane p; p.n = vd( 0, 1, 0 ); sc.planes.push_back( p );
          sc.b = { ball( vd( 6, 6, 6 ), 0.5, 1.0, vd( 0, 1, 0 ) ), b };
          if( kind == 'b' ) { sc.b[0] = b; sc.b[0].x = vd( 6, 6, 6 ); }
        }
        judge( sc, How{ fs, im, 0, e, mu, 1, true, -1, false } );
      } } } } } }
    } );
  } } }
}
#endif
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  pairsOfBalls();
  boundaries();
  manyBodies();
  crowds();
  portals();
#if !defined(SYS_RB2D)
  stabilized();
#endif
#if !defined(SYS_BALL2D)
  boxes();
#endif
  return vp::finish();
}
