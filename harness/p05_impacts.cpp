// P05: frictionless impacts stop approach and never add energy.
// One or more steps of the real simulator with the real impact operators behind a recording wrapper. The relative velocity of each
// contact is taken from the contact itself (checked against kinematics by P04), as an affine map of the velocities; everything
// else (complementarity, energy, momentum, restitution) is worked out here.
#include "maps.h"
#include <Eigen/Dense>
using namespace sys;

namespace
{
struct Seen { int calls = 0; MX J; VX kin, alpha; std::vector<std::pair<int,int>> bodies; };

class Recorder final : public ImpactOperator
{
public:
  std::unique_ptr<ImpactOperator> op; Seen* s;
  Recorder( std::unique_ptr<ImpactOperator> o, Seen* t ) : op( std::move( o ) ), s( t ) {}
  virtual void flow( const std::vector<std::unique_ptr<Constraint>>& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha ) override
  {
    ++s->calls;
    const int nc = int( cons.size() ), nd = int( v0.size() );
    s->J = MX::Zero( nc, nd ); s->kin = VX::Zero( nc ); s->bodies.clear();
    for( int k = 0; k < nc; ++k )
    {
      std::pair<int,int> b; cons[size_t( k )]->getSimulatedBodyIndices( b ); s->bodies.push_back( b );
      s->kin( k ) = cons[size_t( k )]->evalNdotV( q0, VX::Zero( nd ) );
      for( int i = 0; i < nd; ++i ) { s->J( k, i ) = cons[size_t( k )]->evalNdotV( q0, VX::Unit( nd, i ) ) - s->kin( k ); }
    }
    op->flow( cons, M, Minv, q0, v0, v0F, N, Q, nrel, CoR, alpha );
    s->alpha = alpha;
  }
  virtual std::string name() const override { return op->name(); }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new Recorder( op->clone(), s ) ); }
  virtual void serialize( std::ostream& o ) const override { op->serialize( o ); }
};

enum { GS, GR, GRR, LCP, QL };
const char* opName( int i ) { static const char* n[] = { "gauss_seidel", "gr(lcp_apgd)", "grr(gr,lcp_apgd)", "lcp_apgd", "lcp_ql" }; return n[i]; }
std::unique_ptr<ImpactOperator> makeOp( int i )
{
  LCPOperatorAPGD apgd( 1.0e-6, 5000 );
  switch( i )
  {
    case GS: return std::unique_ptr<ImpactOperator>( new GaussSeidelOperator( 1.0e-6 ) );
    case GR: return std::unique_ptr<ImpactOperator>( new GROperator( 1.0e-4, apgd ) );
    case GRR: return std::unique_ptr<ImpactOperator>( new GRROperator( GROperator( 1.0e-4, apgd ), apgd ) );
    case LCP: return apgd.clone();
    case QL: return std::unique_ptr<ImpactOperator>( new LCPOperatorQL( 1.0e-9 ) );
    default: return nullptr;
  }
}

double minmap( const VX& x, const VX& w ) { double r = 0.0; for( int i = 0; i < x.size(); ++i ) { r = std::max( r, std::abs( std::min( x( i ), w( i ) ) ) ); } return r; }
bool activeSets( const MX& A, const VX& b, VX& x )
{
  const int n = int( b.size() );
  double best = 1.0e-7; bool found = false;
  for( int s = 0; s < ( 1 << n ); ++s )
  {
    std::vector<int> id; for( int i = 0; i < n; ++i ) { if( s >> i & 1 ) { id.push_back( i ); } }
    VX y = VX::Zero( n );
    if( !id.empty() )
    {
      MX As( id.size(), id.size() ); VX bs( id.size() );
      for( size_t i = 0; i < id.size(); ++i ) { bs( i ) = -b( id[i] ); for( size_t j = 0; j < id.size(); ++j ) { As( i, j ) = A( id[i], id[j] ); } }
      const VX ys = As.completeOrthogonalDecomposition().solve( bs );
      for( size_t i = 0; i < id.size(); ++i ) { y( id[i] ) = ys( i ); }
    }
    const double r = minmap( y, A * y + b );
    if( r < best ) { best = r; x = y.cwiseMax( 0.0 ); found = true; if( r < 1.0e-11 ) { break; } }
  }
  return found;
}

VX angularOf( const VX& q, const VX& c )
{
  VX L = VX::Zero( D == 2 ? 1 : 3 );
  for( int i = 0; i < nb( c ); ++i )
  {
    const VD x = pos( q, i ), p = lin( c, i );
    if( D == 2 ) { L( 0 ) += x( 0 ) * p( 1 ) - x( 1 ) * p( 0 ); if( AD ) { L( 0 ) += ang( c, i )( 0 ); } }
    else { const int z = D - 1; L( 0 ) += x( 1 ) * p( z ) - x( z ) * p( 1 ); L( z ) += x( 0 ) * p( 1 ) - x( 1 ) * p( 0 ); L( 1 ) += x( z ) * p( 0 ) - x( 0 ) * p( z ); if( AD ) { L += ang( c, i ); } }
  }
  return L;
}

// conserve: only free bodies meet, without periodic images; rest: no boundary moves
void judge( const Scene& sc, int op, double e, int um, bool warm, int steps, bool rest, int expect = -1 )
{
  vp::note( show( sc ) + " operator " + opName( op ) + " restitution " + std::to_string( e ) + ( warm ? " warm" : "" ) + " " + umapName( um ) );
  Sim sim = build( sc );
  Seen seen; Recorder rec( makeOp( op ), &seen );
  const auto u = umap( um );
  ImpactMap im( warm );
#if defined(SYS_RB3D)
  sim.impactMap() = im;
#endif
  const Dt dt( 1, 100 );
  for( int st = 0; st < steps; ++st )
  {
    const VX q0 = q( sim ), v0 = v( sim );
    Sim plain = sim;
    const MX M( fsys( plain ).M() ), Minv( fsys( plain ).Minv() );
    Sim other = plain;
    flowU( plain, unsigned( st + 1 ), dt, *u );
    const size_t contacts = sc.portals.empty() ? detect( other, q0, q( plain ), v0 ).size() : 1;
    seen = Seen();
    flowI( sim, unsigned( st + 1 ), dt, *u, rec, e, im );
    vp::transition();
    if( sc.portals.empty() ) { VP_CHECK( seen.calls == ( contacts ? 1 : 0 ), "step " << st << ": " << contacts << " contacts, but the impact operator ran " << seen.calls << " times" ); }
    if( expect >= 0 && st == 0 ) { VP_CHECK( int( seen.bodies.size() ) == expect, "harness: " << seen.bodies.size() << " contacts instead of " << expect ); }
    if( seen.calls == 0 )
    {
      VP_CHECK( same( q( sim ), q( plain ) ) && same( v( sim ), v( plain ) ), "step " << st << ": no contact, but not the plain motion" );
      vp::outcome( "no contact" ); continue;
    }
    const MX& J = seen.J; const int nc = int( J.rows() ), nd = int( v0.size() );
    const VX before = J * v0 + seen.kin;
    VP_CHECK( seen.alpha.size() == nc && ( seen.alpha.array() >= 0.0 ).all() && seen.alpha.allFinite(), "impulses " << vp::vstr( seen.alpha ) << " pull" );
    const VX v2 = v0 + Minv * J.transpose() * seen.alpha;
    // the step that follows is the plain one from the new velocity
    v( other ) = v2;
    flowU( other, unsigned( st + 1 ), dt, *u );
    if( sc.portals.empty() )
    {
      VP_CHECK( ( q( sim ) - q( other ) ).lpNorm<Eigen::Infinity>() <= 1.0e-9, "positions after the step " << vp::vstr( q( sim ) ) << ", expected " << vp::vstr( q( other ) ) );
      VP_CHECK( ( v( sim ) - v( other ) ).lpNorm<Eigen::Infinity>() <= 1.0e-9, "velocities after the step " << vp::vstr( v( sim ) ) << ", expected " << vp::vstr( v( other ) ) );
    }
    else if( !sc.gravity && AD != 3 && um == 0 ) { bool kick = false; for( const Portal& p : sc.portals ) { kick = kick || p.speed != 0.0; } if( !kick ) { VP_CHECK( ( v( sim ) - v2 ).lpNorm<Eigen::Infinity>() <= 1.0e-9, "velocities after the step " << vp::vstr( v( sim ) ) << ", expected " << vp::vstr( v2 ) ); } }
    const VX after = J * v2 + seen.kin;
    const double tol = op == QL ? 1.0e-5 : 2.0e-4;
    for( int k = 0; k < nc; ++k )
    {
      // the plain complementarity law only asks that a separating contact not come back faster than restitution times its former speed
      const double floor = ( op == LCP || op == QL ) && before( k ) > 0.0 ? -e * before( k ) : 0.0;
      VP_CHECK( after( k ) >= floor - tol, "contact " << k << " still approaches with speed " << -after( k ) << " (before " << before( k ) << ")" );
    }
    if( nc == 1 )
    {
      const double want = before( 0 ) < 0.0 ? -e * before( 0 ) : before( 0 );
      VP_CHECK( std::abs( after( 0 ) - want ) <= tol, "separation speed " << after( 0 ) << " after " << before( 0 ) << ", expected " << want );
      vp::outcome( before( 0 ) < 0.0 ? "single contact, approaching" : "single contact, not approaching" );
    }
    else { vp::outcome( "several contacts" ); }
    // connected groups of bodies; a group in which nothing approaches is left alone, and so are bodies in no contact
    const int n = nb( v0 );
    std::vector<int> grp( size_t( n ), 0 ); for( int i = 0; i < n; ++i ) { grp[size_t( i )] = i; }
    for( int pass = 0; pass < n; ++pass ) { for( const auto& b : seen.bodies ) { if( b.first >= 0 && b.second >= 0 ) { const int g = std::min( grp[size_t( b.first )], grp[size_t( b.second )] ); grp[size_t( b.first )] = g; grp[size_t( b.second )] = g; } } }
    // a contact that shares no free body with another one follows the law of a single contact
    for( int k = 0; nc > 1 && sc.portals.empty() && k < nc; ++k )
    {
      const auto group = [&]( const std::pair<int,int>& b ) { return grp[size_t( b.first >= 0 ? b.first : b.second )]; };
      int mates = 0; for( int j = 0; j < nc; ++j ) { mates += group( seen.bodies[size_t( j )] ) == group( seen.bodies[size_t( k )] ); }
      if( mates > 1 ) { continue; }
      const double want = before( k ) < 0.0 ? -e * before( k ) : before( k );
      VP_CHECK( std::abs( after( k ) - want ) <= tol, "contact " << k << " of " << nc << " is alone in its group and separates with " << after( k ) << " after " << before( k ) << ", expected " << want );
      vp::outcome( "contact alone in its group" );
    }
    for( int i = 0; i < n; ++i )
    {
      bool touched = false, pressed = false;
      for( int k = 0; k < nc; ++k ) { const auto& b = seen.bodies[size_t( k )]; const int g = b.first >= 0 ? grp[size_t( b.first )] : grp[size_t( b.second )]; if( g == grp[size_t( i )] ) { touched = true; pressed = pressed || before( k ) < 0.0; } }
      if( !touched ) { VP_CHECK( same( lin( v2, i ), lin( v0, i ) ) && same( ang( v2, i ), ang( v0, i ) ), "body " << i << " touches nothing but changed velocity" ); vp::outcome( "bystander" ); }
      else if( !pressed ) { VP_CHECK( ( lin( v2, i ) - lin( v0, i ) ).norm() + ( ang( v2, i ) - ang( v0, i ) ).norm() <= ( warm ? 1.0e-4 : op == QL ? 1.0e-6 : 1.0e-12 ), "body " << i << " in a group where nothing approaches changed velocity to " << vp::vstr( lin( v2, i ) ) ); vp::outcome( "separating group" ); }
    }
    const double T0 = 0.5 * v0.dot( M * v0 ), T1 = 0.5 * v2.dot( M * v2 );
    if( rest )
    {
      VP_CHECK( T1 <= T0 + 1.0e-3 * tol + tol * seen.alpha.sum(), "kinetic energy grew from " << T0 << " to " << T1 );
      if( e == 1.0 ) { VP_CHECK( std::abs( T1 - T0 ) <= 1.0e-3 * tol + tol * seen.alpha.sum(), "perfectly elastic, but kinetic energy went from " << T0 << " to " << T1 ); }
    }
    bool free_only = sc.portals.empty(); for( const auto& b : seen.bodies ) { free_only = free_only && b.first >= 0 && b.second >= 0; }
    if( free_only || ( !sc.portals.empty() && rest ) )
    {
      const VX dp = M * ( v2 - v0 );
      VD p = VD::Zero(); for( int i = 0; i < n; ++i ) { p += lin( dp, i ); }
      bool both = true; for( const auto& b : seen.bodies ) { both = both && b.first >= 0 && b.second >= 0; }
      if( both ) { VP_CHECK( p.norm() <= 1.0e-9 * ( 1.0 + seen.alpha.sum() ), "total momentum changed by " << vp::vstr( p ) ); }
      if( free_only ) { const VX L = angularOf( q0, dp ); VP_CHECK( L.norm() <= 1.0e-8 * ( 1.0 + seen.alpha.sum() ), "total angular momentum changed by " << vp::vstr( L ) ); }
    }
    // the complementarity law has one outcome
    if( ( op == LCP || op == QL || ( op == GRR && e == 0.0 ) ) && nc <= 10 )
    {
      const MX A = J * Minv * J.transpose(); const VX b = ( 1.0 + e ) * before; VX x;
      if( activeSets( A, b, x ) )
      {
        const VX d = ( A * x + b ) - ( A * seen.alpha + b );
        VP_CHECK( d.lpNorm<Eigen::Infinity>() <= ( op == QL ? 1.0e-4 : 1.0e-2 ), "relative speeds differ from those of the complementarity problem by " << vp::vstr( d ) );
        vp::outcome( "complementarity compared" );
      }
    }
    vp::state( hash( v2, hash( q0 ) ) );
    (void) nd;
  }
}

std::vector<int> opsHere()
{
#if defined(SYS_RB2D)
  return { GR, GRR, LCP, QL };
#else
  return { GS, GR, GRR, LCP, QL };
#endif
}
std::vector<int> opsNoResolve() { return { GR, GRR, LCP, QL }; }
const double RES[] = { 0.0, 0.25, 1.0 };

Body ball( const VD& x, double r, double m, const VD& vv )
{
  Body b; b.x = x; b.dim = { { r, r, r } }; b.m = m; b.I = 0.4 * m * r * r; b.v = vv;
#if !defined(SYS_BALL2D)
  b.w = { { 0.5, D == 3 ? -1.0 : 0.0, D == 3 ? 0.25 : 0.0 } };
#endif
  return b;
}
std::vector<VD> directions()
{
  std::vector<VD> d;
  if( D == 2 ) { for( auto& p : std::vector<std::pair<double,double>>{ { 1, 0 }, { -1, 0 }, { 0, 1 }, { 0, -1 }, { 0.6, 0.8 }, { -0.8, 0.6 }, { 0.8, -0.6 } } ) { d.push_back( vd( p.first, p.second ) ); } }
  else { d = { vd( 1, 0, 0 ), vd( 0, -1, 0 ), vd( 0, 0, 1 ), vd( 0, 0, -1 ), vd( 0.6, 0, 0.8 ), vd( 2.0 / 3, -1.0 / 3, 2.0 / 3 ), vd( -0.48, 0.64, -0.6 ) }; }
  return d;
}
std::vector<VD> speeds()
{
  std::vector<VD> s;
  if( vp::thorough() ) { for( int x = -1; x <= 1; ++x ) { for( int y = -1; y <= 1; ++y ) { if( D == 2 ) { s.push_back( vd( x, y ) ); s.push_back( vd( 2.0 * x + 0.25, 0.5 * y - 1.0 ) ); } else { for( int z = -1; z <= 1; ++z ) { s.push_back( vd( x, y, z ) ); } } } } }
  else if( D == 2 ) { for( int x = -1; x <= 1; ++x ) { for( int y = -1; y <= 1; ++y ) { s.push_back( vd( x, y ) ); } } }
  else { s = { vd( 0, 0, 0 ), vd( 1, 0, 0 ), vd( -1, 0, 0 ), vd( 0, 1, 0 ), vd( 0, 0, -1 ), vd( 0, 0, 1 ), vd( 1, -1, 1 ), vd( -0.5, 0.5, -1 ) }; }
  return s;
}

void pairsOfBalls()
{
  const auto dirs = directions(); const auto vs = speeds();
  for( size_t di = 0; di < dirs.size(); ++di ) { for( int mi = 0; mi < 3; ++mi ) { for( int place = 0; place < 4; ++place )
  {
    vp::runCase( [&]{ return "two round bodies, direction " + vp::vstr( dirs[di] ) + " masses " + std::to_string( mi ) + " bystander place " + std::to_string( place ); }, [&]
    {
      const double m0 = mi == 1 ? 3.0 : 1.0, m1 = mi == 2 ? 0.25 : 1.0;
      for( const VD& a : vs ) { for( const VD& b : vs ) { for( double e : RES ) { for( int op : opsHere() ) { for( int um = 0; um < ( place == 0 ? NUMAPS : 1 ); ++um )
      {
        Scene sc;
        sc.b = { ball( vd( 0.25, -0.5, 0.125 ), 0.75, m0, a ), ball( vd( 0.25, -0.5, 0.125 ) + 1.2 * dirs[di], 0.5, m1, b ) };
        if( place ) { sc.b.insert( sc.b.begin() + ( place - 1 ), ball( vd( 9, 9, 9 ), 0.5, 2.0, vd( 1, -2, 0.5 ) ) ); }
        if( place == 3 ) { sc.gravity = true; sc.g = vd( 0.5, -3.0, 1.0 ); }
        judge( sc, op, e, um, false, 1, true, 1 );
      } } } } }
    } );
  } } }
}

// arrangements of several round bodies that touch their neighbours
struct Cluster { const char* name; std::vector<VD> x; int planes; };
std::vector<Cluster> clusters()
{
  const double h = std::sqrt( 3.0 ) / 2.0, s = 0.98;
  std::vector<Cluster> c = {
    { "row of three", { vd( 0, 0 ), vd( 0.98, 0 ), vd( 1.96, 0 ) }, 0 },
    { "row of three numbered from the middle", { vd( 0.98, 0 ), vd( 0, 0 ), vd( 1.96, 0 ) }, 0 },
    { "triangle", { vd( 0, 0 ), vd( s, 0 ), vd( 0.5 * s, h * s ) }, 0 },
    { "two on the floor", { vd( 0, 0.49 ), vd( 0.98, 0.49 ) }, 1 },
    { "stack of two on the floor", { vd( 0, 0.49 ), vd( 0, 1.47 ) }, 1 },
    { "one in a corner", { vd( 0.49, 0.49 ) }, 3 },
    { "two in a corner", { vd( 0.49, 0.49 ), vd( 1.47, 0.49 ) }, 3 },
    { "one between two walls", { vd( 0.49, 3.0 ) }, 4 },
    { "pile on the floor", { vd( 0, 0.49 ), vd( s, 0.49 ), vd( 0.5 * s, 0.49 + h * s ) }, 1 },
    { "two separate pairs", { vd( 0, 0 ), vd( 7, 0 ), vd( 0.98, 0 ), vd( 7, 0.98 ) }, 0 } };
  if( D == 3 ) { c.push_back( { "tetrahedron", { vd( 0, 0, 0 ), vd( s, 0, 0 ), vd( 0.5 * s, h * s, 0 ), vd( 0.5 * s, h * s / 3, std::sqrt( 2.0 / 3.0 ) * s ) }, 0 } ); }
  return c;
}
void manyBodies()
{
  const auto cl = clusters();
  std::vector<VD> vs;
  if( D == 2 ) { vs = { vd( 0, 0 ), vd( 1, 0 ), vd( -1, 0 ), vd( 0, -1 ), vd( 0, 1 ), vd( -0.5, -1 ), vd( 1, -1 ) }; } else { vs = { vd( 0, 0, 0 ), vd( 1, 0, 0 ), vd( -1, 0, 0 ), vd( 0, -1, 0 ), vd( -0.5, 0.5, -1 ) }; }
  for( const Cluster& c : cl ) { for( int mi = 0; mi < 2; ++mi ) { for( int op : opsHere() )
  {
#if !defined(SYS_RB3D)
    // pairwise response is only offered between balls (2D) and with planes (3D)
    if( ( op == GS ) && c.planes ) { continue; }
#endif
    for( double e : RES )
    {
      // Listed in known_findings.txt: repeated perfect reflections between opposed walls never end
      if( c.planes == 4 && ( ( e == 1.0 && ( op == GS || op == GR ) ) || ( e > 0.0 && op == GRR ) ) ) { vp::outcome( "endless reflection (known finding)" ); continue; }
      vp::runCase( [&]{ return std::string( c.name ) + ( mi ? ", unequal masses" : "" ) + " " + opName( op ) + " restitution " + std::to_string( e ); }, [&]
      {
        const int n = int( c.x.size() );
        vp::product( std::vector<int>( size_t( n ), n >= 4 ? std::min( int( vs.size() ), 4 + ( vp::thorough() ? 3 : 0 ) ) : int( vs.size() ) ), [&]( const std::vector<int>& d )
        {
          Scene sc;
          for( int i = 0; i < n; ++i ) { sc.b.push_back( ball( c.x[size_t( i )], 0.5, mi ? 1.0 + i : 1.0, vs[size_t( d[size_t( i )] )] ) ); }
          Plane p;
          if( c.planes == 1 || c.planes == 3 ) { p.x = vd( 0, 0 ); p.n = vd( 0, 1 ); sc.planes.push_back( p ); }
          if( c.planes == 3 || c.planes == 4 ) { p.x = vd( 0, 0 ); p.n = vd( 1, 0 ); sc.planes.push_back( p ); }
          if( c.planes == 4 ) { p.x = vd( 0.98, 0 ); p.n = vd( -1, 0 ); sc.planes.push_back( p ); }
          // warm starts: every operator that allows them, over two steps
          const bool warm = op != GS && mi == 1;
          judge( sc, op, e, 0, warm, warm ? 2 : 1, true );
        } );
      } );
    }
  } } }
}

// more bodies and contacts than any of the arrangements above
void crowds()
{
  std::vector<VD> vs;
  if( D == 2 ) { vs = { vd( 0, 0 ), vd( 1, 0 ), vd( -1, 0.5 ), vd( 0, -1 ), vd( -0.5, -1 ), vd( 1, -1 ), vd( 0.25, 0.75 ) }; } else { vs = { vd( 0, 0, 0 ), vd( 1, 0, 0.5 ), vd( -1, 0, 0 ), vd( 0, -1, 0 ), vd( -0.5, 0.5, -1 ), vd( 0.25, 0.75, 1 ), vd( 1, -1, 0 ) }; }
  for( int form = 0; form < 3; ++form ) { for( int many : { 6, 12, 30 } ) { for( int op : opsHere() ) { for( double e : RES )
  {
    // form 0: separate pairs, 1: pairs numbered far apart, 2: rows of three
    if( form == 2 && ( many > 12 && ( op == GRR || op == GR ) ) ) { continue; }
    if( !vp::thorough() && form == 2 && many > 12 ) { continue; }
    vp::runCase( [&]{ return std::string( form == 0 ? "many pairs " : form == 1 ? "many pairs, partners far apart in number " : "many rows " ) + std::to_string( many ) + " " + opName( op ) + " restitution " + std::to_string( e ); }, [&]
    {
      for( int stride = 1; stride < 7; ++stride ) { for( int off = 0; off < ( vp::thorough() ? 7 : 2 ); ++off )
      {
        Scene sc; const int per = form == 2 ? 3 : 2; sc.b.resize( size_t( many * per ) );
        for( int g = 0; g < many; ++g ) { for( int k = 0; k < per; ++k )
        {
          const int i = form == 1 ? g + k * many : per * g + k;
          const VD x = vd( 3.5 * ( g % 6 ) + ( g & 1 ? 0.98 * k : 0.0 ), 3.5 * ( g / 6 ) + ( g & 1 ? 0.0 : 0.98 * k ), D == 3 ? 0.5 * ( g % 3 ) : 0.0 );
          sc.b[size_t( i )] = ball( x, 0.5, 1.0 + ( g * 3 + k * 5 ) % 4, vs[size_t( ( i * stride + off + k ) % 7 )] );
        } }
        judge( sc, op, e, 0, false, 1, true );
      } }
    } );
  } } } }
}

void boundaries()
{
  const auto dirs = directions(); const auto vs = speeds();
  for( size_t di = 0; di < dirs.size(); ++di ) { for( int kind = 0; kind < 3; ++kind )
  {
#if defined(SYS_RB2D)
    if( kind == 1 ) { continue; }
#endif
    vp::runCase( [&]{ return std::string( kind == 0 ? "plane" : kind == 1 ? "drum or cylinder" : "fixed body" ) + ", direction " + vp::vstr( dirs[di] ); }, [&]
    {
      for( const VD& a : vs ) { for( const VD& b : vs ) { for( double e : RES ) { for( int op : opsHere() )
      {
        Scene sc;
        sc.b = { ball( vd( 5, 5, 5 ), 0.5, 2.0, vd( 1, 1, 1 ) ), ball( vd( 0.25, -0.5, 0.125 ), 0.75, 1.5, a ), ball( vd( 9, 5, 5 ), 0.5, 2.0, vd( -1, 1, 0 ) ) };
        bool rest = b.norm() == 0.0;
        if( kind == 0 )
        {
#if !defined(SYS_RB3D)
          if( op == GS ) { continue; }
#endif
          Plane p; p.x = sc.b[1].x - 0.7 * dirs[di]; p.n = dirs[di]; p.v = b;
          sc.b[0].x = sc.b[1].x + 10.0 * dirs[di]; sc.b[2].x = sc.b[1].x + 12.0 * dirs[di];
          sc.planes.push_back( p );
        }
        if( kind == 1 )
        {
          if( op == GS ) { continue; }
          if( !rest ) { continue; }
          Round r; r.r = 30.0; r.x = sc.b[1].x - ( 30.0 - 0.7 ) * dirs[di];
          if( D == 3 )
          {
            VD ax = std::abs( dirs[di]( 0 ) ) < 0.7 ? vd( 1, 0, 0 ) : vd( 0, 1, 0 ); ax -= ax.dot( dirs[di] ) * dirs[di]; r.axis = ax / ax.norm();
            r.w = 0.5;
            sc.b[0].x = sc.b[1].x - 10.0 * dirs[di]; sc.b[2].x = sc.b[1].x - 12.0 * dirs[di];
          }
          else { sc.b[0].x = sc.b[1].x - 10.0 * dirs[di]; sc.b[2].x = sc.b[1].x - 12.0 * dirs[di]; }
          sc.rounds.push_back( r );
        }
        if( kind == 2 )
        {
#if defined(SYS_BALL2D)
          continue;
#else
          if( op == GS ) { continue; }
          Body f = ball( sc.b[1].x - 1.2 * dirs[di], 0.5, 1.0, b ); f.fixed = true;
#if defined(SYS_RB3D)
          if( !rest ) { continue; }   // fixed bodies are at rest in 3D
          f.v = VD::Zero(); f.w = { { 0, 0, 0 } };
#endif
          sc.b[0] = f;
#endif
        }
#if defined(SYS_RB3D)
        const int um = kind == 2 ? 1 : 0;
#else
        const int um = 0;
#endif
        judge( sc, op, e, um, false, 1, rest && kind != 1, 1 );
      } } } }
    } );
  } }
}

// pairs that touch across a periodic boundary
void portals()
{
  const auto vs = speeds();
  for( int axis = 0; axis < D; ++axis ) { for( int swap = 0; swap < 2; ++swap )
  {
    vp::runCase( [&]{ return "across a periodic boundary, axis " + std::to_string( axis ) + ( swap ? ", swapped" : "" ); }, [&]
    {
      for( const VD& a : vs ) { for( const VD& b : vs ) { for( double e : RES ) { for( int op : opsNoResolve() )
      {
        Scene sc;
        const VD ex = VD::Unit( axis );
        Portal p; p.xa = -4.0 * ex; p.na = ex; p.xb = 4.0 * ex; p.nb = -ex; sc.portals.push_back( p );
        sc.b = { ball( 3.6 * ex, 0.5, 1.0, a ), ball( -3.5 * ex, 0.5, 2.0, b ) };
        if( swap ) { std::swap( sc.b[0], sc.b[1] ); }
        sc.b.push_back( ball( VD::Zero(), 0.5, 1.0, vd( 0.5, 0.25, 0 ) ) );
        judge( sc, op, e, 0, false, 1, true, 1 );
      } } } }
    } );
  } }
}

#if defined(SYS_RB3D)
void boxes()
{
  // a box (or the same box as a mesh) resting on, or falling onto, a plane with 1, 2 or 4 corners; and two boxes face to face
  const std::vector<std::array<double,3>> rots = { { { 0, 0, 0 } }, { { 0, 0, 0.3 } }, { { 0.4, 0, 0 } }, { { 0.3, 0.5, -0.2 } } };
  const auto vs = speeds();
  for( size_t ri = 0; ri < rots.size(); ++ri ) { for( char kind : { 'b', 'm' } ) { for( int two = 0; two < 2; ++two )
  {
    vp::runCase( [&]{ return std::string( kind == 'b' ? "box" : "mesh" ) + ( two ? " against another" : " on a plane" ) + " rotation " + std::to_string( ri ); }, [&]
    {
      for( const VD& a : vs ) { for( int wi = 0; wi < 4; ++wi ) { for( double e : RES ) { for( int op : opsNoResolve() ) { for( int um = 0; um < NUMAPS; ++um )
      {
        if( um && e != 0.25 ) { continue; }
        Scene sc;
        Body b; b.kind = kind; b.dim = { { 0.75, 0.5, 0.25 } }; b.m = 2.0; b.I = 0.5; b.rot = rots[ri]; b.v = a;
        b.w = { { wi == 1 ? 1.0 : 0.0, wi == 2 ? -1.0 : wi == 3 ? 0.5 : 0.0, wi == 3 ? 2.0 : 0.0 } };
        if( two )
        {
          if( ri == 3 && kind == 'b' ) { continue; }
          // meshes may press on each other from both sides, where perfect reflections never end (known finding)
          if( kind == 'm' && ( ( op == GR && e == 1.0 ) || ( op == GRR && e > 0.0 ) ) ) { continue; }
          Body o = b; o.rot = { { 0, 0, 0 } }; o.m = 1.0; o.v = vd( 0, 0.5, 0 ); o.w = { { 0, 0, 0 } };
          b.x = vd( 0, 0.97, 0 ) + ( ri == 2 ? vd( 0, 0.06, 0 ) : ri == 3 ? vd( 0, 0.25, 0.05 ) : vd( 0, 0.1, 0 ) ); if( ri == 0 ) { b.x = vd( 0.125, 0.97, 0.0625 ); }
          sc.b = { o, b };
        }
        else
        {
          const Eigen::Matrix3d R = rotation( b.rot ); double low = 0.0;
          for( int k = 0; k < 8; ++k ) { low = std::min( low, ( R * Eigen::Vector3d( k & 1 ? 0.75 : -0.75, k & 2 ? 0.5 : -0.5, k & 4 ? 0.25 : -0.25 ) )( 1 ) ); }
          b.x = vd( 0, -low - 0.001, 0 );
          Plane p; p.n = vd( 0, 1, 0 ); sc.planes.push_back( p );
          sc.b = { ball( vd( 6, 6, 6 ), 0.5, 1.0, vd( 0, 1, 0 ) ), b };
          if( kind == 'b' ) { sc.b[0] = b; sc.b[0].x = vd( 6, 6, 6 ); }
        }
        judge( sc, op, e, um, false, 1, true );
      } } } } }
    } );
  } } }
}
#endif
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  pairsOfBalls();
  boundaries();
  manyBodies();
  crowds();
  portals();
#if defined(SYS_RB3D)
  boxes();
#endif
  return vp::finish();
}
