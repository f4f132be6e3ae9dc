// P16: results do not depend on body numbering or on bystanders; without contact every scheme is the plain motion.
// Every explored scene is run through the real simulator, then again under every permutation of its bodies and with one and two
// far-away bodies inserted at every place, for every integrator and contact scheme; the trajectories must be the same, renumbered.
#include "maps.h"
#include <Eigen/Dense>
#include <numeric>
using namespace sys;

namespace
{
enum Kind { PLAIN, IMPACT, FRICTION };
struct How { Kind kind; int op; int fs, ifm; int um; double e, mu; bool warm; };
std::string show( const How& h )
{
  std::string s = umapName( h.um );
  if( h.kind == IMPACT ) { s += std::string( " " ) + ( h.op == 9 ? "lcp_ql" : iopName( h.op ) ) + ( h.warm ? " warm" : "" ) + " restitution " + std::to_string( h.e ); }
  if( h.kind == FRICTION ) { s += std::string( " " ) + fsName( h.fs ) + " " + ifmName( h.ifm ) + " restitution " + std::to_string( h.e ) + " friction " + std::to_string( h.mu ); }
  return s;
}
const Dt DT( 1, 64 );
int STEPS = 3;
unsigned MAX_ITERS = 3000;
bool LOOPY = false;   // contacts that close loops or share a body pair: friction is nearly indeterminate, compared loosely
std::unique_ptr<ImpactOperator> makeOp( int i )
{
  const LCPOperatorAPGD apgd( 1.0e-6, 5000 );
  switch( i )
  {
    case 0: return std::unique_ptr<ImpactOperator>( new GaussSeidelOperator( 1.0e-9 ) );
    case 1: return std::unique_ptr<ImpactOperator>( new GROperator( 1.0e-4, apgd ) );
    case 2: return std::unique_ptr<ImpactOperator>( new GRROperator( GROperator( 1.0e-4, apgd ), apgd ) );
    case 3: return apgd.clone();
    default: return std::unique_ptr<ImpactOperator>( new LCPOperatorQL( 1.0e-9 ) );
  }
}
struct Frame { VX q, v; size_t contacts; };
std::vector<Frame> run( const Scene& sc, const How& h )
{
  std::vector<Frame> out;
  Sim s = build( sc );
  const auto u = umap( h.um );
  ImpactMap im( h.warm );
  std::unique_ptr<ImpactOperator> op; if( h.kind == IMPACT ) { op = makeOp( h.op ); }
  std::unique_ptr<FrictionSolver> fs; std::unique_ptr<ImpactFrictionMap> map;
  if( h.kind == FRICTION ) { fs = fsolver( h.fs, h.fs == SOBOGUS ? 1.0e-8 : 1.0e-6, 1, 8, 5000, 1.0e-5 ); map = ifmap( h.ifm, 1.0e-11, h.fs == SOBOGUS ? MAX_ITERS : 40 ); }
  out.push_back( Frame{ q( s ), v( s ), detect( s, q( s ), q( s ), v( s ) ).size() } );
  for( int k = 1; k <= STEPS; ++k )
  {
    if( h.kind == PLAIN ) { flowU( s, unsigned( k ), DT, *u ); }
    if( h.kind == IMPACT ) { flowI( s, unsigned( k ), DT, *u, *op, h.e, im ); }
    if( h.kind == FRICTION ) { flowF( s, unsigned( k ), DT, *u, h.e, h.mu, *fs, *map ); }
    vp::transition();
    out.push_back( Frame{ q( s ), v( s ), 0 } );
  }
  return out;
}
VX poseOf( const VX& q, int n, int i )
{
#if defined(SYS_RB3D)
  VX r( 12 ); r << q.segment<3>( 3 * i ), q.segment<9>( 3 * n + 9 * i ); return r;
#elif defined(SYS_RB2D)
  (void) n; return q.segment<3>( 3 * i );
#else
  (void) n; return q.segment<2>( 2 * i );
#endif
}
VX velOf( const VX& v, int i ) { VX r( D + AD ); r.head( D ) = lin( v, i ); if( AD ) { r.tail( AD ) = ang( v, i ); } return r; }
double tolOf( const How& h ) { return h.kind == PLAIN ? 1.0e-12 : h.kind == IMPACT ? ( h.op == 1 || h.op == 2 ? 2.0e-3 : h.op == 3 ? 2.0e-4 : 1.0e-6 ) : h.fs == SOBOGUS ? ( LOOPY ? 1.0e-2 : 1.0e-6 ) : 1.0e-3; }

void same( const std::vector<Frame>& a, int na, const std::vector<Frame>& b, int nbod, const std::vector<int>& where, double tol, const std::string& what )
{
  for( size_t k = 0; k < a.size(); ++k ) { for( int i = 0; i < na; ++i )
  {
    const VX pa = poseOf( a[k].q, na, i ), pb = poseOf( b[k].q, nbod, where[size_t( i )] ), va = velOf( a[k].v, i ), vb = velOf( b[k].v, where[size_t( i )] );
    VP_CHECK( ( pa - pb ).lpNorm<Eigen::Infinity>() <= tol && ( va - vb ).lpNorm<Eigen::Infinity>() <= tol,
      what << ": after step " << k << " body " << i << " is at " << vp::vstr( pb ) << " moving " << vp::vstr( vb ) << " instead of " << vp::vstr( pa ) << " moving " << vp::vstr( va ) );
  } }
}

Body bystander( const Scene& sc, int which )
{
  Body b = sc.b[0]; b.fixed = false;
  const double s = which ? -1.0 : 1.0;
  b.x = vd( 9.0 * s, which ? 12.0 : 8.0, 7.0 * s ); b.v = vd( 0.5 * s, 0.25, -0.125 ); b.m = which ? 0.25 : 7.0; b.I = 0.3;
  if( AD ) { b.w = { { 0.5 * s, D == 3 ? 0.25 : 0.0, 0.0 } }; }
  return b;
}

void judge( const Scene& sc, const How& h, bool permute, bool far_free )
{
  vp::note( sys::show( sc ) + " " + show( h ) );
  const int n = int( sc.b.size() );
  const auto fr = run( sc, h );
  vp::outcome( fr[0].contacts ? fr[0].contacts > 1 ? "several contacts" : "one contact" : "no contact at first" );
  for( const Frame& f : fr ) { vp::state( hash( f.v, hash( f.q ) ) ); }
  std::vector<int> where( static_cast<size_t>( n ) ); std::iota( where.begin(), where.end(), 0 );
  if( permute )
  {
    while( std::next_permutation( where.begin(), where.end() ) )
    {
      Scene o = sc; for( int i = 0; i < n; ++i ) { o.b[size_t( where[size_t( i )] )] = sc.b[size_t( i )]; }
      std::string w; for( int i : where ) { w += " " + std::to_string( i ); }
      same( fr, n, run( o, h ), n, where, tolOf( h ), "renumbered to" + w );
      vp::outcome( "renumbered" );
    }
  }
  if( far_free )
  {
    for( int a = 0; a <= n; ++a ) { for( int b = -1; b <= n + 1; ++b )
    {
      if( b >= 0 && b <= a ) { continue; }
      Scene o = sc; o.b.insert( o.b.begin() + a, bystander( sc, 0 ) );
      for( int i = 0; i < n; ++i ) { where[size_t( i )] = i + ( i >= a ); }
      if( b >= 0 ) { o.b.insert( o.b.begin() + b, bystander( sc, 1 ) ); for( int i = 0; i < n; ++i ) { where[size_t( i )] += where[size_t( i )] >= b; } }
      same( fr, n, run( o, h ), n + 1 + ( b >= 0 ), where, tolOf( h ), "bystander at " + std::to_string( a ) + ( b >= 0 ? " and " + std::to_string( b ) : "" ) );
      vp::outcome( "bystanders" );
    } }
  }
}

// the same scene among many small bodies that touch nothing
void amongMany( const Scene& sc, const How& h, int many )
{
  const int n = int( sc.b.size() );
  const auto fr = run( sc, h );
  for( int form = 0; form < 3; ++form )   // crowd in front, behind, between
  {
    Scene o = sc; o.b.clear(); std::vector<int> where( static_cast<size_t>( n ) );
    std::vector<Body> crowd;
    for( int k = 0; k < many; ++k )
    {
      Body b = sc.b[size_t( k % n )]; b.fixed = false; for( double& d : b.dim ) { d *= 0.05; }
      b.m = 0.01; b.I = 0.001; b.w = { { 0, 0, 0 } };
      b.x = vd( 9.0 + 0.25 * ( k % 4 ), 8.0 + 0.25 * ( k / 4 % 8 ), D == 3 ? 7.0 + 0.25 * ( k / 32 ) : 0.0 ); if( D == 2 ) { b.x( 0 ) += 1.0 * ( k / 32 ); }
      b.v = vd( 0.5, 0.25, -0.125 );
      crowd.push_back( b );
    }
    size_t c = 0;
    for( int i = 0; i < n; ++i )
    {
      const size_t upto = form == 0 ? crowd.size() : form == 1 ? 0 : crowd.size() * size_t( i + 1 ) / size_t( n + 1 );
      while( c < upto ) { o.b.push_back( crowd[c++] ); }
      where[size_t( i )] = int( o.b.size() ); o.b.push_back( sc.b[size_t( i )] );
    }
    while( c < crowd.size() ) { o.b.push_back( crowd[c++] ); }
    same( fr, n, run( o, h ), n + many, where, tolOf( h ), std::to_string( many ) + " bystanders, arrangement " + std::to_string( form ) );
    vp::outcome( "among many" );
  }
}

Body round( const VD& x, double r, const VD& vv, int w, double m )
{
  Body b; b.x = x; b.dim = { { r, r, r } }; b.m = m; b.I = 0.4 * m * r * r; b.v = vv;
  if( AD ) { if( w == 1 ) { b.w = { { 1.5, D == 3 ? -1.0 : 0.0, D == 3 ? 0.25 : 0.0 } }; } if( w == 2 ) { b.w = { { -2.0, 0.0, D == 3 ? 1.0 : 0.0 } }; } }
  return b;
}
struct Layout { std::string name; std::vector<Body> b; Scene frame; bool wall = false, portal = false, fixedBodies = false, single = false, shapes = false, wedged = false; };

std::vector<Layout> layouts()
{
  std::vector<Layout> ls;
  const double g = std::sqrt( 3.0 ) / 2.0;
  auto three = [&]( const VD& a, const VD& b, const VD& c ) { return std::vector<Body>{ round( a, 0.5, vd( 0, 0 ), 1, 1.0 ), round( b, 0.5, vd( 0, 0 ), 2, 2.5 ), round( c, 0.5, vd( 0, 0 ), 0, 0.75 ) }; };
  { Layout l; l.name = "pair and one apart"; l.b = three( vd( 0, 0 ), vd( 3, 2, 1 ), vd( 0.592, 0.792 ) ); l.single = true; ls.push_back( l ); }
  { Layout l; l.name = "row"; l.b = three( vd( 0, 0 ), vd( 0.99, 0 ), vd( 1.97, 0.1 ) ); ls.push_back( l ); }
  { Layout l; l.name = "triangle"; l.b = three( vd( 0, 0 ), vd( 0.99, 0 ), vd( 0.495, 0.99 * g ) ); ls.push_back( l ); }
  { Layout l; l.name = "apart"; l.b = three( vd( 0, 0 ), vd( 3, 0.5, 1 ), vd( -3, 1, -1 ) ); ls.push_back( l ); }
  { Layout l; l.name = "stack on a floor"; l.b = three( vd( 0, 0.495 ), vd( 0.1, 1.475 ), vd( 3, 0.49 ) ); Plane p; p.n = vd( 0, 1 ); l.frame.planes = { p }; p.n = vd( 1, 0 ); p.x = vd( -20, 0 ); l.frame.planes.push_back( p ); l.wall = true; ls.push_back( l ); }
  if( D == 3 || AD == 0 )
  {
    Layout l; l.name = "in a drum"; l.b = three( vd( 0, -2.505 ), vd( 0.9, -2.09 ), vd( 17.703, 3.396 ) );
    Round r; r.x = vd( 0, 27 ); r.axis = vd( 0, 0, 1 ); r.r = 30.0; l.frame.rounds = { r }; l.wall = true; ls.push_back( l );
  }
  for( int sl = 0; sl < ( D == 2 ? 2 : 1 ); ++sl )
  {
    // across the boundary x = +-20; the bystanders stay inside
    Layout l; l.name = sl ? "across a sliding boundary" : "across a boundary"; l.b = three( vd( 19.52, 0 ), vd( -19.51, 0.1 ), vd( -19.4, 1.05 ) );
    Portal p; p.xa = vd( -20, 0 ); p.na = vd( 1, 0 ); p.xb = vd( 20, 0 ); p.nb = vd( -1, 0 ); if( sl ) { p.sliding = true; p.speed = 0.5; p.bounds = 20.0; }
    l.frame.portals = { p }; l.portal = true; ls.push_back( l );
  }
  if( AD )
  {
    for( int f = 1; f < 7; ++f )
    {
      Layout l; l.name = "row with fixed bodies " + std::to_string( f ); l.b = three( vd( 0, 0 ), vd( 0.99, 0 ), vd( 1.97, 0.1 ) );
      for( int i = 0; i < 3; ++i ) { if( f >> i & 1 ) { l.b[size_t( i )].fixed = true; l.b[size_t( i )].w = { { 0, 0, 0 } }; } }
      l.fixedBodies = true; l.wall = true; l.wedged = f == 5; ls.push_back( l );
    }
  }
#if !defined(SYS_BALL2D)
  {
    Layout l; l.name = "boxes on each other";
    Body a; a.kind = 'b'; a.dim = { { 0.75, 0.5, 0.25 } }; a.m = 2.0; a.I = 0.5; Body b = a; b.m = 1.5; b.x = vd( 0.3, 0.98, 0.1 ); if( D == 2 ) { b.rot[0] = 0.05; } else { b.rot = { { 0.03, 0.2, 0.05 } }; }
    Body c = a; c.x = vd( 4.0, 0.0, 0.0 ); c.rot[0] = 0.4;
    l.b = { a, b, c }; l.shapes = true; ls.push_back( l );
    Plane p; p.n = vd( 0, 1 ); p.x = vd( 0, -0.495 ); l.name = "boxes on each other on a floor"; l.frame.planes = { p }; l.wall = true; ls.push_back( l );
  }
#endif
#if defined(SYS_RB2D)
  {
    Layout l; l.name = "box and discs";
    Body a; a.kind = 'b'; a.dim = { { 0.75, 0.5, 0 } }; a.m = 2.0; a.I = 0.5; a.rot[0] = 0.2;
    l.b = { a, round( vd( -0.2, 0.98 ), 0.5, vd( 0, 0 ), 1, 1.0 ), round( vd( 1.2, 0.35 ), 0.5, vd( 0, 0 ), 2, 1.5 ) }; l.shapes = true; ls.push_back( l );
  }
#endif
#if defined(SYS_RB3D)
  {
    Layout l; l.name = "meshes on each other";
    Body a; a.kind = 'm'; a.dim = { { 0.75, 0.5, 0.25 } }; a.m = 2.0; a.I = 0.5; Body b = a; b.m = 1.5; b.x = vd( 0.3, 0.98, 0.1 ); b.rot = { { 0.03, 0.2, 0.05 } };
    Body c = a; c.x = vd( 4.0, 0.0, 0.0 ); c.rot[0] = 0.4;
    l.b = { a, b, c }; l.shapes = true; ls.push_back( l );
  }
#endif
  return ls;
}

std::vector<How> hows( const Layout& l )
{
  std::vector<How> hs;
  for( int um = 0; um < NUMAPS; ++um )
  {
    if( D == 3 && um == 0 && l.fixedBodies ) { continue; }   // not supported by the integrator
    hs.push_back( How{ PLAIN, 0, 0, 0, um, 0, 0, false } );
    for( double e : { 0.0, 0.5 } )
    {
      for( int op : { 0, 1, 2, 3, 9 } ) { for( int warm = 0; warm < 2; ++warm )
      {
        if( op == 0 && ( !l.single || AD == 1 || warm ) ) { continue; }   // one contact at a time depends on the order by design
        if( ( op == 1 || op == 2 ) && e > 0.0 && ( l.wall || l.shapes ) ) { continue; }   // endless reflections (known finding of P05)
        if( AD == 1 && l.shapes ) { continue; }   // no frictionless impacts of boxes in 2D
        if( AD == 1 && op == 0 ) { continue; }
        if( warm && ( l.shapes || l.portal || um != D - 2 || e > 0.0 || op == 1 || op == 2 ) ) { continue; }
        hs.push_back( How{ IMPACT, op, 0, 0, um, e, 0, warm != 0 } );
      } }
      for( int im : { int( GEO ), int( GEO_N ), int( GEO_NF ), int( STAB ), int( SE ), int( SE_N ), int( SE_NF ) } )
      {
        if( ifmIsSE( im ) && ( e > 0.0 || AD == 1 || l.shapes || l.portal ) ) { continue; }
        if( D == 3 && im == GEO_NF ) { continue; }
        if( ifmCaches( im ) && ( l.shapes || l.portal ) ) { continue; }
        // wedged between two obstacles Coulomb's law has several solutions
        hs.push_back( How{ FRICTION, 0, SOBOGUS, im, um, e, l.wedged ? 0.0 : 0.5, false } );
      }
      if( D == 2 && um == 0 && ( l.single || l.name == "apart" ) && !l.shapes && !l.portal && !( AD == 1 && ( l.wall || l.fixedBodies ) ) ) { hs.push_back( How{ FRICTION, 0, STAGGERED, GEO, um, e, 0.5, false } ); }
      if( D == 3 && um == 1 && !l.fixedBodies && !l.portal && ( !l.wall || e == 0.0 ) && !l.shapes ) { hs.push_back( How{ FRICTION, 0, GRRF, GEO, um, e, 0.5, false } ); }
    }
  }
  return hs;
}

void scenes()
{
  std::vector<std::array<VD,3>> vs;
  if( D == 2 ) { vs = { { { vd( 0.25, -1 ), vd( -0.5, 0.75 ), vd( -0.6, -0.8 ) } }, { { vd( 1, 0.25 ), vd( 0, -0.5 ), vd( -1, -1 ) } }, { { vd( 0, 0 ), vd( -1, -0.75 ), vd( 0.5, 0 ) } }, { { vd( -0.75, -0.5 ), vd( 0.25, 0 ), vd( 0.5, -1.5 ) } } }; }
  else { vs = { { { vd( 0.25, -1, 0.5 ), vd( -0.5, 0.75, 0 ), vd( -0.6, -0.8, 0.25 ) } }, { { vd( 1, 0.25, 0 ), vd( 0, -0.5, 0.75 ), vd( -1, -1, -0.5 ) } }, { { vd( 0, 0, 0 ), vd( -1, -0.75, 0.25 ), vd( 0.5, 0, 0 ) } } }; }
  if( vp::thorough() )
  {
    const std::vector<std::array<VD,3>> base = vs;
    for( size_t a = 0; a < base.size(); ++a ) { for( size_t b = 0; b < base.size(); ++b ) { for( size_t c = 0; c < base.size(); ++c ) { if( a != b || b != c ) { vs.push_back( { { base[a][0], base[b][1], base[c][2] } } ); } } } }
  }
  for( const Layout& l : layouts() ) { for( const How& h : hows( l ) ) { for( int grav = 0; grav < 2; ++grav )
  {
    if( l.portal && grav ) { continue; }
    vp::runCase( [&]{ return l.name + ( grav ? " with gravity" : "" ) + ", " + show( h ); }, [&]
    {
      MAX_ITERS = l.shapes ? 400 : 3000; LOOPY = l.shapes || l.name == "triangle" || l.name == "in a drum";
      for( size_t k = 0; k < vs.size(); ++k ) { for( int steps : { 1, vp::thorough() ? 4 : 3 } )
      {
        if( steps == 1 && k ) { continue; }
        STEPS = steps;
        Scene sc = l.frame; sc.b = l.b;
        if( grav ) { sc.gravity = true; sc.g = vd( 1.0, -6.0, 0.5 ); if( D == 2 && AD == 0 ) { sc.penalty = true; sc.pk = 20.0; sc.pp = 2.0; } }
        for( int i = 0; i < 3; ++i ) { if( !sc.b[size_t( i )].fixed ) { sc.b[size_t( i )].v = vs[k][size_t( i )]; } }
        judge( sc, h, true, !l.portal || true );
        if( k == 0 && steps > 1 && !grav ) { amongMany( sc, h, vp::thorough() ? 70 : 35 ); }
      } }
    } );
  } } }
}

// four bodies: every one of 24 numberings
void four()
{
  struct L4 { const char* name; std::vector<VD> x; bool floor; };
  const std::vector<L4> ls = { { "chain of four", { vd( 0, 0 ), vd( 0.98, 0.1 ), vd( 1.95, -0.05 ), vd( 2.9, 0.2 ) }, false }, { "two pairs", { vd( 0, 0 ), vd( 0.99, 0 ), vd( 5, 0 ), vd( 5.6, 0.79 ) }, false }, { "pile", { vd( 0, 0.495 ), vd( 0.98, 0.49 ), vd( 0.49, 1.34 ), vd( 0.6, 2.32 ) }, true } };
  for( const L4& l : ls )
  {
    Layout ll; ll.wall = l.floor;
    for( const How& h : hows( ll ) )
    {
      if( h.fs != SOBOGUS && h.kind == FRICTION ) { continue; }
      vp::runCase( [&]{ return std::string( l.name ) + ", " + show( h ); }, [&]
      {
        MAX_ITERS = 3000; LOOPY = l.floor;
        STEPS = 2;
        Scene sc; sc.gravity = true; sc.g = vd( 0.5, -5, 0.25 );
        const double m[4] = { 1.0, 3.0, 0.5, 2.0 };
        const VD vv[4] = { vd( 0.5, -0.25, 0.5 ), vd( -1, 0.75, 0 ), vd( -0.6, -0.8, 0.25 ), vd( -0.75, -1, 0.125 ) };
        for( int i = 0; i < 4; ++i ) { sc.b.push_back( round( l.x[size_t( i )], 0.5, vv[i], i % 3, m[i] ) ); }
        if( l.floor ) { Plane p; p.n = vd( 0, 1 ); sc.planes = { p }; }
        judge( sc, h, true, true );
      } );
    }
  }
}

// no contact at all: every scheme is the plain motion
void contactless()
{
  Layout any; std::vector<How> hs = hows( any );
  for( int op : { 0, 1, 2, 3, 9 } ) { if( op == 0 && AD == 1 ) { continue; } for( int um = 0; um < NUMAPS; ++um ) { hs.push_back( How{ IMPACT, op, 0, 0, um, 1.0, 0, false } ); } }
  if( AD != 1 ) { for( int im : { int( SE_S ), int( SE_NS ), int( SE_NFS ) } ) { for( int um = 0; um < NUMAPS; ++um ) { hs.push_back( How{ FRICTION, 0, SOBOGUS, im, um, 0, 0.5, false } ); } } }
  for( int env = 0; env < 5; ++env ) { for( const How& h : hs )
  {
    if( h.kind == PLAIN ) { continue; }
    if( env == 2 && D == 2 && AD == 1 ) { continue; }   // no drums
    vp::runCase( [&]{ return "no contact, surroundings " + std::to_string( env ) + ", " + show( h ); }, [&]
    {
      STEPS = 4;
      const std::vector<VD> vs = { vd( 0, 0, 0 ), vd( 1, -0.5, 0.25 ), vd( -0.75, 1, 0.5 ) };
      vp::product( std::vector<int>( 3, int( vs.size() ) ), [&]( const std::vector<int>& d ) { for( int grav = 0; grav < 2; ++grav )
      {
        Scene sc; if( grav ) { sc.gravity = true; sc.g = vd( 1.0, -6.0, 0.5 ); }
        const VD x[3] = { vd( 0, 0 ), vd( 3, 0.5, 1 ), vd( -3, 1, -1 ) };
        for( int i = 0; i < 3; ++i )
        {
          Body b = round( x[i], 0.5, vs[size_t( d[size_t( i )] )], i, 1.0 + i );
          // asymmetric shapes that tumble, where the scheme leaves rotation to the integrator
          if( AD && env == 3 && !ifmIsSE( h.ifm ) ) { b.kind = 'b'; b.dim = { { 0.75, 0.5, 0.25 } }; b.I = 0.5; }
          sc.b.push_back( b );
        }
        if( env == 1 ) { Plane p; p.n = vd( 0, 1 ); p.x = vd( 0, -20 ); sc.planes = { p }; }
        if( env == 2 ) { Round r; r.x = vd( 0, 0 ); r.axis = vd( 0, 0, 1 ); r.r = 20.0; sc.rounds = { r }; }
        if( env == 4 ) { Portal p; p.xa = vd( -3.03125, 0 ); p.na = vd( 1, 0 ); p.xb = vd( 30, 0 ); p.nb = vd( -1, 0 ); sc.portals = { p }; }
        vp::note( sys::show( sc ) + " " + show( h ) );
        How p = h; p.kind = PLAIN;
        auto a = run( sc, p ); const auto b = run( sc, h );
        // the symplectic Euler scheme is an integrator of its own; the others must not touch the integrator's result
        const bool se = h.kind == FRICTION && ifmIsSE( h.ifm );
        if( se && D == 2 && h.um != 0 ) { return; }
        if( se && D == 3 )
        {
          if( !sc.portals.empty() ) { return; }
          for( size_t k = 1; k < a.size(); ++k ) { for( int i = 0; i < 3; ++i ) { if( grav ) { setLin( a[k].v, i, VD( lin( a[k - 1].v, i ) + double( DT ) * sc.g ) ); } setPos( a[k].q, i, VD( pos( a[k - 1].q, i ) + double( DT ) * lin( a[k].v, i ) ) ); } }
        }
        for( size_t k = 0; k < a.size(); ++k )
        {
          const double tol = se ? 1.0e-12 : 0.0;
          // in 3D it turns bodies by a rule of its own, equal to third order
          const long np = se && D == 3 ? 9 : a[k].q.size();
          VP_CHECK( ( a[k].q - b[k].q ).head( np ).lpNorm<Eigen::Infinity>() <= tol && ( a[k].q - b[k].q ).lpNorm<Eigen::Infinity>() <= ( se ? 1.0e-4 : 0.0 ) && ( a[k].v - b[k].v ).lpNorm<Eigen::Infinity>() <= tol, "step " << k << ": q=" << vp::vstr( b[k].q ) << " v=" << vp::vstr( b[k].v ) << " instead of q=" << vp::vstr( a[k].q ) << " v=" << vp::vstr( a[k].v ) << " without contact handling" );
          vp::state( hash( a[k].v, hash( a[k].q ) ) );
        }
        vp::outcome( "plain motion" );
      } } );
    } );
  } }
}
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  scenes();
  four();
  contactless();
  return vp::finish();
}
