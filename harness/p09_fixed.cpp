// P09: fixed bodies are never disturbed, and free bodies meet them as immovable obstacles.
// Every explored scene is stepped with the real simulator; after every step the fixed bodies are compared with their prescribed
// motion. The same scene is then run with other masses and inertias of the fixed bodies and (2D) seen from a frame moving along,
// which must make no difference to the free bodies. Single contacts are compared with the closed form for a moving wall.
#include "maps.h"
#include <Eigen/Dense>
using namespace sys;

namespace
{
enum Kind { PLAIN, IMPACT, FRICTION };
struct How { Kind kind; int op; int fs, ifm; int um; double e, mu; int steps; };
std::string show( const How& h )
{
  std::string s = umapName( h.um );
  if( h.kind == IMPACT ) { s += std::string( " " ) + ( h.op == 9 ? "lcp_ql" : iopName( h.op ) ) + " restitution " + std::to_string( h.e ); }
  if( h.kind == FRICTION ) { s += std::string( " " ) + fsName( h.fs ) + " " + ifmName( h.ifm ) + " restitution " + std::to_string( h.e ) + " friction " + std::to_string( h.mu ); }
  return s;
}
const Dt DT( 1, 64 );
unsigned MAX_ITERS = 2000;
std::unique_ptr<ImpactOperator> makeOp( int i )
{
  const LCPOperatorAPGD apgd( 1.0e-6, 5000 );
  switch( i )
  {
    case 1: return std::unique_ptr<ImpactOperator>( new GROperator( 1.0e-4, apgd ) );
    case 2: return std::unique_ptr<ImpactOperator>( new GRROperator( GROperator( 1.0e-4, apgd ), apgd ) );
    case 3: return apgd.clone();
    default: return std::unique_ptr<ImpactOperator>( new LCPOperatorQL( 1.0e-9 ) );
  }
}
struct Frame { VX q, v; };

std::vector<Frame> run( const Scene& sc, const How& h )
{
  std::vector<Frame> out;
  Sim s = build( sc );
  const auto u = umap( h.um );
  ImpactMap im( false );
  std::unique_ptr<ImpactOperator> op; if( h.kind == IMPACT ) { op = makeOp( h.op ); }
  std::unique_ptr<FrictionSolver> fs; std::unique_ptr<ImpactFrictionMap> map;
  if( h.kind == FRICTION ) { fs = fsolver( h.fs, 1.0e-7 ); map = ifmap( h.ifm, 1.0e-10, MAX_ITERS ); }
  out.push_back( Frame{ q( s ), v( s ) } );
  for( int k = 1; k <= h.steps; ++k )
  {
    if( h.kind == PLAIN ) { flowU( s, unsigned( k ), DT, *u ); }
    if( h.kind == IMPACT ) { flowI( s, unsigned( k ), DT, *u, *op, h.e, im ); }
    if( h.kind == FRICTION ) { flowF( s, unsigned( k ), DT, *u, h.e, h.mu, *fs, *map ); }
    vp::transition();
    out.push_back( Frame{ q( s ), v( s ) } );
  }
  return out;
}

VX poseOf( const VX& q, int n, int i )
{
#if defined(SYS_RB3D)
  VX r( 12 ); r << q.segment<3>( 3 * i ), q.segment<9>( 3 * n + 9 * i ); return r;
#else
  (void) n; return q.segment<3>( 3 * i );
#endif
}
VX velOf( const VX& v, int i ) { VX r( D + AD ); r << lin( v, i ), ang( v, i ); return r; }

bool anyFixed( const Scene& sc ) { for( const Body& b : sc.b ) { if( b.fixed ) { return true; } } return false; }

// tol: how far apart two runs of the solver with reordered arithmetic may be
void judge( const Scene& sc, const How& h, double tol, double ftol )
{
  vp::note( sys::show( sc ) + " " + show( h ) );
  const int n = int( sc.b.size() );
  const double dt = double( DT );
  const auto fr = run( sc, h );
  for( size_t k = 0; k < fr.size(); ++k )
  {
    for( int i = 0; i < n; ++i )
    {
      if( !sc.b[size_t( i )].fixed ) { continue; }
      VP_CHECK( same( velOf( fr[k].v, i ), velOf( fr[0].v, i ) ), "after step " << k << " fixed body " << i << " moves with " << vp::vstr( velOf( fr[k].v, i ) ) << " instead of " << vp::vstr( velOf( fr[0].v, i ) ) );
#if defined(SYS_RB3D)
      VP_CHECK( same( poseOf( fr[k].q, n, i ), poseOf( fr[0].q, n, i ) ), "after step " << k << " fixed body " << i << " is at " << vp::vstr( poseOf( fr[k].q, n, i ) ) << " instead of " << vp::vstr( poseOf( fr[0].q, n, i ) ) );
#else
      const VX want = poseOf( fr[0].q, n, i ) + double( k ) * dt * velOf( fr[0].v, i );
      VP_CHECK( ( poseOf( fr[k].q, n, i ) - want ).lpNorm<Eigen::Infinity>() <= 1.0e-13, "after step " << k << " fixed body " << i << " is at " << vp::vstr( poseOf( fr[k].q, n, i ) ) << " instead of " << vp::vstr( want ) );
#endif
      vp::outcome( "fixed body followed" );
    }
    vp::state( hash( fr[k].v, hash( fr[k].q ) ) );
  }
  if( !anyFixed( sc ) ) { return; }
  // other masses and inertias of the fixed bodies
  for( double f : { 0.01, 1000.0 } )
  {
    Scene o = sc; for( Body& b : o.b ) { if( b.fixed ) { b.m *= f; b.I *= f; } }
    const auto other = run( o, h );
    for( size_t k = 0; k < fr.size(); ++k ) { VP_CHECK( ( other[k].q - fr[k].q ).lpNorm<Eigen::Infinity>() <= tol && ( other[k].v - fr[k].v ).lpNorm<Eigen::Infinity>() <= tol, "step " << k << ": with " << f << " times the mass of the fixed bodies velocities are " << vp::vstr( other[k].v ) << " instead of " << vp::vstr( fr[k].v ) ); }
    vp::outcome( "mass varied" );
  }
#if defined(SYS_RB2D)
  // seen from a frame moving with some velocity (no boundaries at rest in the scene)
  if( sc.planes.empty() )
  {
    const VD V = vd( 0.75, -0.5 );
    Scene o = sc; for( Body& b : o.b ) { b.v -= V; }
    const auto other = run( o, h );
    for( size_t k = 0; k < fr.size(); ++k ) { for( int i = 0; i < n; ++i )
    {
      VP_CHECK( ( lin( other[k].v, i ) + V - lin( fr[k].v, i ) ).norm() <= ftol && ( pos( other[k].q, i ) + double( k ) * dt * V - pos( fr[k].q, i ) ).norm() <= ftol && ( ang( other[k].v, i ) - ang( fr[k].v, i ) ).norm() <= ftol,
                "step " << k << " body " << i << ": velocity " << vp::vstr( velOf( fr[k].v, i ) ) << ", but " << vp::vstr( velOf( other[k].v, i ) ) << " seen from a frame moving with " << vp::vstr( V ) );
    } }
    vp::outcome( "moving frame" );
  }
#endif
}

std::vector<How> hows( int steps, bool boxes, bool planes )
{
  std::vector<How> hs;
  for( int um = 0; um < NUMAPS; ++um )
  {
    if( D == 3 && um == 0 ) { continue; }   // exponential Euler does not support fixed bodies
    hs.push_back( How{ PLAIN, 0, 0, 0, um, 0, 0, steps } );
    for( double e : { 0.0, 0.5, 1.0 } )
    {
      for( int op : { 1, 2, 3, 9 } )
      {
        if( um != D - 2 && op != 3 ) { continue; }
        if( boxes && ( op == 1 || op == 2 ) && e == 1.0 ) { continue; }   // repeated reflections between opposed contacts need not end (known finding of P05)
        if( AD == 1 && boxes ) { continue; }
        hs.push_back( How{ IMPACT, op, 0, 0, um, e, 0, steps } );
      }
      if( e == 1.0 ) { continue; }
      for( int im : { int( GEO ), int( STAB ) } ) { for( double mu : { 0.0, 0.5 } ) { hs.push_back( How{ FRICTION, 0, SOBOGUS, im, um, e, mu, steps } ); } }
      if( D == 3 && e == 0.0 && !boxes ) { hs.push_back( How{ FRICTION, 0, SOBOGUS, SE, um, e, 0.5, steps } ); }
    }
  }
  (void) planes;
  return hs;
}
// tolerance by solver: coarse where the solver itself stops early
double tolOf( const How& h ) { return h.kind == PLAIN ? 0.0 : 1.0e-8; }
double frameTolOf( const How& h ) { return h.kind == PLAIN ? 1.0e-12 : h.kind == FRICTION ? 1.0e-5 : h.op == 9 ? 1.0e-4 : 5.0e-3; }

Body ball( const VD& x, double r, const VD& vv, int w = 0, double m = 1.0 )
{
  Body b; b.x = x; b.dim = { { r, r, r } }; b.m = m; b.I = 0.4 * m * r * r; b.v = vv;
  if( w == 1 ) { b.w = { { 1.5, D == 3 ? -1.0 : 0.0, D == 3 ? 0.25 : 0.0 } }; }
  if( w == 2 ) { b.w = { { -2.0, 0.0, D == 3 ? 1.0 : 0.0 } }; }
  return b;
}
void still( Body& b ) { b.v = VD::Zero(); b.w = { { 0, 0, 0 } }; }

// every fixed subset of arrangements of round bodies
void clusters()
{
  struct Layout { const char* name; std::vector<VD> x; bool floor; };
  const double g = std::sqrt( 3.0 ) / 2.0;
  const std::vector<Layout> ls = {
    { "row", { vd( 0, 0 ), vd( 0.99, 0 ), vd( 1.98, 0 ) }, false },
    { "triangle", { vd( 0, 0 ), vd( 0.99, 0 ), vd( 0.495, 0.99 * g ) }, false },
    { "pair and bystander", { vd( 0, 0 ), vd( 5, 5 ), vd( 0, 0.99 ) }, false },
    { "stack on a floor", { vd( 0, 0.495 ), vd( 0, 1.48 ), vd( 0, 2.46 ) }, true },
    { "apart", { vd( 0, 0 ), vd( 3, 0.5 ), vd( -3, 1 ) }, false } };
  std::vector<VD> vs; if( D == 2 ) { vs = { vd( 0, 0 ), vd( 1, 0 ), vd( -0.5, -1 ), vd( 0, 1.5 ) }; } else { vs = { vd( 0, 0, 0 ), vd( 1, 0, 0.5 ), vd( -0.5, -1, 0.25 ) }; }
  for( const Layout& l : ls ) { for( int grav = 0; grav < 2; ++grav ) { for( int fixed = 1; fixed < 8; ++fixed ) { for( const How& h : hows( vp::thorough() ? 5 : 3, false, l.floor ) )
  {
    // repeated reflections between opposed obstacles never end (known finding of P05)
    if( h.kind == IMPACT && ( h.op == 1 || h.op == 2 ) && h.e > 0.0 && ( l.floor || fixed == 3 || fixed > 4 ) ) { continue; }
    vp::runCase( [&]{ return std::string( l.name ) + ( grav ? " with gravity" : "" ) + ", fixed subset " + std::to_string( fixed ) + ", " + show( h ); }, [&]
    {
      vp::product( std::vector<int>( 3, int( vs.size() ) ), [&]( const std::vector<int>& d )
      {
        Scene sc; if( grav ) { sc.gravity = true; sc.g = vd( 1.0, -6.0, 0.5 ); }
        for( int i = 0; i < 3; ++i )
        {
          Body b = ball( l.x[size_t( i )], 0.5, vs[size_t( d[size_t( i )] )], i % 3, 1.0 + i );
          if( fixed >> i & 1 )
          {
            b.fixed = true;
            if( D == 3 ) { if( d[size_t( i )] ) { return; } still( b ); }
            // bodies caught between fixed ones that approach each other have no possible motion
            if( l.floor && d[size_t( i )] ) { return; }
            for( int j = 0; j < i; ++j ) { if( ( fixed >> j & 1 ) && d[size_t( i )] != d[size_t( j )] ) { return; } }
          }
          sc.b.push_back( b );
        }
        if( l.floor ) { Plane p; p.n = vd( 0, 1 ); sc.planes.push_back( p ); if( D == 3 ) { Round r; r.x = vd( 0, 0 ); r.axis = vd( 0, 1, 0 ); r.r = 4.0; sc.rounds.push_back( r ); } }
        judge( sc, h, tolOf( h ), frameTolOf( h ) );
      } );
    } );
  } } } }
}

// many pairs of a fixed and a free body
void crowds()
{
  std::vector<VD> vs; if( D == 2 ) { vs = { vd( 0, 0 ), vd( 1, 0 ), vd( -0.5, -1 ), vd( 0, 1.5 ) }; } else { vs = { vd( 0, 0, 0 ), vd( 1, 0, 0.5 ), vd( -0.5, -1, 0.25 ), vd( 0, 1.5, -1 ) }; }
  for( int pairs : { 9, vp::thorough() ? 40 : 20 } ) { for( int form = 0; form < 5; ++form ) { for( const How& h : hows( 2, false, false ) )
  {
    vp::runCase( [&]{ return std::to_string( pairs ) + " pairs of a free and a fixed body, numbering " + std::to_string( form ) + ", " + show( h ); }, [&]
    {
      for( int stride = 1; stride < 4; stride += 2 )
      {
        Scene sc; sc.b.resize( size_t( 2 * pairs ) ); if( stride > 1 ) { sc.gravity = true; sc.g = vd( 1.0, -6.0, 0.5 ); }
        for( int g = 0; g < pairs; ++g ) { for( int k = 0; k < 2; ++k )
        {
          // fixed ones: every other, the first half, the last half, in mirror image, or both of every third pair free
          const int i = form == 0 || form == 4 ? 2 * g + k : form == 1 ? ( k ? g : pairs + g ) : form == 2 ? ( k ? pairs + g : g ) : ( k ? 2 * pairs - 1 - g : g );
          Body b = ball( vd( 4.0 * ( g % 5 ) + ( g % 3 ? 0.0 : 0.99 * k ), 4.0 * ( g / 5 ) + ( g % 3 ? 0.99 * k : 0.0 ), 0 ), 0.5, vs[size_t( ( g * stride + k ) % 4 )], g % 3, 1.0 + g % 4 );
          if( k && !( form == 4 && g % 3 == 1 ) ) { b.fixed = true; if( D == 3 ) { still( b ); } }
          sc.b[size_t( i )] = b;
        } }
        judge( sc, h, tolOf( h ), frameTolOf( h ) );
        vp::outcome( "crowd" );
      }
    } );
  } } }
}

// one free body against one fixed body: the closed form for a wall moving with the touching point of the fixed body
void singles()
{
  std::vector<VD> dirs, vs;
  if( D == 2 ) { dirs = { vd( 1, 0 ), vd( 0, -1 ), vd( 0.6, 0.8 ), vd( -0.8, 0.6 ), vd( -0.6, -0.8 ) }; for( int x = -1; x <= 1; ++x ) { for( int y = -1; y <= 1; ++y ) { vs.push_back( vd( x, y ) ); } } }
  else { dirs = { vd( 1, 0, 0 ), vd( 0, -1, 0 ), vd( 0, 0, 1 ), vd( 2.0 / 3, -1.0 / 3, 2.0 / 3 ) }; vs = { vd( 0, 0, 0 ), vd( 1, 0, 0 ), vd( -1, 0, 0 ), vd( 0, 1, 0 ), vd( 0, -1, 1 ), vd( 0, 0, -1 ), vd( 1, -1, 1 ), vd( -1, 1, -1 ) }; }
  for( const VD& n : dirs ) { for( int order = 0; order < 2; ++order ) { for( int fw = 0; fw < 3; ++fw ) { for( const How& h : hows( 1, false, false ) )
  {
    if( D == 3 && fw ) { continue; }
    if( h.kind == PLAIN || h.ifm == STAB ) { continue; }
    vp::runCase( [&]{ return "one free and one fixed body, direction " + vp::vstr( n ) + ( order ? ", fixed first" : "" ) + " spin " + std::to_string( fw ) + " " + show( h ); }, [&]
    {
      for( const VD& a : vs ) { for( const VD& b : vs ) { for( int w = 0; w < 3; ++w )
      {
        if( D == 3 && b.norm() > 0.0 ) { continue; }
        Scene sc;
        Body f = ball( vd( 0.25, -0.5, 0.125 ), 0.75, b, fw, 2.0 ); f.fixed = true; if( D == 3 ) { still( f ); }
        const Body m = ball( f.x + ( 1.25 - 1.0e-10 ) * n, 0.5, a, w, 1.5 );
        sc.b = { m, f }; if( order ) { std::swap( sc.b[0], sc.b[1] ); }
        const int mi = order, n2 = 2; (void) n2;
        vp::note( sys::show( sc ) + " " + show( h ) );
        const auto fr = run( sc, h );
        // velocity of the free body's touching point relative to the fixed body's
        VX vv = fr[0].v; const int fi = 1 - mi;
        const VD rel = pointVel( vv, mi, VD( -0.5 * n ) ) - pointVel( vv, fi, VD( 0.75 * n ) );
        const double un = rel.dot( n ); VD t = rel - un * n; const double ts = t.norm(); if( ts > 1.0e-12 ) { t /= ts; } else { t.setZero(); }
        const double I = 0.4 * 1.5 * 0.25;
        const double pn = std::max( 0.0, -( 1.0 + h.e ) * un ) * 1.5;
        const double wt = 1.0 / 1.5 + 0.25 / I;
        const double pt = h.kind == FRICTION ? std::min( h.mu * pn, ts / wt ) : 0.0;
        const VD dp = pn * n - pt * t;
        VX want = velOf( fr[0].v, mi ); want.head( D ) += dp / 1.5;
        if( AD == 1 ) { const VD r = -0.5 * n; want( D ) += ( r( 0 ) * dp( 1 ) - r( 1 ) * dp( 0 ) ) / I; }
#if defined(SYS_RB3D)
        { const Eigen::Vector3d r = -0.5 * n, dpp = dp; want.tail( 3 ) += r.cross( dpp ) / I; }
#endif
        // whether they touch during the step decides if anything happens
        const bool meet = un < 0.0;
        if( !meet && ts == 0.0 ) { continue; }
        if( !meet ) { want = velOf( fr[0].v, mi ); }
        VP_CHECK( ( velOf( fr[1].v, mi ) - want ).lpNorm<Eigen::Infinity>() <= 1.0e-4, "free body leaves with " << vp::vstr( velOf( fr[1].v, mi ) ) << ", expected " << vp::vstr( want ) << " from a wall at its touching point" );
        VP_CHECK( same( velOf( fr[1].v, fi ), velOf( fr[0].v, fi ) ), "fixed body changed velocity to " << vp::vstr( velOf( fr[1].v, fi ) ) );
        vp::outcome( meet ? ts > 0.0 && h.mu > 0.0 ? "rubs" : "bounces" : "leaves" );
      } } }
    } );
  } } } }
}

#if defined(SYS_RB3D)
// fixed boxes, meshes and balls under free boxes and meshes
void shapes()
{
  for( char kind : { 'b', 'm' } ) { for( int ri = 0; ri < 3; ++ri ) { for( int order = 0; order < 2; ++order ) { for( const How& h : hows( 2, true, false ) )
  {
    if( h.ifm >= SE ) { continue; }
    if( kind == 'm' && h.kind == IMPACT && h.op < 3 && h.e > 0.0 ) { continue; }   // opposed contacts (known finding of P05)
    MAX_ITERS = 60;
    vp::runCase( [&]{ return std::string( kind == 'b' ? "box" : "mesh" ) + " on a fixed one, rotation " + std::to_string( ri ) + ( order ? ", fixed first" : "" ) + ", " + show( h ); }, [&]
    {
      const std::vector<VD> vs = { vd( 0, 0, 0 ), vd( 0, -1, 0 ), vd( 1, -1, 0.5 ), vd( 0, 1, 0 ) };
      for( const VD& a : vs ) { for( int w = 0; w < 3; ++w ) { for( int grav = 0; grav < 2; ++grav )
      {
        Scene sc; if( grav ) { sc.gravity = true; sc.g = vd( 0, -6, 0 ); }
        Body f; f.kind = kind; f.dim = { { 0.75, 0.5, 0.25 } }; f.m = 2.0; f.I = 0.5; f.fixed = true;
        Body b = f; b.fixed = false; b.v = a; b.m = 1.5; b.w = { { w == 1 ? 0.5 : 0.0, w == 2 ? -1.0 : 0.0, w == 2 ? 0.5 : 0.0 } };
        b.rot = ri == 0 ? std::array<double,3>{ { 0, 0, 0 } } : ri == 1 ? std::array<double,3>{ { 0, 0, 0.3 } } : std::array<double,3>{ { 0.4, 0, 0 } };
        b.x = ri == 0 ? vd( 0.125, 0.97, 0.0625 ) : ri == 1 ? vd( 0, 1.07, 0 ) : vd( 0, 1.03, 0 );
        sc.b = { b, f }; if( order ) { std::swap( sc.b[0], sc.b[1] ); }
        Body far = b; far.x = vd( 6, 6, 6 ); sc.b.push_back( far );
        judge( sc, h, tolOf( h ), 1.0 );
      } } }
    } );
  } } } }
}
#endif
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  clusters();
  crowds();
  singles();
#if defined(SYS_RB3D)
  shapes();
#endif
  return vp::finish();
}
