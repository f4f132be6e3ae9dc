// P20: the bounded simulation domain of the 3D simulator. Every explored motion is run twice: once without limits, from
// which the extents of every body after every step are worked out here from the shapes' definitions, and once in a child
// process with limits that end the run. The child must complete exactly the steps after which everything lies inside,
// with the same states, and then end with failure; or complete them all if nothing ever leaves.
#include "maps.h"
#include <sys/mman.h>
#include <sys/wait.h>
using namespace sys;
using V3 = Eigen::Vector3d;

static const int STEPS = 5;
static const double H = 0.1;
static const Dt DTV( 1, 10 );

// The extents of a body, from what its shape is
static void extents( const Body& b, const V3& x, const Eigen::Matrix3d& R, V3& lo, V3& hi )
{
  if( b.kind == 'c' ) { lo = x.array() - b.dim[0]; hi = x.array() + b.dim[0]; return; }
  lo = V3::Constant( 1e300 ); hi = -lo;
  if( b.kind == 's' )
  {
    const double t = b.dim[2], w = b.dim[0] - t, l = b.dim[1] - t, r = 0.5 * t, cy = ( 2.0 * l * 0.5 * l ) / ( w + 2.0 * l );
    for( int sx = -1; sx <= 1; sx += 2 ) { for( int e = 0; e < 2; ++e ) { const V3 y = x + R * V3( sx * 0.5 * w, e * l - cy, 0 ); lo = lo.cwiseMin( V3( y.array() - r ) ); hi = hi.cwiseMax( V3( y.array() + r ) ); } }
    return;
  }
  for( int c = 0; c < 8; ++c ) { const V3 y = x + R * V3( c & 1 ? b.dim[0] : -b.dim[0], c & 2 ? b.dim[1] : -b.dim[1], c & 4 ? b.dim[2] : -b.dim[2] ); lo = lo.cwiseMin( y ); hi = hi.cwiseMax( y ); }
}

struct How { int kind; int umap; };   // 0 free, 1 impacts, 2 friction (geometric), 3 friction (stabilized)
static std::string name( const How& h ) { static const char* n[] = { "free flight", "lcp impacts", "friction (geometric)", "friction (stabilized)" }; return std::string( n[h.kind] ) + " " + umapName( h.umap ); }

struct Runner
{
  std::unique_ptr<UnconstrainedMap> um; std::unique_ptr<ImpactOperator> op; ImpactMap im; std::unique_ptr<FrictionSolver> fs; std::unique_ptr<ImpactFrictionMap> ifm; How h;
  explicit Runner( const How& how ) : um( umap( how.umap ) ), op( iop( 3 ) ), fs( fsolver( SOBOGUS, 1e-8 ) ), ifm( ifmap( how.kind == 3 ? STAB : GEO, 1e-8, 1000 ) ), h( how ) {}
  void step( Sim& s, unsigned it )
  {
    if( h.kind == 0 ) { flowU( s, it, DTV, *um ); }
    else if( h.kind == 1 ) { flowI( s, it, DTV, *um, *op, 1.0, im ); }
    else { flowF( s, it, DTV, *um, 0.5, 0.5, *fs, *ifm ); }
  }
};

struct Shared { int done; uint64_t hash[STEPS + 1]; };
static Shared* shared() { static Shared* p = (Shared*) mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ); return p; }

struct Track { std::vector<std::vector<V3>> lo, hi; std::vector<uint64_t> hash; };
static Track track( const Scene& sc, const How& h )
{
  Sim s = build( sc );
  Runner run( h );
  Track t;
  for( int k = 1; k <= STEPS; ++k )
  {
    run.step( s, unsigned( k ) );
    std::vector<V3> lo( sc.b.size() ), hi( sc.b.size() );
    for( size_t i = 0; i < sc.b.size(); ++i ) { extents( sc.b[i], pos( q( s ), int( i ) ), rotOf( q( s ), int( i ) ), lo[i], hi[i] ); }
    t.lo.push_back( lo ); t.hi.push_back( hi ); t.hash.push_back( sys::hash( v( s ), sys::hash( q( s ) ) ) );
    vp::state( t.hash.back() );
  }
  return t;
}

// The first step after which something lies outside (0: never); nan-free; tight says a limit is too close to call
static int leaves( const Track& t, const V3& mn, const V3& mx, bool& tight )
{
  for( int k = 0; k < STEPS; ++k )
  {
    bool out = false;
    for( size_t i = 0; i < t.lo[k].size(); ++i )
    {
      if( ( ( t.lo[k][i] - mn ).array().abs() < 1e-9 ).any() || ( ( t.hi[k][i] - mx ).array().abs() < 1e-9 ).any() ) { tight = true; return -1; }
      out = out || ( t.lo[k][i].array() < mn.array() ).any() || ( t.hi[k][i].array() > mx.array() ).any();
    }
    if( out ) { return k + 1; }
  }
  return 0;
}

static void judge( const Scene& sc, const How& h, const Track& t, const V3& mn, const V3& mx, bool limited )
{
  bool tight = false;
  const int want = limited ? leaves( t, mn, mx, tight ) : 0;
  if( tight ) { return; }
  Shared* sh = shared();
  std::memset( sh, 0, sizeof *sh );
  const int st = vp::forked( [&]
  {
    Sim s = build( sc );
    s.state().setBoundaryBehavior( limited ? SimBoundaryBehavior::EXIT : SimBoundaryBehavior::NONE );
    s.state().setBoundaryMin( mn ); s.state().setBoundaryMax( mx );
    Runner run( h );
    for( int k = 1; k <= STEPS; ++k ) { run.step( s, unsigned( k ) ); sh->hash[k] = sys::hash( v( s ), sys::hash( q( s ) ) ); sh->done = k; }
  } );
  const std::string where = "domain " + vp::vstr( mn ) + ".." + vp::vstr( mx ) + "; scene " + show( sc );
  VP_CHECK( WIFEXITED( st ), "the run ended with signal " << ( WIFSIGNALED( st ) ? WTERMSIG( st ) : -1 ) << "; " << where );
  const int done = sh->done;
  if( want == 0 ) { VP_CHECK( WEXITSTATUS( st ) == 0 && done == STEPS, "nothing leaves the domain but the run ended with status " << WEXITSTATUS( st ) << " after " << done << " steps; " << where ); }
  else { VP_CHECK( WEXITSTATUS( st ) != 0 && done == want - 1, "a body is outside after step " << want << ", but the run ended with status " << WEXITSTATUS( st ) << " after completing " << done << " steps; " << where ); }
  for( int k = 1; k <= done; ++k ) { VP_CHECK( sh->hash[k] == t.hash[k - 1], "limits changed the motion of step " << k << "; " << where ); }
  vp::outcome( !limited ? "no limits asked for" : want == 0 ? "stays inside" : "leaves" );
  vp::transition();
}

// Limits around one body's way out through one side, tried at every step of it
static void sweep( const Scene& sc, const How& h, int body, int axis, int side )
{
  const Track t = track( sc, h );
  const V3 far = V3::Constant( 50 );
  for( int k = 0; k < STEPS; ++k )
  {
    const double e = side > 0 ? t.hi[k][body]( axis ) : -t.lo[k][body]( axis );
    for( double d : { -0.02, -1e-6, 1e-6, 0.02 } )
    {
      V3 mn = -far + V3( 0, 1, 2 ), mx = far - V3( 3, 2, 1 );
      if( side > 0 ) { mx( axis ) = e + d; } else { mn( axis ) = -( e + d ); }
      judge( sc, h, t, mn, mx, true );
      if( k == 2 && d < 0 ) { judge( sc, h, t, mn, mx, false ); }
    }
  }
  // A domain that encloses everything on every side, and each side in turn just too narrow
  V3 mn = V3::Constant( 1e300 ), mx = -mn;
  for( int k = 0; k < STEPS; ++k ) { for( size_t i = 0; i < sc.b.size(); ++i ) { mn = mn.cwiseMin( t.lo[k][i] ); mx = mx.cwiseMax( t.hi[k][i] ); } }
  mn.array() -= 1e-6; mx.array() += 1e-6;
  judge( sc, h, t, mn, mx, true );
  for( int a = 0; a < 6; ++a ) { V3 m = mn, x = mx; if( a < 3 ) { m( a ) += 2e-6; } else { x( a - 3 ) -= 2e-6; } judge( sc, h, t, m, x, true ); }
}

static Body shape( char kind, int rot )
{
  Body b; b.kind = kind; b.m = 1.5;
  if( kind == 'c' ) { b.dim = { { 0.5, 0.5, 0.5 } }; }
  else if( kind == 's' ) { b.dim = { { 0.9, 0.7, 0.1 } }; b.I3 = { { 0.5, 0.6, 0.7 } }; }
  else { b.dim = { { 0.75, 0.5, 0.25 } }; }
  b.I = 0.5;
  if( rot == 1 ) { b.rot = { { 0, 0, 0.6 } }; b.w = { { 0.3, 0, 0.5 } }; }
  if( rot == 2 ) { b.rot = { { 0.7, -0.4, 1.1 } }; b.w = { { 0, -0.4, 0.2 } }; }
  return b;
}

// Bodies that fly (or stand, if fixed) while the others stay well inside
static void flights()
{
  std::vector<How> hows = { { 0, 0 }, { 0, 1 }, { 0, 2 }, { 1, 1 }, { 1, 2 }, { 2, 1 }, { 2, 2 }, { 3, 1 }, { 3, 2 } };
  for( const How& h : hows ) { for( char kind : std::string( "cbms" ) ) { for( int rot = 0; rot < 3; ++rot ) { for( int subject = 0; subject < 3; ++subject ) { for( int axis = 0; axis < 3; ++axis ) { for( int side = -1; side <= 1; side += 2 ) { for( int fixed = 0; fixed < 2; ++fixed )
  {
    if( fixed && h.umap == 0 ) { continue; }
    if( !vp::thorough() && h.kind != 0 && ( ( rot + subject + axis ) % 3 != ( h.kind % 3 ) ) ) { continue; }
    vp::runCase( [&]{ return name( h ) + ", shape " + kind + " rotation " + std::to_string( rot ) + " as body " + std::to_string( subject ) + ( fixed ? " (fixed)" : "" ) + " through side " + ( side > 0 ? "+" : "-" ) + "xyz"[axis]; }, [&]
    {
      Scene sc; if( rot == 2 ) { sc.gravity = true; sc.g = vd( 0.2, -0.5, 0.1 ); }
      for( int i = 0; i < 3; ++i )
      {
        Body b = shape( 'c', rot ); b.dim[0] = 0.25; b.x = vd( 0.7 * i, 0.1, -0.6 * i ); b.v = vd( 0.1, 0, -0.1 * i );
        if( i == subject ) { b = shape( kind, rot ); b.x = vd( 4, 3, -5 ); b.v( axis ) = 1.5 * side; b.v( ( axis + 1 ) % 3 ) = 0.2; if( fixed ) { b.fixed = true; b.v = VD::Zero(); b.w = { { 0, 0, 0 } }; } }
        sc.b.push_back( b );
      }
      sweep( sc, h, subject, axis, side );
    } );
  } } } } } } }
}

// A body that is pushed out by another, or turned back by a wall or a fixed body before it leaves
static void collisions()
{
  for( int kind = 1; kind <= 3; ++kind ) { for( int um = 1; um < 3; ++um ) { for( int what = 0; what < 3; ++what ) { for( int order = 0; order < 2; ++order ) { for( int axis = 0; axis < 3; ++axis ) { for( int side = -1; side <= 1; side += 2 )
  {
    const How h{ kind, um };
    vp::runCase( [&]{ return name( h ) + ", " + ( what == 0 ? "pushed out" : what == 1 ? "turned back by a wall" : "turned back by a fixed ball" ) + ( order ? ", reversed" : "" ) + " at side " + ( side > 0 ? "+" : "-" ) + "xyz"[axis]; }, [&]
    {
      Scene sc; VD n = VD::Zero(); n( axis ) = side;
      Body a = shape( 'c', 0 ), b = a;
      if( what == 0 ) { a.x = n * 1.0; b.x = -n * 0.15 + n * 0.0; b.v = n * 1.5; b.m = 3.0; a.v = VD::Zero(); b.x( ( axis + 1 ) % 3 ) = 0.05; }
      if( what == 1 ) { a.x = VD::Zero(); a.v = n * 1.5; b.x = vd( 5, 5, 5 ); Plane p; p.x = n * 0.8; p.n = -n; sc.planes.push_back( p ); }
      if( what == 2 ) { a.x = VD::Zero(); a.v = n * 1.5; b.x = n * 1.35; b.fixed = true; }
      sc.b = { a, b }; if( order ) { std::swap( sc.b[0], sc.b[1] ); }
      sweep( sc, h, order, axis, side );
    } );
  } } } } } }
}

// Periodic boundaries: a body that comes back on the other side has not left
static void portals()
{
  for( int kind = 0; kind <= 3; ++kind ) { for( int um = 1; um < 3; ++um ) { for( int axis = 0; axis < 3; ++axis ) { for( int side = -1; side <= 1; side += 2 ) { for( int subject = 0; subject < 2; ++subject )
  {
    const How h{ kind, um };
    vp::runCase( [&]{ return name( h ) + ", body " + std::to_string( subject ) + " through a periodic boundary at side " + ( side > 0 ? "+" : "-" ) + "xyz"[axis]; }, [&]
    {
      Scene sc; VD n = VD::Zero(); n( axis ) = 1.0;
      Portal p; p.xa = -2.0 * n; p.na = n; p.xb = 2.0 * n; p.nb = -n; sc.portals.push_back( p );
      Body a = shape( 'c', 0 ); a.x = n * ( side * 1.7 ); a.v = n * ( side * 1.5 ); a.v( ( axis + 1 ) % 3 ) = 0.8;
      Body b = shape( 'c', 0 ); b.x = vd( 0.2, 0.1, 0 ); b.x( ( axis + 2 ) % 3 ) = 3.0;
      sc.b = { a, b }; if( subject ) { std::swap( sc.b[0], sc.b[1] ); }
      sweep( sc, h, subject, axis, side );
      sweep( sc, h, subject, ( axis + 1 ) % 3, 1 );
    } );
  } } } } }
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  flights();
  collisions();
  portals();
  return vp::finish();
}
