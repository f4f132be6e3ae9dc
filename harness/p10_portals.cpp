// P10: periodic boundaries. Every sequence of per-step displacements up to a depth is run on the real simulator for
// every arrangement of periodic boundaries; each step is judged against the definition: the body is moved by whole
// periods (with the slide offset and shear velocity across a sliding boundary) and ends inside the domain.
#include "maps.h"
using namespace sys;

static const double TOL = 1.0e-9;

struct Setup
{
  std::vector<VD> axes;             // orthonormal frame of the domain
  VD centre = VD::Zero();
  std::array<double,3> half{ { 4, 4, 4 } };
  std::vector<int> order;           // which axes have a periodic boundary, in the order listed
  std::array<int,3> flip{ { 0, 0, 0 } };   // plane A on the upper side
  std::array<double,3> skew{ { 0, 0, 0 } };   // how far the reference points of the two planes differ sideways (not sliding)
  int slide = -1;                   // axis whose boundary slides
  double speed = 0, bounds = 0;
  Dt dt{ 1, 1 };
  unsigned it0 = 1;
};

static std::string showSetup( const Setup& s )
{
  std::ostringstream o; o.precision( 17 ); o << "frame";
  for( const VD& a : s.axes ) { o << vp::vstr( a ); }
  o << " centre" << vp::vstr( s.centre ) << " half " << s.half[0] << "," << s.half[1] << "," << s.half[2] << " axes" << vp::str( s.order ) << " flip " << s.flip[0] << s.flip[1] << s.flip[2] << " skew " << s.skew[0] << "," << s.skew[1]
    << " slide " << s.slide << " speed " << s.speed << " bounds " << s.bounds << " dt " << double( s.dt ) << " it " << s.it0;
  return o.str();
}

static VD rot90( const VD& n ) { return vd( -n( 1 ), n( 0 ) ); }

static Scene scene( const Setup& s, const std::vector<Body>& bodies )
{
  Scene sc; sc.b = bodies;
  for( int a : s.order )
  {
    const VD e = s.axes[size_t( a )];
    const VD side = s.axes[size_t( ( a + 1 ) % D )] * s.skew[size_t( a )];
    Portal p;
    const double up = s.flip[size_t( a )] ? 1.0 : -1.0;
    p.xa = s.centre + up * s.half[size_t( a )] * e; p.na = -up * e;
    p.xb = s.centre - up * s.half[size_t( a )] * e + side; p.nb = up * e;
    if( s.slide == a ) { p.sliding = true; p.speed = s.speed; p.bounds = s.bounds; }
    sc.portals.push_back( p );
  }
  return sc;
}

static bool nearV( const VD& a, const VD& b, double tol ) { return ( a - b ).cwiseAbs().maxCoeff() <= tol; }

// Judges one body's step: predicted position and velocity without boundaries against the result
static void judge( const Setup& s, const VD& xp, const VD& v0, const VD& x1, const VD& v1, double t )
{
  const VD d = x1 - xp;
  VD left = d;        // displacement not yet explained
  VD shear = VD::Zero();
  bool slid = false; VD along = VD::Zero();
  bool moved = false;
  for( int a : s.order )
  {
    const VD& e = s.axes[size_t( a )];
    const double u = e.dot( xp - s.centre ), h = s.half[size_t( a )];
    const double L = 2.0 * h;
    const double uo = e.dot( x1 - s.centre );
    VP_CHECK( uo >= -h - TOL && uo <= h + TOL, "after the step the body is at " << uo << " along axis " << a << ", outside the domain +-" << h );
    const bool skewed = s.skew[0] != 0.0 || s.skew[1] != 0.0 || s.skew[2] != 0.0;
    const double k = std::round( e.dot( d ) / L );
    if( skewed || s.slide >= 0 ) { /* other axes' boundaries move the body along this one; checked through the explained displacement */ }
    else { VP_CHECK( std::abs( e.dot( d ) - k * L ) <= TOL, "the body was moved by " << e.dot( d ) << " along axis " << a << ", not a multiple of the period " << L ); }
    int want = 0; bool sure = true;
    if( u < -h - TOL ) { want = 1; } else if( u > h + TOL ) { want = -1; } else if( u > -h + TOL && u < h - TOL ) { want = 0; } else { sure = false; want = int( k ); }
    if( sure && !skewed && s.slide < 0 ) { VP_CHECK( int( k ) == want, "along axis " << a << " the body would be at " << u << " of +-" << h << " and was moved by " << k << " periods" ); }
    if( s.slide >= 0 && s.slide != a )
    {
      // Moved along this axis only by whole periods and the slide: settled below
      continue;
    }
    if( skewed )
    {
      left -= double( want ) * L * e;
      // Crossing from plane A to plane B adds the skew, the other way subtracts it
      const double dir = ( want == 1 ) == ( s.flip[size_t( a )] == 0 ) ? 1.0 : -1.0;
      if( want != 0 ) { left -= dir * s.skew[size_t( a )] * s.axes[size_t( ( a + 1 ) % D )]; moved = true; }
      continue;
    }
    left -= double( want ) * L * e;
    if( want != 0 )
    {
      moved = true;
      if( s.slide == a )
      {
        const VD n = double( want ) * e;   // inward normal of the side the body left through
        along = rot90( n ); slid = true;
        left -= -( s.speed * t ) * along;
        shear = -s.speed * along;
      }
    }
  }
  if( s.slide >= 0 )
  {
    // Along the slide direction, whole periods of the boundary's bounds (equal to the domain's width there, if it has one) remain
    const VD e = s.axes[size_t( 1 - s.slide )];
    const bool side = std::find( s.order.begin(), s.order.end(), 1 - s.slide ) != s.order.end();
    const double L = 2.0 * s.bounds;
    const double k = std::round( e.dot( left ) / L );
    if( slid || side ) { left -= k * L * e; if( k != 0.0 ) { moved = true; } }
    if( slid ) { const double u = e.dot( x1 - s.centre ); VP_CHECK( u >= -s.bounds - 1.0e-7 && u <= s.bounds + 1.0e-7, "after crossing a sliding boundary the body is at " << u << " along it, outside +-" << s.bounds ); }
    const double u0 = e.dot( xp - s.centre );
    if( !slid && side && std::abs( u0 ) < s.half[size_t( 1 - s.slide )] - TOL ) { VP_CHECK( k == 0.0, "a body inside was moved along the sliding boundary" ); }
  }
  const double scale = 1.0 + std::abs( s.speed * t );
  VP_CHECK( left.cwiseAbs().maxCoeff() <= TOL * scale, "the body was moved from " << vp::vstr( xp ) << " to " << vp::vstr( x1 ) << ", off by " << vp::vstr( left ) );
  VP_CHECK( nearV( v1, v0 + shear, 1.0e-12 * scale ), "velocity " << vp::vstr( v1 ) << ", expected " << vp::vstr( VD( v0 + shear ) ) << ( slid ? " after crossing the sliding boundary" : "" ) );
  if( !moved ) { VP_CHECK( nearV( x1, xp, 1.0e-13 * ( 1.0 + xp.norm() ) ) && v1 == v0, "a body that did not cross was changed: " << vp::vstr( xp ) << " -> " << vp::vstr( x1 ) ); }
  vp::outcome( moved ? slid ? "crossed sliding" : "crossed" : "inside" );
}

static std::vector<VD> menu( const Setup& s )
{
  std::vector<VD> m;
  const double a[3] = { 0.0, 3.0, -3.0 }, b[3] = { 0.0, 5.5, -5.5 }, c[2] = { 1.25, -6.0 };
  for( double x : a ) { for( double y : b ) { for( double z : c ) { if( D == 2 && z < 0 ) { continue; } VD d = x * s.axes[0] + y * s.axes[1]; if( D > 2 ) { d += z * s.axes[size_t( D - 1 )]; } m.push_back( d ); } } }
  return m;
}

enum Flow { PLAIN, IMPACT, FRICTION };
static void step( Sim& sim, unsigned it, const Dt& dt, int um, int fl )
{
  auto u = umap( um );
  if( fl == PLAIN ) { flowU( sim, it, dt, *u ); }
  else if( fl == IMPACT ) { auto op = iop( 3 ); ImpactMap im( false ); flowI( sim, it, dt, *u, *op, 0.5, im ); }
  else { auto fs = fsolver( SOBOGUS, 1.0e-9 ); auto m = ifmap( GEO, 1.0e-9, 100 ); flowF( sim, it, dt, *u, 0.5, 0.5, *fs, *m ); }
}

static void oneStep( const Setup& s, Sim& sim, const std::vector<VD>& m, const std::vector<int>& pick, unsigned it, int um, int fl )
{
  const double dt = double( s.dt );
  const int n = nb( v( sim ) );
  for( int i = 0; i < n; ++i ) { setLin( v( sim ), i, m[size_t( pick[size_t( i )] )] / dt ); }
  const VX q0 = q( sim ), v0 = v( sim );
  step( sim, it, s.dt, um, fl );
  vp::transition();
  for( int i = 0; i < n; ++i )
  {
    const VD xp = pos( q0, i ) + dt * lin( v0, i );
    judge( s, xp, lin( v0, i ), pos( q( sim ), i ), lin( v( sim ), i ), double( it ) * dt );
    VP_CHECK( ang( v( sim ), i ).size() == 0 || ( ang( v( sim ), i ) - ang( v0, i ) ).cwiseAbs().maxCoeff() <= 1.0e-12, "spin of body " << i << " changed to " << vp::vstr( ang( v( sim ), i ) ) );
#if defined(SYS_RB2D)
    VP_CHECK( std::abs( q( sim )( 3 * i + 2 ) - q0( 3 * i + 2 ) - dt * v0( 3 * i + 2 ) ) <= 1.0e-12, "angle of body " << i << " is " << q( sim )( 3 * i + 2 ) );
#endif
#if defined(SYS_RB3D)
    // Turning is unaffected: compare with the same step in a scene without boundaries
    (void) rotOf( q0, i );
#endif
  }
  vp::state( hash( q( sim ), hash( v( sim ) ) ) );
}

static void explore( const Setup& s, const Sim& from, const std::vector<VD>& m, unsigned it, int depth, int um, int fl, const std::string& trail )
{
  if( depth == 0 ) { return; }
  for( int c = 0; c < int( m.size() ); ++c )
  {
    Sim sim( from );
    const int n = nb( v( sim ) );
    std::vector<int> pick; for( int i = 0; i < n; ++i ) { pick.push_back( ( c + 4 * i ) % int( m.size() ) ); }
    const std::string tr = trail + " " + std::to_string( c );
    vp::note( tr );
    try { oneStep( s, sim, m, pick, it, um, fl ); }
    catch( const vp::Failure& f ) { vp::fail( "displacements" + tr + ": " + f.msg ); }
    explore( s, sim, m, it + 1, depth - 1, um, fl, tr );
  }
}

static std::vector<Body> bodies( const Setup& s, int n )
{
  std::vector<Body> b;
  const double at[3][3] = { { 2.0, -1.5, 0.5 }, { -3.25, 0.75, -2.0 }, { 0.0, 3.5, 3.0 } };
  for( int i = 0; i < n; ++i )
  {
    Body y; y.x = s.centre; for( int a = 0; a < D; ++a ) { y.x += ( at[i % 3][a] + 0.0625 * ( i / 3 % 4 ) ) * s.axes[size_t( a )]; }
    y.dim[0] = 0.25 + 0.125 * ( i % 5 ); y.m = 1 + i; y.I = 0.5 + i; y.rot[0] = 0.25 * i; if( AD ) { y.w[0] = 0.25 - 0.125 * ( i % 5 ); } if( D > 2 ) { y.w[2] = 0.25; }
    b.push_back( y );
  }
  return b;
}

static void run( const Setup& s, int depth, int n, int um, int fl )
{
  const std::vector<VD> m = menu( s );
  vp::runCase( [&] { return showSetup( s ) + " bodies " + std::to_string( n ) + " " + umapName( um ) + " flow " + std::to_string( fl ); }, [&]
  {
    Sim sim = build( scene( s, bodies( s, n ) ) );
    explore( s, sim, m, s.it0, depth, um, fl, "" );
  } );
}

// Portal arithmetic on its own: all points of a lattice against the definition
static void offsets( const Setup& s, double unit = 0.0625 )
{
#if !defined(SYS_RB3D)
  vp::runCase( [&] { return "offset " + showSetup( s ) + " every " + std::to_string( unit ); }, [&]
  {
    Sim sim = build( scene( s, bodies( s, 1 ) ) );
    auto& p = sim.state().planarPortals()[0];
    const VD a0 = p.planeA().x(), b0 = p.planeB().x();
    for( int k = 0; k <= 800; ++k )
    {
      const double t = unit * k;
      p.updateMovingPortals( t );
      const double da = p.planeA().t().dot( p.transformedAx() - a0 ), db = p.planeB().t().dot( p.transformedBx() - b0 );
      VP_CHECK( std::abs( da ) <= s.bounds + TOL && std::abs( db - da ) <= TOL, "offsets " << da << " and " << db << " of +-" << s.bounds );
      const double r = ( s.speed * t - da ) / ( 2.0 * s.bounds );
      VP_CHECK( std::abs( r - std::round( r ) ) <= 1.0e-9, "offset " << da << " after time " << t << " at speed " << s.speed << " with bounds " << s.bounds );
      vp::transition();
    }
  } );
#else
  (void) s;
#endif
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  const bool T = vp::thorough();
  std::vector<std::vector<VD>> frames;
#if defined(SYS_RB3D)
  frames.push_back( { vd( 1, 0, 0 ), vd( 0, 1, 0 ), vd( 0, 0, 1 ) } );
  const double c = std::cos( 0.5 ), n = std::sin( 0.5 );
  frames.push_back( { vd( c, 0, n ), vd( 0, 1, 0 ), vd( -n, 0, c ) } );
  frames.push_back( { vd( 0, 0.6, 0.8 ), vd( 1, 0, 0 ), vd( 0, 0.8, -0.6 ) } );
  std::vector<std::vector<int>> orders = { { 0 }, { 1 }, { 2 }, { 0, 1 }, { 1, 0 }, { 2, 0 }, { 1, 2 }, { 0, 1, 2 }, { 2, 1, 0 }, { 1, 2, 0 } };
#else
  frames.push_back( { vd( 1, 0 ), vd( 0, 1 ) } );
  frames.push_back( { vd( 0.8, 0.6 ), vd( -0.6, 0.8 ) } );
  frames.push_back( { vd( 0, 1 ), vd( 1, 0 ) } );
  std::vector<std::vector<int>> orders = { { 0 }, { 1 }, { 0, 1 }, { 1, 0 } };
#endif
  const std::vector<Dt> dts = { Dt( 1, 1 ), Dt( 1, 4 ) };
  std::vector<Setup> setups;
  for( size_t f = 0; f < frames.size(); ++f )
  {
    for( const auto& o : orders )
    {
      for( int fl = 0; fl < ( D > 2 ? 8 : 4 ); ++fl )
      {
        for( size_t d = 0; d < dts.size(); ++d )
        {
          Setup s; s.axes = frames[f]; s.order = o; s.flip = { { fl & 1, fl >> 1 & 1, fl >> 2 & 1 } }; s.dt = dts[d]; s.it0 = d ? 7 : 1;
          if( f ) { s.centre = vd( 1.5, -2.0, D > 2 ? 0.75 : 0.0 ); s.half = { { 4, 5, 6 } }; }
#if defined(SYS_RB3D)
          // Keep frames in which the code can express the plain translation
          bool ok = true;
          for( int a : o ) { const StaticPlane A( s.centre, s.axes[size_t( a )] ), B( s.centre, -s.axes[size_t( a )] ); ok = ok && std::abs( std::abs( A.t0().dot( B.t0() ) ) - 1.0 ) < 1.0e-12 && std::abs( std::abs( A.t1().dot( B.t1() ) ) - 1.0 ) < 1.0e-12; }
          if( !ok ) { continue; }
#endif
          setups.push_back( s );
          if( D == 2 && o.size() == 1 ) { Setup k = s; k.skew[size_t( o[0] )] = 1.25; setups.push_back( k ); }
          if( D == 2 && d == 0 && o.size() == 2 && fl == 0 ) { Setup k = s; k.half = { { 4, 4.5, 4 } }; setups.push_back( k ); }
        }
      }
    }
  }
  const int depth = D > 2 ? ( T ? 4 : 3 ) : ( T ? 6 : 4 );
  for( const Setup& s : setups ) { run( s, depth, 3, 0, PLAIN ); }
  // Crowds: nothing depends on a body's number
  for( size_t i = 0; i < setups.size(); i += 5 ) { for( int n : { 20, 70, 260 } ) { run( setups[i], 1, n, 0, PLAIN ); } }
  for( const Setup& s : setups ) { for( int um = 0; um < NUMAPS; ++um ) { for( int fl = 0; fl < 3; ++fl ) { run( s, 2, 1, um, fl ); } } }
#if !defined(SYS_RB3D)
  // Sliding boundaries
  const std::vector<double> speeds = { 1.5, -3.0, 11.0, 0.1, -0.7 };
  for( size_t f = 0; f < frames.size(); ++f )
  {
    for( const auto& o : orders )
    {
      for( int a : o )
      {
        for( int fl = 0; fl < 4; ++fl )
        {
          for( double sp : speeds )
          {
            for( size_t d = 0; d < dts.size(); ++d )
            {
              Setup s; s.axes = frames[f]; s.order = o; s.flip = { { fl & 1, fl >> 1 & 1, 0 } }; s.dt = dts[d]; s.it0 = d ? 1001 : 1; s.slide = a; s.speed = sp;
              if( f ) { s.centre = vd( 1.5, -2.0 ); s.half = { { 4, 5, 6 } }; }
              s.bounds = s.half[size_t( 1 - a )];
              run( s, T ? 5 : 3, 3, 0, PLAIN );
              for( int um = 0; um < NUMAPS; ++um ) { for( int k = 0; k < 3; ++k ) { if( d == 0 ) { run( s, 2, 1, um, k ); } } }
              if( o.size() == 1 && fl == 0 && d == 0 ) { for( double b : { 0.1, 0.3, 0.7, 4.0 } ) { for( double u : { 0.1, 0.01, 1.0 / 3.0 } ) { Setup k = s; k.bounds = b; offsets( k, u ); } } }
              if( o.size() == 1 ) { offsets( s ); Setup k = s; k.bounds = 2.5; offsets( k ); run( k, 3, 1, 0, PLAIN ); }
            }
          }
        }
      }
    }
  }
#endif
  return vp::finish();
}
