// P13: a scene file builds exactly the scene it describes, and a defective description is refused.
//
// Scene descriptions are trees of elements and attributes. A second, independent reading of the tree (facts())
// says what the simulator must hold after loading it. Enumerated: every combination of scene features and every
// contact scheme, every layout of the text; then for a rich scene per scheme every single fault: each entry removed
// or replaced by every defective spelling of its kind, each required element removed, the file cut off at every
// position, conflicting elements, and every assignment of plane numbers to periodic boundaries.
#include "maps.h"
#include <dirent.h>
#include <fstream>
#include "scisim/ConstrainedMaps/ImpactMaps/JacobiOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorQLVP.h"
#if defined(SYS_BALL2D)
#include "ball2dutils/Ball2DSceneParser.h"
#elif defined(SYS_RB2D)
#include "rigidbody2dutils/RigidBody2DSceneParser.h"
#include "rigidbody2dutils/CameraSettings2D.h"
#include "rigidbody2d/RigidBody2DState.h"
#include "rigidbody2d/CircleGeometry.h"
#include "rigidbody2d/BoxGeometry.h"
#include "rigidbody2d/PlanarPortal.h"
#include "rigidbody2d/NearEarthGravityForce.h"
#else
#include "rigidbody3dutils/RigidBody3DSceneParser.h"
#include "rigidbody3dutils/RenderingState.h"
#include "rigidbody3d/RigidBody3DState.h"
#include "rigidbody3d/Geometry/RigidBodySphere.h"
#include "rigidbody3d/Geometry/RigidBodyBox.h"
#include "rigidbody3d/Geometry/RigidBodyStaple.h"
#include "rigidbody3d/Forces/NearEarthGravityForce.h"
#endif
using namespace sys;
using std::string;

// The QLVP solver needs Fortran sources that are not part of the repository; it is only ever constructed here.
LCPOperatorQLVP::LCPOperatorQLVP( const scalar& tol ) : m_tol( tol ) {}
void LCPOperatorQLVP::flow( const std::vector<std::unique_ptr<Constraint>>&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, const VectorXs&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, VectorXs& ) { std::abort(); }
string LCPOperatorQLVP::name() const { return "lcp_ql_vp"; }
std::unique_ptr<ImpactOperator> LCPOperatorQLVP::clone() const { return std::unique_ptr<ImpactOperator>( new LCPOperatorQLVP( m_tol ) ); }
void LCPOperatorQLVP::serialize( std::ostream& s ) const { s.write( reinterpret_cast<const char*>( &m_tol ), sizeof m_tol ); }

// ---- descriptions ----
struct Attr { string name, value, kind; bool optional; };
struct Elem
{
  string name;
  std::vector<Attr> a;
  std::vector<Elem> kids;
  bool required = false;
  Elem( const string& n ) : name( n ) {}
  Elem& at( const string& n, const string& v, const string& kind, bool optional = false ) { a.push_back( Attr{ n, v, kind, optional } ); return *this; }
  Elem& kid( const Elem& e ) { kids.push_back( e ); kids.back().required = true; return *this; }
  Elem& must() { required = true; return *this; }
  const string& get( const string& n ) const { for( const Attr& x : a ) { if( x.name == n ) { return x.value; } } std::abort(); }
  bool has( const string& n ) const { for( const Attr& x : a ) { if( x.name == n ) { return true; } } return false; }
  const Elem& sub( const string& n ) const { for( const Elem& k : kids ) { if( k.name == n ) { return k; } } std::abort(); }
};
using Doc = std::vector<Elem>;
#if defined(SYS_BALL2D)
static const char* ROOT = "ball2d_scene";
#elif defined(SYS_RB2D)
static const char* ROOT = "rigidbody2d_scene";
#else
static const char* ROOT = "rigidbody3d_scene";
#endif

enum Layout { PLAIN, COMPACT, LINES, QUOTES, COMMENTS, ENDTAGS, CRLF, LAYOUTS };
static void text( const Elem& e, int layout, int depth, string& o )
{
  const string nl = layout == COMPACT ? "" : layout == CRLF ? "\r\n" : "\n";
  const string ind = layout == COMPACT ? "" : string( size_t( 2 * depth ), ' ' );
  o += ind + "<" + e.name;
  const char q = layout == QUOTES ? '\'' : '"';
  for( const Attr& a : e.a )
  {
    o += layout == LINES ? "\n" : layout == QUOTES ? "\t" : " ";
    o += a.name;
    o += layout == QUOTES ? " = " : "=";
    o += q + a.value + q;
  }
  if( layout == LINES ) { o += "\n"; }
  if( e.kids.empty() && layout != ENDTAGS ) { o += "/>" + nl; return; }
  o += ">" + nl;
  for( const Elem& k : e.kids ) { text( k, layout, depth + 1, o ); }
  o += ind + "</" + e.name + ">" + nl;
  if( layout == COMMENTS ) { o += ind + "<!-- a remark about <" + e.name + "> \n over two lines -->" + nl; }
}
static string text( const Doc& d, int layout )
{
  string o;
  if( layout == COMMENTS ) { o += "<?xml version=\"1.0\"?>\n<!-- heading -->\n"; }
  o += string( "<" ) + ROOT + ">" + ( layout == COMPACT ? "" : "\n" );
  for( const Elem& e : d ) { text( e, layout, 1, o ); }
  return o + "</" + ROOT + ">\n";
}

// ---- what was loaded, and what should have been ----
struct Facts
{
  std::vector<std::pair<string,string>> s;
  std::vector<std::pair<string,std::vector<double>>> n;
  void str( const string& k, const string& v ) { s.emplace_back( k, v ); }
  void num( const string& k, const std::vector<double>& v ) { n.emplace_back( k, v ); }
  template<typename V> void vec( const string& k, const V& v ) { std::vector<double> x; for( int i = 0; i < int( v.size() ); ++i ) { x.push_back( v( i ) ); } num( k, x ); }
};
static string hex( const string& b ) { string r; for( unsigned char c : b ) { char t[3]; std::snprintf( t, 3, "%02x", c ); r += t; } return r; }
template<typename T> static string bytes( const T& t ) { std::ostringstream o; t.serialize( o ); return hex( o.str() ); }
static void compare( const Facts& got, const Facts& want )
{
  VP_CHECK( got.s.size() == want.s.size() && got.n.size() == want.n.size(), "the loaded scene has " << got.s.size() << "+" << got.n.size() << " settings instead of " << want.s.size() << "+" << want.n.size() );
  for( size_t i = 0; i < want.s.size(); ++i )
  {
    VP_CHECK( got.s[i].first == want.s[i].first && got.s[i].second == want.s[i].second, want.s[i].first << " is " << got.s[i].first << " '" << got.s[i].second << "' instead of '" << want.s[i].second << "'" );
  }
  for( size_t i = 0; i < want.n.size(); ++i )
  {
    const std::vector<double>& a = got.n[i].second; const std::vector<double>& b = want.n[i].second;
    bool ok = got.n[i].first == want.n[i].first && a.size() == b.size();
    for( size_t k = 0; ok && k < a.size(); ++k ) { ok = a[k] == b[k] || ( std::isnan( a[k] ) && std::isnan( b[k] ) ) || std::fabs( a[k] - b[k] ) <= 1e-12 * ( 1.0 + std::fabs( b[k] ) ); }
    VP_CHECK( ok, want.n[i].first << " is " << got.n[i].first << " " << vp::str( a ) << " instead of " << vp::str( b ) );
  }
}

static double num( const string& s ) { return std::strtod( s.c_str(), nullptr ); }
static VX nums( const string& s ) { std::vector<double> v; const char* p = s.c_str(); char* e; for( ;; ) { const double x = std::strtod( p, &e ); if( e == p ) { break; } v.push_back( x ); p = e; } return Eigen::Map<VX>( v.data(), int( v.size() ) ); }
static VD vdOf( const string& s ) { const VX x = nums( s ); if( x.size() != D ) { std::abort(); } return x; }
static std::vector<const Elem*> all( const Doc& d, const string& name ) { std::vector<const Elem*> r; for( const Elem& e : d ) { if( e.name == name ) { r.push_back( &e ); } } return r; }
static const Elem* one( const Doc& d, const string& name ) { const auto r = all( d, name ); return r.empty() ? nullptr : r[0]; }

static std::unique_ptr<ImpactOperator> wantSolver( const Elem& e )
{
  const string n = e.get( "name" );
  if( n == "apgd" ) { return std::unique_ptr<ImpactOperator>( new LCPOperatorAPGD( num( e.get( "tol" ) ), unsigned( num( e.get( "max_iters" ) ) ) ) ); }
  if( n == "ql" ) { return std::unique_ptr<ImpactOperator>( new LCPOperatorQL( num( e.get( "tol" ) ) ) ); }
  return std::unique_ptr<ImpactOperator>( new LCPOperatorQLVP( num( e.get( "tol" ) ) ) );
}
static std::unique_ptr<ImpactOperator> wantOperator( const Elem& e )
{
  const string t = e.get( "type" );
  if( t == "gauss_seidel" ) { return std::unique_ptr<ImpactOperator>( new GaussSeidelOperator( num( e.get( "v_tol" ) ) ) ); }
  if( t == "jacobi" ) { return std::unique_ptr<ImpactOperator>( new JacobiOperator( num( e.get( "v_tol" ) ) ) ); }
  if( t == "lcp" ) { return wantSolver( e.sub( "solver" ) ); }
  if( t == "gr" ) { const auto s = wantSolver( e.sub( "solver" ) ); return std::unique_ptr<ImpactOperator>( new GROperator( num( e.get( "v_tol" ) ), *s ) ); }
  const auto el = wantOperator( e.sub( "elastic_operator" ) ), in = wantOperator( e.sub( "inelastic_operator" ) );
  return std::unique_ptr<ImpactOperator>( new GRROperator( *el, *in ) );
}
static string opFact( const ImpactOperator* o ) { return o ? o->name() + ":" + bytes( *o ) : "none"; }

struct Loaded
{
  string script, dts;
#if defined(SYS_BALL2D)
  Ball2DState state;
  bool cam = false; Eigen::Vector2d cc = Eigen::Vector2d( -77, -78 ); double cs = -79; unsigned fps = 0; bool rfps = false, lock = false;
#elif defined(SYS_RB2D)
  RigidBody2DState state;
  CameraSettings2D cam;
#else
  RigidBody3DState state;
  RenderingState ren;
#endif
  std::unique_ptr<UnconstrainedMap> umap;
  Rational<std::intmax_t> dt;
  scalar end = -1, CoR = -1, mu = -1;
  std::unique_ptr<ImpactOperator> op;
  std::unique_ptr<ImpactMap> imap;
  std::unique_ptr<FrictionSolver> fs;
  std::unique_ptr<ImpactFrictionMap> ifm;
};
static bool load( const string& file, Loaded& l, bool with_camera = true )
{
#if defined(SYS_BALL2D)
  if( !with_camera ) { return Ball2DSceneParser::parseXMLSceneFile( file, l.script, l.state, l.umap, l.dts, l.dt, l.end, l.op, l.imap, l.CoR, l.fs, l.mu, l.ifm ); }
  return Ball2DSceneParser::parseXMLSceneFile( file, l.script, l.state, l.umap, l.dts, l.dt, l.end, l.op, l.imap, l.CoR, l.fs, l.mu, l.ifm, l.cam, l.cc, l.cs, l.fps, l.rfps, l.lock );
#elif defined(SYS_RB2D)
  return RigidBody2DSceneParser::parseXMLSceneFile( file, l.script, l.state, l.umap, l.dts, l.dt, l.end, l.op, l.imap, l.CoR, l.fs, l.mu, l.ifm, l.cam );
#else
  return RigidBody3DSceneParser::parseXMLSceneFile( file, l.script, l.state, l.umap, l.dts, l.dt, l.end, l.op, l.CoR, l.fs, l.mu, l.ifm, l.ren );
#endif
}

static void common( const Loaded& l, Facts& f )
{
  f.str( "scripting callback", l.script );
  f.str( "integrator", l.umap ? l.umap->name() : "none" );
  f.str( "time step text", l.dts );
  f.num( "time step", { double( l.dt.numerator() ), double( l.dt.denominator() ) } );
  f.num( "end time", { l.end } );
  f.str( "impact operator", opFact( l.op.get() ) );
  f.str( "impact map", l.imap ? bytes( *l.imap ) : "none" );
  f.num( "restitution", { l.CoR } );
  f.str( "friction solver", l.fs ? l.fs->name() + ":" + bytes( *l.fs ) : "none" );
  f.num( "friction coefficient", { l.mu } );
  f.str( "friction map", l.ifm ? l.ifm->name() + ":" + bytes( *l.ifm ) : "none" );
}
static std::vector<double> ratOf( const string& s )
{
  const size_t sl = s.find( '/' ), dot = s.find( '.' );
  long n, d = 1;
  if( sl != string::npos ) { n = std::atol( s.c_str() ); d = std::atol( s.c_str() + sl + 1 ); }
  else if( dot != string::npos ) { string t = s; t.erase( dot, 1 ); n = std::atol( t.c_str() ); for( size_t i = dot + 1; i < s.size(); ++i ) { d *= 10; } }
  else { n = std::atol( s.c_str() ); }
  long a = std::labs( n ), b = d; while( b ) { const long t = a % b; a = b; b = t; }
  return { double( n / a ), double( d / a ) };
}
static string integratorName( const string& t )
{
#if defined(SYS_BALL2D) || defined(SYS_RB2D)
  return t == "verlet" ? VerletMap().name() : SymplecticEulerMap().name();
#else
  return t == "split_ham" ? SplitHamMap().name() : t == "dmv" ? DMVMap().name() : ExponentialEulerMap().name();
#endif
}
static void wantCommon( const Doc& d, Facts& f )
{
  const Elem* e;
  f.str( "scripting callback", ( e = one( d, "scripting" ) ) ? e->get( "callback" ) : "" );
  e = one( d, "integrator" );
  f.str( "integrator", e ? integratorName( e->get( "type" ) ) : "none" );
  f.str( "time step text", e ? e->get( "dt" ) : "0" );
  f.num( "time step", e ? ratOf( e->get( "dt" ) ) : std::vector<double>{ 0, 1 } );
  f.num( "end time", { ( e = one( d, "end_time" ) ) ? num( e->get( "t" ) ) : std::numeric_limits<double>::infinity() } );
  e = one( d, "impact_operator" );
  double CoR = SCALAR_NAN, mu = SCALAR_NAN;
  string fs = "none", ifm = "none", im = "none";
  if( e )
  {
    CoR = num( e->get( "CoR" ) );
#ifndef SYS_RB3D
    im = bytes( ImpactMap( e->get( "cache_impulses" ) == "1" ) );
#endif
  }
  f.str( "impact operator", e ? opFact( wantOperator( *e ).get() ) : "none" );
  f.str( "impact map", im );
  const Elem* sp = one( d, "staggered_projections_friction_solver" );
  const Elem* so = one( d, "sobogus_friction_solver" );
  if( sp || so )
  {
    const Elem& x = sp ? *sp : *so;
    CoR = num( x.get( "CoR" ) ); mu = num( x.get( "mu" ) );
    const double tol = num( x.get( "tol" ) ); const unsigned mi = unsigned( num( x.get( "max_iters" ) ) );
    if( sp )
    {
      const auto lcp = wantSolver( x.sub( "lcp_impact_solver" ) );
      const StaggeredProjections s( x.get( "internal_warm_start_alpha" ) == "1", x.get( "internal_warm_start_beta" ) == "1", *lcp, BoundConstrainedMDPOperatorQL( num( x.sub( "mdp_friction_solver" ).get( "tol" ) ) ) );
      fs = s.name() + ":" + bytes( s );
    }
    else { const Sobogus s( SBT, unsigned( num( x.get( "eval_every" ) ) ) ); fs = s.name() + ":" + bytes( s ); }
    ImpulsesToCache c = ImpulsesToCache::NONE;
    if( x.has( "cache_impulses" ) ) { const string v = x.get( "cache_impulses" ); c = v == "none" ? ImpulsesToCache::NONE : v == "normal" ? ImpulsesToCache::NORMAL : ImpulsesToCache::NORMAL_AND_FRICTION; }
    const string st = x.get( "staggering" );
    std::unique_ptr<ImpactFrictionMap> m;
    if( st == "geometric" ) { m.reset( new GeometricImpactFrictionMap( tol, mi, c ) ); }
    else if( st == "stabilized" ) { m.reset( new StabilizedImpactFrictionMap( tol, mi, false, false ) ); }
    else { m.reset( new SymplecticEulerImpactFrictionMap( tol, mi, c, x.get( "stabilization" ) == "1", num( x.get( "penetration_threshold" ) ) ) ); }
    ifm = m->name() + ":" + bytes( *m );
  }
  f.num( "restitution", { CoR } );
  f.str( "friction solver", fs );
  f.num( "friction coefficient", { mu } );
  f.str( "friction map", ifm );
}

struct WantPlanes
{
  std::vector<std::pair<VD,VD>> kept, portals;      // portals: consecutive pairs
  std::vector<const Elem*> portal_elems;
  std::vector<int> renumber;                        // -1: became part of a periodic boundary
  explicit WantPlanes( const Doc& d )
  {
    std::vector<std::pair<VD,VD>> p;
    for( const Elem* e : all( d, "static_plane" ) ) { const VD n = vdOf( e->get( "n" ) ); p.emplace_back( vdOf( e->get( "x" ) ), n / n.norm() ); }
    std::set<int> used;
    for( const char* k : { "planar_portal", "lees_edwards_portal" } )
    {
      for( const Elem* e : all( d, k ) )
      {
        portal_elems.push_back( e );
        for( const char* s : { "planeA", "planeB" } ) { const int i = int( num( e->get( s ) ) ); portals.push_back( p[size_t( i )] ); used.insert( i ); }
      }
    }
    for( int i = 0; i < int( p.size() ); ++i ) { if( used.count( i ) ) { renumber.push_back( -1 ); } else { renumber.push_back( int( kept.size() ) ); kept.push_back( p[size_t( i )] ); } }
  }
};

#if defined(SYS_BALL2D)
static Facts got( Loaded& l, bool with_camera )
{
  Facts f; common( l, f );
  Ball2DState& s = l.state;
  f.num( "balls", { double( s.r().size() ) } );
  f.vec( "positions", s.q() ); f.vec( "velocities", s.v() ); f.vec( "radii", s.r() );
  std::vector<double> m, fx; for( int i = 0; i < s.M().rows(); ++i ) { m.push_back( s.M().coeff( i, i ) ); } for( bool b : s.fixed() ) { fx.push_back( b ); }
  f.num( "masses", m ); f.num( "fixed", fx );
  for( const StaticDrum& d : s.staticDrums() ) { f.vec( "drum centre", d.x() ); f.num( "drum radius", { d.r() } ); }
  for( const StaticPlane& p : s.staticPlanes() ) { f.vec( "plane point", p.x() ); f.vec( "plane normal", p.n() ); f.vec( "plane velocity", p.v() ); }
  for( const PlanarPortal& p : s.planarPortals() ) { f.vec( "portal A point", p.planeA().x() ); f.vec( "portal A normal", p.planeA().n() ); f.vec( "portal B point", p.planeB().x() ); f.vec( "portal B normal", p.planeB().n() ); f.str( "portal", bytes( p ) ); }
  for( const auto& x : s.forces() ) { f.str( "force", bytes( *x ) ); }
  if( with_camera ) { f.num( "camera", l.cam ? std::vector<double>{ l.cc.x(), l.cc.y(), l.cs, double( l.fps ), double( l.rfps ), double( l.lock ) } : std::vector<double>{} ); }
  return f;
}
static Facts want( const Doc& d, bool with_camera )
{
  Facts f; wantCommon( d, f );
  const auto b = all( d, "ball" );
  std::vector<double> q, v, r, m, fx;
  for( const Elem* e : b )
  {
    q.push_back( num( e->get( "x" ) ) ); q.push_back( num( e->get( "y" ) ) ); v.push_back( num( e->get( "vx" ) ) ); v.push_back( num( e->get( "vy" ) ) );
    r.push_back( num( e->get( "r" ) ) ); m.push_back( num( e->get( "m" ) ) ); m.push_back( num( e->get( "m" ) ) ); fx.push_back( num( e->get( "fixed" ) ) );
  }
  f.num( "balls", { double( b.size() ) } ); f.num( "positions", q ); f.num( "velocities", v ); f.num( "radii", r ); f.num( "masses", m ); f.num( "fixed", fx );
  for( const Elem* e : all( d, "static_drum" ) ) { f.num( "drum centre", { num( e->get( "x" ) ), num( e->get( "y" ) ) } ); f.num( "drum radius", { num( e->get( "r" ) ) } ); }
  const WantPlanes w( d );
  for( const auto& p : w.kept ) { f.vec( "plane point", p.first ); f.vec( "plane normal", p.second ); f.num( "plane velocity", { 0, 0 } ); }
  for( size_t i = 0; i < w.portal_elems.size(); ++i )
  {
    const auto& A = w.portals[2 * i]; const auto& B = w.portals[2 * i + 1]; const Elem& e = *w.portal_elems[i];
    f.vec( "portal A point", A.first ); f.vec( "portal A normal", A.second ); f.vec( "portal B point", B.first ); f.vec( "portal B normal", B.second );
    f.str( "portal", bytes( PlanarPortal( StaticPlane( A.first, A.second ), StaticPlane( B.first, B.second ), e.has( "v" ) ? num( e.get( "v" ) ) : 0.0, e.has( "bounds" ) ? num( e.get( "bounds" ) ) : 0.0 ) ) );
  }
  for( const Elem* e : all( d, "gravity" ) ) { f.str( "force", bytes( Ball2DGravityForce( Vector2s( num( e->get( "fx" ) ), num( e->get( "fy" ) ) ) ) ) ); }
  for( const Elem* e : all( d, "penalty" ) ) { f.str( "force", bytes( PenaltyForce( num( e->get( "stiffness" ) ), num( e->get( "potential_power" ) ) ) ) ); }
  if( with_camera )
  {
    const Elem* e = one( d, "camera" );
    f.num( "camera", e ? std::vector<double>{ num( e->get( "cx" ) ), num( e->get( "cy" ) ), num( e->get( "scale_factor" ) ), num( e->get( "fps" ) ), num( e->get( "render_at_fps" ) ), num( e->get( "locked" ) ) } : std::vector<double>{} );
  }
  return f;
}
#elif defined(SYS_RB2D)
static Facts got( Loaded& l, bool )
{
  Facts f; common( l, f );
  const RigidBody2DState& s = l.state;
  f.num( "bodies", { double( s.nbodies() ) } );
  f.vec( "configuration", s.q() ); f.vec( "velocities", s.v() );
  std::vector<double> m, fx, gi; for( int i = 0; i < s.M().rows(); ++i ) { m.push_back( s.M().coeff( i, i ) ); }
  for( unsigned i = 0; i < s.nbodies(); ++i ) { fx.push_back( s.fixed( int( i ) ) ); gi.push_back( s.geometryIndex( i ) ); }
  f.num( "masses and moments", m ); f.num( "fixed", fx ); f.num( "shape numbers", gi );
  for( const auto& g : s.geometry() )
  {
    if( const CircleGeometry* c = dynamic_cast<const CircleGeometry*>( g.get() ) ) { f.str( "shape", "circle" ); f.num( "dimensions", { c->r() } ); }
    else { const BoxGeometry& b = dynamic_cast<const BoxGeometry&>( *g ); f.str( "shape", "box" ); f.vec( "dimensions", b.r() ); }
  }
  for( const RigidBody2DStaticPlane& p : s.planes() ) { f.vec( "plane point", p.x() ); f.vec( "plane normal", p.n() ); f.vec( "plane velocity", p.v() ); f.num( "plane spin", { p.omega() } ); }
  for( const PlanarPortal& p : s.planarPortals() ) { f.vec( "portal A point", p.planeA().x() ); f.vec( "portal A normal", p.planeA().n() ); f.vec( "portal B point", p.planeB().x() ); f.vec( "portal B normal", p.planeB().n() ); f.num( "portal motion", { p.v(), p.bounds(), p.delta() } ); }
  for( const auto& x : s.forces() ) { f.str( "force", bytes( *x ) ); }
  const CameraSettings2D& c = l.cam;
  f.num( "camera", c.set ? std::vector<double>{ c.center.x(), c.center.y(), c.scale, double( c.fps ), double( c.render_at_fps ), double( c.locked ) } : std::vector<double>{} );
  return f;
}
static Facts want( const Doc& d, bool )
{
  Facts f; wantCommon( d, f );
  const auto b = all( d, "rigid_body" ); const auto g = all( d, "geometry" );
  f.num( "bodies", { double( b.size() ) } );
  std::vector<double> q, v, m, fx, gi;
  for( const Elem* e : b )
  {
    const VD x = vdOf( e->get( "x" ) ), u = vdOf( e->get( "v" ) );
    q.insert( q.end(), { x( 0 ), x( 1 ), num( e->get( "theta" ) ) } ); v.insert( v.end(), { u( 0 ), u( 1 ), num( e->get( "omega" ) ) } );
    const int k = int( num( e->get( "geo_idx" ) ) ); gi.push_back( k ); fx.push_back( e->has( "fixed" ) ? num( e->get( "fixed" ) ) : 0.0 );
    const double rho = num( e->get( "rho" ) );
    double mass, I;
    if( g[size_t( k )]->get( "type" ) == "circle" ) { const double r = num( g[size_t( k )]->get( "r" ) ); mass = rho * M_PI * r * r; I = 0.5 * mass * r * r; }
    else { const VD r = vdOf( g[size_t( k )]->get( "r" ) ); mass = 4.0 * rho * r( 0 ) * r( 1 ); I = mass * r.squaredNorm() / 3.0; }
    m.insert( m.end(), { mass, mass, I } );
  }
  f.num( "configuration", q ); f.num( "velocities", v ); f.num( "masses and moments", m ); f.num( "fixed", fx ); f.num( "shape numbers", gi );
  for( const Elem* e : g ) { f.str( "shape", e->get( "type" ) ); f.vec( "dimensions", nums( e->get( "r" ) ) ); }
  const WantPlanes w( d );
  for( const auto& p : w.kept ) { f.vec( "plane point", p.first ); f.vec( "plane normal", p.second ); f.num( "plane velocity", { 0, 0 } ); f.num( "plane spin", { 0 } ); }
  for( size_t i = 0; i < w.portal_elems.size(); ++i )
  {
    const auto& A = w.portals[2 * i]; const auto& B = w.portals[2 * i + 1]; const Elem& e = *w.portal_elems[i];
    f.vec( "portal A point", A.first ); f.vec( "portal A normal", A.second ); f.vec( "portal B point", B.first ); f.vec( "portal B normal", B.second );
    f.num( "portal motion", { e.has( "v" ) ? num( e.get( "v" ) ) : 0.0, e.has( "bounds" ) ? num( e.get( "bounds" ) ) : 0.0, 0.0 } );
  }
  for( const Elem* e : all( d, "near_earth_gravity" ) ) { f.str( "force", bytes( NearEarthGravityForce( vdOf( e->get( "f" ) ) ) ) ); }
  const Elem* e = one( d, "camera" );
  std::vector<double> c;
  if( e ) { const VD x = vdOf( e->get( "center" ) ); c = { x( 0 ), x( 1 ), num( e->get( "scale" ) ), num( e->get( "fps" ) ), num( e->get( "render_at_fps" ) ), num( e->get( "locked" ) ) }; }
  f.num( "camera", c );
  return f;
}
#else
static Facts got( Loaded& l, bool )
{
  Facts f; common( l, f );
  const RigidBody3DState& s = l.state;
  f.num( "bodies", { double( s.nbodies() ) } );
  f.vec( "configuration", s.q() ); f.vec( "velocities", s.v() );
  std::vector<double> m, fx, gi; for( int i = 0; i < s.M0().rows(); ++i ) { m.push_back( s.M0().coeff( i, i ) ); }
  for( unsigned i = 0; i < s.nbodies(); ++i ) { fx.push_back( s.isKinematicallyScripted( i ) ); gi.push_back( s.getGeometryIndexOfBody( i ) ); }
  f.num( "masses and moments", m ); f.num( "fixed", fx ); f.num( "shape numbers", gi );
  for( const auto& g : s.geometry() )
  {
    if( const RigidBodySphere* c = dynamic_cast<const RigidBodySphere*>( g.get() ) ) { f.str( "shape", "sphere" ); f.num( "dimensions", { c->r() } ); }
    else if( const RigidBodyBox* b = dynamic_cast<const RigidBodyBox*>( g.get() ) ) { f.str( "shape", "box" ); f.vec( "dimensions", b->halfWidths() ); }
    else { const RigidBodyStaple& t = dynamic_cast<const RigidBodyStaple&>( *g ); f.str( "shape", "staple" ); f.num( "dimensions", { t.r() } ); for( const Vector3s& p : t.points() ) { f.vec( "corner", p ); } }
  }
  for( const StaticPlane& p : s.staticPlanes() ) { f.vec( "plane point", p.x() ); f.vec( "plane normal", p.n() ); f.vec( "plane velocity", p.v() ); f.vec( "plane spin", p.omega() ); }
  for( const StaticCylinder& c : s.staticCylinders() ) { f.vec( "cylinder point", c.x() ); f.vec( "cylinder axis", c.axis() ); f.num( "cylinder radius", { c.r() } ); f.vec( "cylinder velocity", c.v() ); f.vec( "cylinder spin", c.omega() ); }
  for( unsigned i = 0; i < s.numPlanarPortals(); ++i ) { const PlanarPortal& p = s.planarPortal( i ); f.vec( "portal A point", p.planeA().x() ); f.vec( "portal A normal", p.planeA().n() ); f.vec( "portal B point", p.planeB().x() ); f.vec( "portal B normal", p.planeB().n() ); f.str( "portal", bytes( p ) ); }
  for( const auto& x : s.forces() ) { f.str( "force", x->name() + ":" + bytes( *x ) ); }
  const bool ex = s.boundaryBehavior() == SimBoundaryBehavior::EXIT;
  f.num( "boundary", { double( ex ) } );
  f.vec( "boundary minimum", s.boundaryMin() ); f.vec( "boundary maximum", s.boundaryMax() );
  const RenderingState& r = l.ren;
  for( unsigned i = 0; i < r.numPlaneRenderers(); ++i ) { f.num( "plane renderer", { double( r.planeRenderer( i ).index() ), r.planeRenderer( i ).r()( 0 ), r.planeRenderer( i ).r()( 1 ) } ); }
  for( unsigned i = 0; i < r.numCylinderRenderers(); ++i ) { f.num( "cylinder renderer", { double( r.cylinderRenderer( i ).index() ), r.cylinderRenderer( i ).L() } ); }
  for( unsigned i = 0; i < r.numPlanarPortalRenderers(); ++i ) { const auto& p = r.portalRenderer( i ); f.num( "portal renderer", { double( p.portalIndex() ), p.halfWidth0()( 0 ), p.halfWidth0()( 1 ), p.halfWidth1()( 0 ), p.halfWidth1()( 1 ) } ); }
  if( r.perspectiveCameraSelected() ) { f.num( "perspective camera", { r.cameraTheta(), r.cameraPhi(), r.cameraRho(), r.cameraLookAt()( 0 ), r.cameraLookAt()( 1 ), r.cameraLookAt()( 2 ), r.cameraUp()( 0 ), r.cameraUp()( 1 ), r.cameraUp()( 2 ), double( r.FPS() ), double( r.renderAtFPS() ), double( r.locked() ) } ); }
  if( r.orthographicCameraSelected() ) { f.str( "projection", r.orthographicProjectionPlane() ); f.num( "orthographic camera", { r.orthographicX()( 0 ), r.orthographicX()( 1 ), r.orthographicX()( 2 ), r.orthographicScale(), double( r.FPS() ), double( r.renderAtFPS() ), double( r.locked() ) } ); }
  return f;
}
static Matrix33sr turn( const VX& w )
{
  const double t = w.norm();
  if( t == 0.0 ) { return Matrix33sr::Identity(); }
  const Vector3s k = w / t;
  Matrix33sr K; K << 0, -k( 2 ), k( 1 ), k( 2 ), 0, -k( 0 ), -k( 1 ), k( 0 ), 0;
  return Matrix33sr::Identity() + std::sin( t ) * K + ( 1.0 - std::cos( t ) ) * K * K;
}
static std::unique_ptr<RigidBodyGeometry> shapeOf( const Elem& e )
{
  const string t = e.get( "type" );
  if( t == "sphere" ) { return std::unique_ptr<RigidBodyGeometry>( new RigidBodySphere( num( e.get( "r" ) ) ) ); }
  if( t == "box" ) { return std::unique_ptr<RigidBodyGeometry>( new RigidBodyBox( vdOf( e.get( "r" ) ) ) ); }
  return std::unique_ptr<RigidBodyGeometry>( new RigidBodyStaple( num( e.get( "w" ) ), num( e.get( "l" ) ), num( e.get( "D" ) ) ) );
}
static Facts want( const Doc& d, bool )
{
  Facts f; wantCommon( d, f );
  const auto b = all( d, "rigid_body_with_density" ); const auto g = all( d, "geometry" );
  const int n = int( b.size() );
  f.num( "bodies", { double( n ) } );
  VX q( 12 * n ), v( 6 * n ), m( 6 * n ); std::vector<double> fx, gi;
  for( int i = 0; i < n; ++i )
  {
    const Elem& e = *b[size_t( i )];
    int k = int( num( e.get( "geo_idx" ) ) ); if( k < 0 ) { k += int( g.size() ); }
    gi.push_back( k ); fx.push_back( num( e.get( "fixed" ) ) );
    double M; Vector3s CM, I; Matrix33sr R;
    shapeOf( *g[size_t( k )] )->computeMassAndInertia( num( e.get( "rho" ) ), M, CM, I, R );
    if( g[size_t( k )]->get( "type" ) == "sphere" ) { const double r = num( g[size_t( k )]->get( "r" ) ); M = num( e.get( "rho" ) ) * 4.0 * M_PI * r * r * r / 3.0; I.setConstant( 0.4 * M * r * r ); }
    q.segment<3>( 3 * i ) = vdOf( e.get( "x" ) ) + CM;
    const Matrix33sr R0 = ( e.has( "R" ) ? turn( nums( e.get( "R" ) ) ) : Matrix33sr( Matrix33sr::Identity() ) ) * R;
    q.segment<9>( 3 * n + 9 * i ) = Eigen::Map<const Eigen::Matrix<double,9,1>>( R0.data() );
    v.segment<3>( 3 * i ) = vdOf( e.get( "v" ) ); v.segment<3>( 3 * n + 3 * i ) = vdOf( e.get( "omega" ) );
    m.segment<3>( 3 * i ).setConstant( M ); m.segment<3>( 3 * n + 3 * i ) = I;
  }
  f.vec( "configuration", q ); f.vec( "velocities", v ); f.vec( "masses and moments", m ); f.num( "fixed", fx ); f.num( "shape numbers", gi );
  for( const Elem* e : g )
  {
    f.str( "shape", e->get( "type" ) );
    if( e->get( "type" ) == "staple" ) { const RigidBodyStaple t( num( e->get( "w" ) ), num( e->get( "l" ) ), num( e->get( "D" ) ) ); f.num( "dimensions", { 0.5 * num( e->get( "D" ) ) } ); for( const Vector3s& p : t.points() ) { f.vec( "corner", p ); } }
    else { f.vec( "dimensions", nums( e->get( "r" ) ) ); }
  }
  const WantPlanes w( d );
  const Vector3s Z = Vector3s::Zero();
  for( const auto& p : w.kept ) { f.vec( "plane point", p.first ); f.vec( "plane normal", p.second ); f.vec( "plane velocity", Z ); f.vec( "plane spin", Z ); }
  for( const Elem* e : all( d, "static_cylinder" ) ) { const Vector3s ax = vdOf( e->get( "axis" ) ); f.vec( "cylinder point", vdOf( e->get( "x" ) ) ); f.vec( "cylinder axis", VD( ax / ax.norm() ) ); f.num( "cylinder radius", { num( e->get( "R" ) ) } ); f.vec( "cylinder velocity", Z ); f.vec( "cylinder spin", Z ); }
  for( size_t i = 0; i < w.portal_elems.size(); ++i )
  {
    const auto& A = w.portals[2 * i]; const auto& B = w.portals[2 * i + 1]; const VX mu = nums( w.portal_elems[i]->get( "multiplier" ) );
    f.vec( "portal A point", A.first ); f.vec( "portal A normal", A.second ); f.vec( "portal B point", B.first ); f.vec( "portal B normal", B.second );
    f.str( "portal", bytes( PlanarPortal( StaticPlane( A.first, A.second ), StaticPlane( B.first, B.second ), Array3i( int( mu( 0 ) ), int( mu( 1 ) ), int( mu( 2 ) ) ) ) ) );
  }
  for( const Elem* e : all( d, "near_earth_gravity" ) ) { const NearEarthGravityForce x( vdOf( e->get( "f" ) ) ); f.str( "force", x.name() + ":" + bytes( x ) ); }
  const Elem* e = one( d, "simulation_boundary" );
  const RigidBody3DState fresh;
  f.num( "boundary", { double( e && e->get( "violation_behavior" ) == "exit" ) } );
  f.vec( "boundary minimum", e ? vdOf( e->get( "min" ) ) : VD( fresh.boundaryMin() ) ); f.vec( "boundary maximum", e ? vdOf( e->get( "max" ) ) : VD( fresh.boundaryMax() ) );
  std::map<int,VX> by; std::vector<std::pair<int,VX>> renderers;
  for( const Elem* r : all( d, "static_plane_renderer" ) ) { by[int( num( r->get( "plane" ) ) )] = nums( r->get( "r" ) ); renderers.emplace_back( int( num( r->get( "plane" ) ) ), nums( r->get( "r" ) ) ); }
  std::stable_sort( renderers.begin(), renderers.end(), []( const std::pair<int,VX>& x, const std::pair<int,VX>& y ) { return x.first < y.first; } );
  for( const auto& r : renderers ) { if( w.renumber[size_t( r.first )] >= 0 ) { f.num( "plane renderer", { double( w.renumber[size_t( r.first )] ), r.second( 0 ), r.second( 1 ) } ); } }
  for( const Elem* r : all( d, "static_cylinder_renderer" ) ) { f.num( "cylinder renderer", { num( r->get( "cylinder_idx" ) ), num( r->get( "L" ) ) } ); }
  for( size_t i = 0; i < w.portal_elems.size(); ++i )
  {
    const int a = int( num( w.portal_elems[i]->get( "planeA" ) ) ), bb = int( num( w.portal_elems[i]->get( "planeB" ) ) );
    if( by.count( a ) || by.count( bb ) ) { const VX z = VX::Zero( 2 ), ra = by.count( a ) ? by[a] : z, rb = by.count( bb ) ? by[bb] : z; f.num( "portal renderer", { double( i ), ra( 0 ), ra( 1 ), rb( 0 ), rb( 1 ) } ); }
  }
  if( ( e = one( d, "camera_perspective" ) ) ) { const VD a = vdOf( e->get( "lookat" ) ), u = vdOf( e->get( "up" ) ); f.num( "perspective camera", { num( e->get( "theta" ) ), num( e->get( "phi" ) ), num( e->get( "rho" ) ), a( 0 ), a( 1 ), a( 2 ), u( 0 ), u( 1 ), u( 2 ), num( e->get( "fps" ) ), num( e->get( "render_at_fps" ) ), num( e->get( "locked" ) ) } ); }
  if( ( e = one( d, "camera_orthographic" ) ) ) { const VD x = vdOf( e->get( "x" ) ); f.str( "projection", e->get( "projection_plane" ) ); f.num( "orthographic camera", { x( 0 ), x( 1 ), x( 2 ), num( e->get( "scale" ) ), num( e->get( "fps" ) ), num( e->get( "render_at_fps" ) ), num( e->get( "locked" ) ) } ); }
  return f;
}
#endif

// ---- the scene menu ----
static Elem apgd( const char* el, const char* tol = "1.0e-6", const char* it = "12345" ) { return Elem( el ).at( "name", "apgd", "enum" ).at( "tol", tol, ">0" ).at( "max_iters", it, "uint" ); }
static Elem ql( const char* el, const char* tol = "1.0e-9" ) { return Elem( el ).at( "name", "ql", "enum" ).at( "tol", tol, "any" ); }
static Elem qlvp( const char* el, const char* tol = "1.0e-8" ) { return Elem( el ).at( "name", "ql_vp", "enum" ).at( "tol", tol, "any" ); }
#ifdef SYS_BALL2D
static Elem lcp( const char* el, int k ) { return k == 0 ? apgd( el ) : k == 1 ? ql( el ) : qlvp( el ); }
static constexpr int LCPS = 3;
#else
static Elem lcp( const char* el, int k ) { return k == 0 ? ql( el ) : qlvp( el ); }
static constexpr int LCPS = 2;
#endif
static Elem op( const string& el, int k );
// 0 gauss_seidel, then lcp and gr over every solver (jacobi is only a placeholder in the repository)
static constexpr int OPS = 1 + 2 * LCPS;
static Elem op( const string& el, int k )
{
  Elem e( el );
  if( k < 1 ) { e.at( "type", "gauss_seidel", "enum" ).at( "v_tol", "1.5e-6", ">=0" ); return e; }
  const bool gr = k >= 1 + LCPS;
  e.at( "type", gr ? "gr" : "lcp", "enum" );
  if( gr ) { e.at( "v_tol", "3.0e-7", ">=0" ); }
  e.kid( lcp( "solver", ( k - 1 ) % LCPS ) );
  return e;
}
struct Scheme { string name; Doc d; };
static std::vector<Scheme> schemes()
{
  std::vector<Scheme> r;
  r.push_back( { "no contacts", {} } );
  const auto impact = []( Elem e, const char* cor, const char* cache ) { e.at( "CoR", cor, "[0,1]" );
#ifndef SYS_RB3D
    e.at( "cache_impulses", cache, "bool" );
#else
    (void) cache;
#endif
    return e; };
  for( int k = 0; k < OPS; ++k ) { for( int c = 0; c < 2; ++c ) { r.push_back( { "impact " + std::to_string( k ) + ( c ? " cached" : "" ), { impact( op( "impact_operator", k ), c ? "0.61" : "1", c ? "1" : "0" ) } } ); } }
  for( int i = 0; i < OPS; ++i )
  {
    for( int j = 0; j < OPS; ++j )
    {
      Elem e( "impact_operator" );
      e.at( "type", "grr", "enum" ).kid( op( "elastic_operator", i ) ).kid( op( "inelastic_operator", j ) );
      r.push_back( { "grr " + std::to_string( i ) + "," + std::to_string( j ), { impact( e, "0.37", "1" ) } } );
    }
  }
#ifdef SYS_BALL2D
  for( int w = 0; w < 4; ++w ) { for( int s = 0; s < 2; ++s ) { for( int k = 0; k < LCPS; ++k )
  {
    Elem e( "staggered_projections_friction_solver" );
    e.at( "mu", "0.45", ">=0" ).at( "CoR", "0.77", "[0,1]" ).at( "max_iters", "57", "int>0" ).at( "tol", "1.25e-5", ">=0" ).at( "staggering", s ? "stabilized" : "geometric", "enum" )
     .at( "internal_warm_start_alpha", w & 1 ? "1" : "0", "bool" ).at( "internal_warm_start_beta", w & 2 ? "1" : "0", "bool" ).kid( lcp( "lcp_impact_solver", k ) )
     .kid( Elem( "mdp_friction_solver" ).at( "name", "ql", "enum" ).at( "tol", "2.5e-7", ">=0" ) );
    r.push_back( { "staggered projections", { e } } );
  } } }
#endif
  for( int st = 0; st < 3; ++st )
  {
    for( int c = 0; c < 3; ++c )
    {
#ifdef SYS_RB2D
      if( st == 2 ) { continue; }
#endif
      if( st == 1 && c ) { continue; }
#ifdef SYS_RB3D
      if( st == 0 && c ) { continue; }
#endif
      for( int z = 0; z < ( st == 2 ? 2 : 1 ); ++z )
      {
        Elem e( "sobogus_friction_solver" );
        e.at( "mu", "0.35", ">=0" ).at( "CoR", st == 2 ? "0" : "0.87", st == 2 ? "zero" : "[0,1]" ).at( "max_iters", "500", "int>0" ).at( "eval_every", "13", "int>0<=500" ).at( "tol", "3.5e-7", ">=0" )
         .at( "staggering", st == 0 ? "geometric" : st == 1 ? "stabilized" : "symplectic_euler", "enum" );
#ifdef SYS_RB3D
        const bool reads_cache = st == 2;
#else
        const bool reads_cache = true;
#endif
        if( reads_cache ) { e.at( "cache_impulses", c == 0 ? "none" : c == 1 ? "normal" : "normal_and_friction", "enum" ); }
        if( st == 2 ) { e.at( "stabilization", z ? "1" : "0", "bool" ).at( "penetration_threshold", z ? "0.07" : "0", ">=0" ); }
        r.push_back( { "so-bogus", { e } } );
      }
    }
  }
  return r;
}

#ifdef SYS_RB3D
static const std::vector<const char*> INTEGRATORS{ "split_ham", "dmv", "exponential_euler" };
#else
static const std::vector<const char*> INTEGRATORS{ "verlet", "symplectic_euler" };
#endif
static Elem integrator( const char* type, const char* dt ) { Elem e( "integrator" ); e.at( "type", type, "enum" ).at( "dt", dt, "rational>0" );
#ifndef SYS_RB2D
  e.must();
#endif
  return e; }

static Elem plane( int i )
{
#ifdef SYS_RB3D
  static const char* X[] = { "-4.1 0 0.6", "4.3 0 0.3", "0 -3.7 0", "0 3.1 1.4", "0.1 0 -9.3" };
  static const char* N[] = { "2 0 0", "-0.5 0 0", "0 4 0", "0 -1 0", "0.3 -1.7 2.3" };
  return Elem( "static_plane" ).at( "x", X[i], "vec" ).at( "n", N[i], "dir" );
#else
  static const char* X[] = { "-4.1 0.6", "4.3 0.3", "0 -3.7", "1.4 3.1", "0.1 -9.3" };
  static const char* N[] = { "2 0", "-0.5 0", "0 4", "0 -1", "0.3 -1.7" };
  return Elem( "static_plane" ).at( "x", X[i], "vec" ).at( "n", N[i], "dir" );
#endif
}
static Elem portal( int a, int b, int k, int nplanes )
{
  const string idx = "index<" + std::to_string( nplanes );
#ifdef SYS_RB3D
  static const char* MUL[] = { "1 1 -1", "-1 1 1", "1 -1 1", "1 1 1" };
  return Elem( "planar_portal" ).at( "planeA", std::to_string( a ), idx ).at( "planeB", std::to_string( b ), idx ).at( "multiplier", MUL[k % 4], "signs" );
#else
  if( k == 0 ) { return Elem( "planar_portal" ).at( "planeA", std::to_string( a ), idx ).at( "planeB", std::to_string( b ), idx ); }
  return Elem( "lees_edwards_portal" ).at( "planeA", std::to_string( a ), idx ).at( "planeB", std::to_string( b ), idx ).at( "v", k == 1 ? "1.7" : "-0.6", "any" ).at( "bounds", "3.3", ">0" );
#endif
}
static Elem gravity( int i )
{
#if defined(SYS_BALL2D)
  return Elem( "gravity" ).at( "fx", i ? "0.6" : "-1.3", "any" ).at( "fy", i ? "-9.81" : "2.5e1", "any" );
#elif defined(SYS_RB2D)
  return Elem( "near_earth_gravity" ).at( "f", i ? "0.6 -9.81" : "-1.3 2.51e1", "vec" );
#else
  return Elem( "near_earth_gravity" ).at( "f", i ? "0.6 -9.81 0.1" : "-1.3 2.51e1 3.1", "vec" );
#endif
}
static constexpr int SHAPES =
#if defined(SYS_BALL2D)
  0;
#elif defined(SYS_RB2D)
  2;
#else
  3;
#endif
static Elem shape( int i )
{
#ifdef SYS_RB3D
  if( i == 2 ) { return Elem( "geometry" ).at( "type", "staple", "enum" ).at( "w", "1.6", ">0" ).at( "l", "1.3", ">0" ).at( "D", "0.23", "D" ); }
  if( i == 1 ) { return Elem( "geometry" ).at( "type", "box", "enum" ).at( "r", "0.7 0.6 0.3", "vec>0" ); }
  return Elem( "geometry" ).at( "type", "sphere", "enum" ).at( "r", "0.61", ">0" );
#else
  if( i == 1 ) { return Elem( "geometry" ).at( "type", "box", "enum" ).at( "r", "0.7 0.6", "vec>0" ); }
  return Elem( "geometry" ).at( "type", "circle", "enum" ).at( "r", "0.61", ">0" );
#endif
}
static Elem body( int i, int shapes )
{
  const char* s[] = { "1.6", "-2.3", "0.07" };
  const string k = std::to_string( shapes ? i % shapes : 0 );
#if defined(SYS_BALL2D)
  return Elem( "ball" ).at( "x", s[i % 3], "any" ).at( "y", s[( i + 1 ) % 3], "any" ).at( "vx", s[( i + 2 ) % 3], "any" ).at( "vy", i ? "-0.1" : "1e-3", "any" ).at( "m", i ? "2.6" : "0.7", ">0" ).at( "r", i ? "0.3" : "1.1", ">0" ).at( "fixed", i == 1 ? "1" : "0", "bool" );
#elif defined(SYS_RB2D)
  Elem e( "rigid_body" );
  e.at( "x", string( s[i % 3] ) + " " + s[( i + 1 ) % 3], "vec" ).at( "theta", i ? "0.7" : "-1.2", "any" ).at( "v", string( s[( i + 2 ) % 3] ) + " 0.1", "vec" ).at( "omega", i ? "3.6" : "-0.3", "any" ).at( "rho", i ? "1.6" : "0.8", ">0" ).at( "geo_idx", k, "index<" + std::to_string( shapes ) );
  if( i != 2 ) { e.at( "fixed", i == 1 ? "1" : "0", "bool", true ); }
  return e;
#else
  Elem e( "rigid_body_with_density" );
  const bool fixed = i == 1;
  e.at( "x", string( s[i % 3] ) + " " + s[( i + 1 ) % 3] + " 7.5", "vec" ).at( "v", fixed ? "0 0 0" : string( s[( i + 2 ) % 3] ) + " 0.1 -0.2", "vec" ).at( "omega", fixed ? "0 0 0" : "0.1 0.2 -0.3", "vec" ).at( "rho", i ? "1.6" : "0.8", ">0" ).at( "fixed", fixed ? "1" : "0", "bool" )
   .at( "geo_idx", i == 2 ? "-" + std::to_string( shapes ) : k, "shape<" + std::to_string( shapes ) );
  if( i != 1 ) { e.at( "R", i ? "0.3 -0.2 0.9" : "0 0 0", "vec", true ); }
  return e;
#endif
}

static string scratch() { static string s; if( s.empty() ) { const char* e = std::getenv( "VP_SCRATCH" ); char b[] = "/tmp/vp-p13-XXXXXX"; s = e ? string( e ) : string( mkdtemp( b ) ); } return s; }
static string file( const string& content )
{
  const string f = scratch() + "/scene.xml";
  std::ofstream o( f, std::ios::binary | std::ios::trunc ); o << content; o.close();
  return f;
}
static void silence() { static bool done = false; if( !done ) { done = true; std::cerr.setstate( std::ios::failbit ); } }

static void accepted( const Doc& d, int layout, bool camera = true )
{
  const string t = text( d, layout );
  const string f = file( t );
  Loaded l;
  VP_CHECK( load( f, l, camera ), "a valid scene was refused: " << t );
  const Facts g = got( l, camera );
  try { compare( g, want( d, camera ) ); } catch( vp::Failure& x ) { x.msg += "\n" + t; throw; }
  vp::transition(); vp::state( t );
}
// A refusal is a false answer or an orderly exit with a failure code, not an assertion or crash.
static bool refused( const string& t )
{
  const string f = file( t );
  const int st = vp::forked( [&]() { Loaded l; if( !load( f, l ) ) { _exit( 3 ); } } );
  VP_CHECK( WIFEXITED( st ), "loading a defective scene crashed (signal " << WTERMSIG( st ) << "): " << t );
  vp::transition(); vp::state( t );
  return WEXITSTATUS( st ) != 0;
}

// ---- defective spellings for each kind of entry ----
static std::vector<string> bad( const string& kind, const string& )
{
  std::vector<string> r{ "" };
  if( kind == "text" ) { return {}; }
  r.push_back( "zzz" );
  const auto add = [&]( std::initializer_list<const char*> l ) { for( const char* s : l ) { r.push_back( s ); } };
  if( kind == "any" ) { add( { "-", "." } ); }
  else if( kind == ">0" ) { add( { "-", "0", "-1.5", "-inf" } ); }
  else if( kind == ">=0" ) { add( { "-", "-0.5" } ); }
  else if( kind == "[0,1]" ) { add( { "-", "-0.25", "1.25" } ); }
  else if( kind == "zero" ) { add( { "-", "0.5" } ); }
  else if( kind == "bool" ) { add( { "2", "-1" } ); }
  else if( kind == "enum" ) { add( { "0" } ); }
  else if( kind == "rational>0" ) { add( { "0", "-1/10", "1/0", "0/5", "-0.5", "1/2/3", "/", "1/" } ); }
  else if( kind == "uint" ) { add( { "-1", "-" } ); }
  else if( kind == "uint>0" ) { add( { "-1", "0", "-" } ); }
  else if( kind == "int>0" ) { add( { "0", "-3" } ); }
  else if( kind == "int>0<=500" ) { add( { "0", "-3", "501" } ); }
  else if( kind == "D" ) { add( { "0", "-0.25", "1.375", "1.75" } ); }
  else if( kind == "vec" || kind == "dir" || kind == "vec>0" )
  {
#ifdef SYS_RB3D
    add( { "1", "1 2", "1 2 3 4", "a 1 2", "1 b 2", "1 2 c" } );
    if( kind == "dir" ) { add( { "0 0 0", "-0 0 0.0" } ); }
    if( kind == "vec>0" ) { add( { "0 1 1", "1 -1 1", "1 1 -2" } ); }
#else
    add( { "1", "1 2 3", "a 1", "1 b" } );
    if( kind == "dir" ) { add( { "0 0", "-0 0.0" } ); }
    if( kind == "vec>0" ) { add( { "0 1", "1 -1" } ); }
#endif
  }
  else if( kind == "half" ) { add( { "1", "1 2 3", "-1 2", "1 -2", "x 1" } ); }
  else if( kind == "signs" ) { add( { "1", "1 1", "1 1 1 1", "0 1 1", "1 0 1", "1 1 0", "2 1 1", "1 -2 1", "1 1 x" } ); }
  else if( kind == "min" ) { add( { "1", "-9 -9", "50 -9 -9", "-9 50 -9", "-9 -9 50", "10 -9 -9", "-9 x -9" } ); }
  else if( kind == "max" ) { add( { "1", "9 9", "-50 9 9", "9 -50 9", "9 9 -50", "9 x 9" } ); }
  else if( kind.compare( 0, 6, "index<" ) == 0 ) { const int n = std::atoi( kind.c_str() + 6 ); r.push_back( std::to_string( n ) ); r.push_back( std::to_string( n + 1 ) ); r.push_back( "-1" ); r.push_back( "1000000000" ); }
  else if( kind.compare( 0, 6, "shape<" ) == 0 ) { const int n = std::atoi( kind.c_str() + 6 ); r.push_back( std::to_string( n ) ); r.push_back( std::to_string( n + 1 ) ); r.push_back( std::to_string( -n - 1 ) ); r.push_back( "1000000000" ); r.push_back( "-1000000000" ); }
  else { std::abort(); }
  return r;
}

static Doc rich( const Scheme& s, int cam = 0 )
{
  Doc d;
  d.push_back( Elem( "scripting" ).at( "callback", "my_callback", "text" ) );
  d.push_back( Elem( "end_time" ).at( "t", "12.3", ">0" ) );
#if defined(SYS_BALL2D)
  (void) cam;
  d.push_back( Elem( "camera" ).at( "cx", "0.6", "any" ).at( "cy", "-1.3", "any" ).at( "scale_factor", "9.6", "any" ).at( "fps", "50", "uint" ).at( "render_at_fps", "1", "bool" ).at( "locked", "0", "bool" ) );
#elif defined(SYS_RB2D)
  (void) cam;
  d.push_back( Elem( "camera" ).at( "center", "0.6 -1.3", "vec" ).at( "scale", "9.6", ">0" ).at( "fps", "50", "uint>0" ).at( "render_at_fps", "1", "bool" ).at( "locked", "0", "bool" ) );
#else
  if( cam != 1 ) { d.push_back( Elem( "camera_perspective" ).at( "theta", "0.6", "any" ).at( "phi", "1.3", "any" ).at( "rho", "30.1", ">0" ).at( "lookat", "1.1 2.2 3.3", "vec" ).at( "up", "0 0 1", "vec" ).at( "fps", "50", "uint" ).at( "render_at_fps", "1", "bool" ).at( "locked", "0", "bool" ) ); }
  else { d.push_back( Elem( "camera_orthographic" ).at( "projection_plane", "zy", "enum" ).at( "x", "1.1 2.2 3.3", "vec" ).at( "scale", "9.6", ">0" ).at( "fps", "25", "uint" ).at( "render_at_fps", "0", "bool" ).at( "locked", "1", "bool" ) ); }
  d.push_back( Elem( "simulation_boundary" ).at( "violation_behavior", "exit", "enum" ).at( "min", "-20 -30.2 -40.3", "min" ).at( "max", "10 11.2 12.3", "max" ) );
#endif
  d.push_back( gravity( 0 ) ); d.push_back( gravity( 1 ) );
#ifdef SYS_BALL2D
  d.push_back( Elem( "penalty" ).at( "stiffness", "1.01e-4", ">=0" ).at( "potential_power", "2.6", "any" ) );
  d.push_back( Elem( "static_drum" ).at( "x", "0.6", "any" ).at( "y", "-0.3", "any" ).at( "r", "10.6", ">0" ) );
  d.push_back( Elem( "static_drum" ).at( "x", "-3", "any" ).at( "y", "4", "any" ).at( "r", "20", ">0" ) );
#endif
  d.push_back( integrator( INTEGRATORS[0], "1/125" ) );
  for( const Elem& e : s.d ) { d.push_back( e ); }
  for( int i = 0; i < 5; ++i ) { d.push_back( plane( i ) ); }
#ifdef SYS_RB3D
  d.push_back( Elem( "static_cylinder" ).at( "x", "1 2 3", "vec" ).at( "axis", "0.6 -1 2", "dir" ).at( "R", "5.6", ">0" ) );
  d.push_back( Elem( "static_cylinder" ).at( "x", "-1 0 3", "vec" ).at( "axis", "0 0 1", "dir" ).at( "R", "2.6", ">0" ) );
  d.push_back( Elem( "static_plane_renderer" ).at( "plane", "4", "index<5" ).at( "r", "1.6 2.6", "half" ) );
  d.push_back( Elem( "static_plane_renderer" ).at( "plane", "0", "index<5" ).at( "r", "3.5 4.5", "half" ) );
  d.push_back( Elem( "static_cylinder_renderer" ).at( "cylinder_idx", "1", "index<2" ).at( "L", "6.6", ">=0" ) );
  d.push_back( portal( 3, 2, 1, 5 ) );
  d.push_back( portal( 0, 1, 0, 5 ) );
#else
  d.push_back( portal( 3, 2, 1, 5 ) );
  d.push_back( portal( 0, 1, 0, 5 ) );
#endif
  for( int i = 0; i < SHAPES; ++i ) { d.push_back( shape( i ) ); }
  for( int i = 0; i < 3; ++i ) { d.push_back( body( i, SHAPES ) ); }
  return d;
}
static Doc reversed( const Doc& d )   // different elements in the opposite order, equal ones as they were
{
  std::vector<string> names;
  for( const Elem& e : d ) { if( std::find( names.begin(), names.end(), e.name ) == names.end() ) { names.push_back( e.name ); } }
  Doc r;
  for( size_t i = names.size(); i-- > 0; ) { for( const Elem& e : d ) { if( e.name == names[i] ) { r.push_back( e ); } } }
  return r;
}
static Doc interleaved( const Doc& d )   // round robin over the kinds of element
{
  std::vector<string> names; std::map<string,std::vector<Elem>> by; Doc r;
  for( const Elem& e : d ) { if( !by.count( e.name ) ) { names.push_back( e.name ); } by[e.name].push_back( e ); }
  for( size_t k = 0; r.size() < d.size(); ++k ) { for( const string& n : names ) { if( k < by[n].size() ) { r.push_back( by[n][k] ); } } }
  return r;
}

// Calls f( description, faulty document ) for every single fault in the tree
template<typename F> static void faults( const Doc& d, F f )
{
  std::vector<std::vector<size_t>> paths;
  std::function<void( const std::vector<Elem>&, std::vector<size_t> )> walk = [&]( const std::vector<Elem>& es, std::vector<size_t> p ) { for( size_t i = 0; i < es.size(); ++i ) { p.push_back( i ); paths.push_back( p ); walk( es[i].kids, p ); p.pop_back(); } };
  walk( d, {} );
  const auto at = []( Doc& doc, const std::vector<size_t>& p ) -> Elem* { Elem* e = nullptr; std::vector<Elem>* es = &doc; for( size_t i : p ) { e = &( *es )[i]; es = &e->kids; } return e; };
  for( const auto& p : paths )
  {
    Doc c = d;
    const Elem e = *at( c, p );
    if( e.required )
    {
      Doc x = d; std::vector<size_t> up( p.begin(), p.end() - 1 );
      std::vector<Elem>& es = up.empty() ? x : at( x, up )->kids;
      es.erase( es.begin() + long( p.back() ) );
      f( "without <" + e.name + ">", x );
    }
    for( size_t i = 0; i < e.a.size(); ++i )
    {
      if( !e.a[i].optional ) { Doc x = d; Elem* t = at( x, p ); t->a.erase( t->a.begin() + long( i ) ); f( "<" + e.name + "> without " + e.a[i].name, x ); }
      for( const string& v : bad( e.a[i].kind, e.a[i].value ) ) { Doc x = d; at( x, p )->a[i].value = v; f( "<" + e.name + " " + e.a[i].name + "=\"" + v + "\">", x ); }
    }
  }
}

static void features( const std::vector<Scheme>& S )
{
  // every combination of features, with one contact scheme of each family
  std::vector<size_t> pick;
  for( size_t i = 0; i < S.size(); ++i ) { if( vp::thorough() || i == 0 || S[i].name != S[i - 1].name.substr( 0, S[i].name.size() ) ) { if( vp::thorough() || S[i].name.compare( 0, 3, "grr" ) != 0 || S[i].name == "grr 1,2" ) { pick.push_back( i ); } } }
  const int NI = int( INTEGRATORS.size() );
#ifdef SYS_RB2D
  const int NIN = NI + 1;   // also without an integrator
#else
  const int NIN = NI;
#endif
  const int extra = 3;      // drums / cylinders
  vp::product( { int( pick.size() ), NIN, 4, 6 }, [&]( const std::vector<int>& k )
  {
    vp::runCase( [&]() { return "features: " + S[pick[size_t( k[0] )]].name + " integrator " + std::to_string( k[1] ) + " bodies " + std::to_string( k[2] ) + " planes " + std::to_string( k[3] ); }, [&]()
    {
      silence();
      std::vector<std::vector<Elem>> portals{ {} };
      for( int a = 0; a < k[3]; ++a ) { for( int b = 0; b < k[3]; ++b ) { if( ( a == 0 && b == 1 ) || ( a == 1 && b == 0 ) || ( a == 3 && b == 2 ) ) { for( int t = 0; t < 3; ++t ) { portals.push_back( { portal( a, b, t, k[3] ) } ); } } } }
      if( k[3] > 3 ) { for( int t = 0; t < 3; ++t ) { for( int u = 0; u < 3; ++u ) { portals.push_back( { portal( 0, 1, t, k[3] ), portal( 2, 3, u, k[3] ) } ); portals.push_back( { portal( 2, 3, t, k[3] ), portal( 1, 0, u, k[3] ) } ); } } }
      if( k[3] > 4 ) { portals.push_back( { portal( 3, 2, 0, k[3] ), portal( 0, 1, 1, k[3] ) } ); }
      for( const auto& po : portals )
      {
        vp::product( { 3, extra, 2, 2, 2, 3 }, [&]( const std::vector<int>& m )
        {
          if( !vp::thorough() && po.size() == 2 && m[2] != m[3] ) { return; }
          Doc d;
          if( m[2] ) { d.push_back( Elem( "scripting" ).at( "callback", "some_script", "text" ) ); }
          if( m[3] ) { d.push_back( Elem( "end_time" ).at( "t", "0.375", ">0" ) ); }
          for( int i = 0; i < m[0]; ++i ) { d.push_back( gravity( i ) ); }
          if( m[4] )
          {
#if defined(SYS_BALL2D)
            d.push_back( Elem( "penalty" ).at( "stiffness", "1.5", ">=0" ).at( "potential_power", "2", "any" ) );
            d.push_back( Elem( "camera" ).at( "cx", "0.6", "any" ).at( "cy", "-1.3", "any" ).at( "scale_factor", "9.6", "any" ).at( "fps", "50", "uint" ).at( "render_at_fps", "0", "bool" ).at( "locked", "1", "bool" ) );
#elif defined(SYS_RB2D)
            d.push_back( Elem( "camera" ).at( "center", "0.6 -1.3", "vec" ).at( "scale", "9.6", ">0" ).at( "fps", "50", "uint>0" ).at( "render_at_fps", "0", "bool" ).at( "locked", "1", "bool" ) );
#else
            d.push_back( Elem( "simulation_boundary" ).at( "violation_behavior", m[0] ? "exit" : "none", "enum" ).at( "min", "-2 -3 -4", "min" ).at( "max", "9 8 7", "max" ) );
#endif
          }
          if( k[1] < NI ) { d.push_back( integrator( INTEGRATORS[size_t( k[1] )], m[5] == 0 ? "0.01" : m[5] == 1 ? "1/128" : "2" ) ); }
          else if( m[5] ) { return; }
          for( const Elem& e : S[pick[size_t( k[0] )]].d ) { d.push_back( e ); }
#if defined(SYS_BALL2D)
          for( int i = 0; i < m[1]; ++i ) { d.push_back( Elem( "static_drum" ).at( "x", i ? "1" : "2", "any" ).at( "y", i ? "-7.5" : "3", "any" ).at( "r", i ? "8" : "16", ">0" ) ); }
#elif defined(SYS_RB3D)
          for( int i = 0; i < m[1]; ++i ) { d.push_back( Elem( "static_cylinder" ).at( "x", i ? "1 2 3" : "2 4 8", "vec" ).at( "axis", i ? "1 2 -2" : "0 0.5 0", "dir" ).at( "R", i ? "8" : "16", ">0" ) ); }
#else
          if( m[1] ) { return; }
#endif
          for( int i = 0; i < k[3]; ++i ) { d.push_back( plane( i ) ); }
          for( const Elem& e : po ) { d.push_back( e ); }
          const int shapes = SHAPES ? ( k[2] + m[0] ) % SHAPES + 1 : 0;
          if( k[2] || m[1] ) { for( int i = 0; i < shapes; ++i ) { d.push_back( shape( i ) ); } }
          for( int i = 0; i < k[2]; ++i ) { d.push_back( body( i, shapes ) ); }
          accepted( d, m[5] ? COMPACT : PLAIN, m[2] == 0 );
        } );
      }
      vp::outcome( "feature combinations" );
    } );
  } );
}

static void layouts( const std::vector<Scheme>& S )
{
  for( size_t s = 0; s < S.size(); ++s )
  {
    vp::runCase( [&]() { return "layouts: " + S[s].name + " #" + std::to_string( s ); }, [&]()
    {
      silence();
      for( int cam = 0; cam < 2; ++cam )
      {
        const Doc d = rich( S[s], cam );
        for( int l = 0; l < LAYOUTS; ++l )
        {
          vp::note( "layout " + std::to_string( l ) );
          for( int o = 0; o < 3; ++o ) { accepted( o == 0 ? d : o == 1 ? reversed( d ) : interleaved( d ), l ); }
        }
      }
      vp::outcome( "layouts" );
    } );
  }
}

static void faulty( const std::vector<Scheme>& S )
{
  for( size_t s = 0; s < S.size(); ++s )
  {
    if( !vp::thorough() && S[s].name.compare( 0, 3, "grr" ) == 0 && S[s].name[4] != '1' && S[s].name[6] != '1' ) { continue; }
    vp::runCase( [&]() { return "faults: " + S[s].name + " #" + std::to_string( s ); }, [&]()
    {
      for( int cam = 0; cam < 2; ++cam )
      {
        // Faults outside the contact scheme are explored once, with the first scheme.
        Doc d = rich( S[s], cam );
        if( s ) { d = S[s].d; d.push_back( integrator( INTEGRATORS[0], "1/125" ) ); if( cam ) { break; } }
        faults( d, [&]( const string& what, const Doc& x )
        {
          vp::note( what );
          VP_CHECK( refused( text( x, COMPACT ) ), "accepted: " << what << "\n" << text( x, PLAIN ) );
        } );
      }
      vp::outcome( "fault sweeps" );
    } );
  }
  // two schemes at once
  std::vector<size_t> f;
  for( size_t s = 1; s < S.size(); ++s ) { if( s == 1 || S[s].d[0].name != S[s - 1].d[0].name ) { f.push_back( s ); } }
  for( size_t a : f )
  {
    for( size_t b : f )
    {
      if( S[a].d[0].name == S[b].d[0].name ) { continue; }
      vp::runCase( [&]() { return "two schemes: " + S[a].name + " and " + S[b].name; }, [&]()
      {
        Doc d = S[a].d; d.push_back( S[b].d[0] ); d.push_back( integrator( INTEGRATORS[0], "1/125" ) );
        VP_CHECK( refused( text( d, PLAIN ) ), "two contact schemes were accepted: " << text( d, PLAIN ) );
      } );
    }
  }
}

static void cuts( const std::vector<Scheme>& S )
{
  // the file ends early, at every position, in two layouts; also no file and other documents
  for( int lay = 0; lay < 2; ++lay )
  {
    const string t = text( rich( S[vp::thorough() ? S.size() - 1 : 1], 0 ), lay ? COMPACT : PLAIN );
    const size_t end = t.rfind( '>' );
    for( size_t part = 0; part < 32; ++part )
    {
      vp::runCase( [&]() { return "cut off, layout " + std::to_string( lay ) + " part " + std::to_string( part ); }, [&]()
      {
        for( size_t n = part * ( end + 1 ) / 32; n < ( part + 1 ) * ( end + 1 ) / 32; ++n )
        {
          vp::note( "after " + std::to_string( n ) + " of " + std::to_string( t.size() ) + " bytes" );
          VP_CHECK( refused( t.substr( 0, n ) ), "a scene cut off after " << n << " of " << t.size() << " bytes was accepted: ..." << t.substr( n > 60 ? n - 60 : 0, n > 60 ? 60 : n ) );
        }
        vp::outcome( "cut positions" );
      } );
    }
  }
  vp::runCase( []() { return string( "other documents" ); }, [&]()
  {
    for( const char* other : { "ball2d_scene", "rigidbody2d_scene", "rigidbody3d_scene", "scene", "" } )
    {
      if( string( other ) == ROOT ) { continue; }
      string t = text( rich( S[1] ), PLAIN );
      const string r = ROOT;
      t.replace( t.find( "<" + r ) + 1, r.size(), other ); t.replace( t.rfind( r ), r.size(), other );
      VP_CHECK( refused( t ), "a document with root '" << other << "' was accepted" );
    }
    Loaded l; silence();
    VP_CHECK( !load( scratch() + "/no-such-file.xml", l ), "a missing file was accepted" );
  } );
}

static void numbering( const std::vector<Scheme>& S )
{
  // every assignment of plane numbers to up to two periodic boundaries among 0..4 planes
  for( int np = 0; np <= 4; ++np )
  {
    for( int two = 0; two < 2; ++two )
    {
      for( int a = -1; a <= np; ++a )
      {
        vp::runCase( [&]() { return "plane numbers: " + std::to_string( np ) + " planes, " + ( two ? "two" : "one" ) + " boundaries, first side " + std::to_string( a ); }, [&]()
        {
          silence();
          const int R = np + 2;
          vp::product( { R, two ? R : 1, two ? R : 1, 2 }, [&]( const std::vector<int>& k )
          {
            const int id[4] = { a, k[0] - 1, k[1] - 1, k[2] - 1 };
            const int n = two ? 4 : 2;
            bool ok = true; std::set<int> seen;
            for( int i = 0; i < n; ++i ) { ok = ok && id[i] >= 0 && id[i] < np && seen.insert( id[i] ).second; }
            Doc d;
            d.push_back( integrator( INTEGRATORS[0], "0.5" ) );
            for( int i = 0; i < np; ++i ) { d.push_back( plane( i ) ); }
            d.push_back( portal( id[0], id[1], k[3], np ) );
            if( two ) { d.push_back( portal( id[2], id[3], 0, np ) ); }
#ifdef SYS_RB3D
            for( int i = np; i-- > 0; ) { if( ( i + k[3] ) % 3 ) { d.push_back( Elem( "static_plane_renderer" ).at( "plane", std::to_string( i ), "any" ).at( "r", std::to_string( i + 1 ) + " 2", "half" ) ); } }
#endif
            vp::note( "numbers " + std::to_string( id[0] ) + "," + std::to_string( id[1] ) + ( two ? "," + std::to_string( id[2] ) + "," + std::to_string( id[3] ) : "" ) );
            // Opposite sides that face each other are required by the boundaries' own meaning, not by the reader.
            if( ok )
            {
              const bool facing = ( std::min( id[0], id[1] ) % 2 == 0 && std::abs( id[0] - id[1] ) == 1 ) && ( !two || ( std::min( id[2], id[3] ) % 2 == 0 && std::abs( id[2] - id[3] ) == 1 ) );
              if( facing ) { accepted( d, PLAIN ); }
            }
            else { VP_CHECK( refused( text( d, PLAIN ) ), "accepted: " << text( d, PLAIN ) ); }
          } );
          vp::outcome( "plane numberings" );
        } );
      }
    }
  }
  // error evaluations no more often than iterations; body shapes by number
  vp::runCase( []() { return string( "evaluation interval and iterations" ); }, [&]()
  {
    silence();
    for( const Scheme& s : S )
    {
      if( s.d.empty() || s.d[0].name != "sobogus_friction_solver" ) { continue; }
      for( int m = 0; m <= 6; ++m ) { for( int e = 0; e <= 7; ++e )
      {
        Doc d = s.d; d.push_back( integrator( INTEGRATORS[0], "1/125" ) );
        for( Attr& x : d[0].a ) { if( x.name == "max_iters" ) { x.value = std::to_string( m ); } if( x.name == "eval_every" ) { x.value = std::to_string( e ); } }
        if( m > 0 && e > 0 && e <= m ) { accepted( d, PLAIN ); } else { VP_CHECK( refused( text( d, PLAIN ) ), "accepted: " << text( d, PLAIN ) ); }
      } }
    }
  } );
#ifndef SYS_BALL2D
  vp::runCase( []() { return string( "shape numbers" ); }, [&]()
  {
    silence();
    for( int ns = 0; ns <= SHAPES; ++ns ) { for( int nbod = 1; nbod <= 3; ++nbod ) { for( int k = -SHAPES - 2; k <= SHAPES + 1; ++k )
    {
      Doc d; d.push_back( integrator( INTEGRATORS[0], "1/125" ) );
      for( int i = 0; i < nbod; ++i ) { d.push_back( body( i, ns ? ns : 1 ) ); for( Attr& x : d.back().a ) { if( x.name == "geo_idx" ) { x.value = std::to_string( i == nbod - 1 ? k : 0 ); } } }
      for( int i = 0; i < ns; ++i ) { d.push_back( shape( i ) ); }
#ifdef SYS_RB3D
      const bool ok = ns > 0 && k < ns && k >= -ns;
#else
      const bool ok = ns > 0 && k < ns && k >= 0;
#endif
      if( ok ) { accepted( d, PLAIN ); } else { VP_CHECK( refused( text( d, PLAIN ) ), "accepted: " << text( d, PLAIN ) ); }
    } } }
  } );
#endif
}

// counts and numbers beyond a handful
static void many( const std::vector<Scheme>& S )
{
  const auto n = []( double x ) { std::ostringstream o; o << x; return o.str(); };
  for( int count : { 9, 20, 70, 300 } ) { for( int what = 0; what < 5; ++what )
  {
    vp::runCase( [&]() { return "many: " + std::to_string( count ) + " of kind " + std::to_string( what ); }, [&]()
    {
      silence();
      for( int turnedRound = 0; turnedRound < 2; ++turnedRound )
      {
        Doc d; d.push_back( integrator( INTEGRATORS[0], "1/125" ) );
        for( const Elem& e : S[1].d ) { d.push_back( e ); }
        const int shapes = SHAPES == 0 ? 0 : what == 1 ? count : SHAPES;
        const int bodies = what == 0 || what == 1 ? count : 2, planes = what == 2 || what == 3 ? 2 * ( ( count + 1 ) / 2 ) : 2;
#ifdef SYS_RB3D
        const string z = " 0.5", z0 = " 0";
#else
        const string z, z0;
#endif
        for( int k = 0; k < planes; ++k )
        {
          const double side = k & 1 ? 1.0 : -1.0;
          d.push_back( Elem( "static_plane" ).at( "x", n( side * ( 4.0 + 0.5 * ( k / 2 ) ) ) + " " + n( 0.25 * ( k & 1 ) ) + z, "vec" ).at( "n", n( -side * ( 1.0 + k % 3 ) ) + " 0" + z0, "dir" ) );
        }
        if( what == 3 ) { for( int k = 0; k + 1 < planes; k += 2 ) { const bool sw = ( k / 2 ) & 1; d.push_back( portal( sw ? k + 1 : k, sw ? k : k + 1, SHAPES == 3 ? 0 : k % 3, planes ) ); } }
        if( what == 4 ) { for( int k = 0; k < count; ++k )
        {
          d.push_back( gravity( k & 1 ) );
#if defined(SYS_BALL2D)
          d.push_back( Elem( "static_drum" ).at( "x", n( 0.5 * k ), "any" ).at( "y", n( -0.25 * k ), "any" ).at( "r", n( 10.5 + k ), ">0" ) );
#elif defined(SYS_RB3D)
          d.push_back( Elem( "static_cylinder" ).at( "x", n( 0.5 * k ) + " 2 3", "vec" ).at( "axis", n( k % 5 ) + " -1 2", "dir" ).at( "R", n( 5.5 + k ), ">0" ) );
#endif
        } }
        for( int k = 0; k < shapes; ++k ) { d.push_back( shape( k % SHAPES ) ); if( SHAPES == 2 || SHAPES == 3 ) { for( Attr& x : d.back().a ) { if( x.name == "r" && k % SHAPES == 0 ) { x.value = n( 0.5 + 0.015625 * k ); } } } }
        for( int k = 0; k < bodies; ++k )
        {
          Elem e = body( k % 3, shapes ? shapes : 1 );
          for( Attr& x : e.a )
          {
            if( x.name == "geo_idx" ) { x.value = std::to_string( what == 1 ? ( k * 7 + 3 ) % shapes : k % shapes ); }
            if( x.name == "x" ) { x.value = SHAPES == 0 ? n( 1.5 + 0.25 * k ) : n( 1.5 + 0.25 * k ) + " " + n( -0.125 * k ) + z; }
            if( x.name == "m" ) { x.value = n( 1.0 + 0.5 * k ); }
          }
          d.push_back( e );
        }
#ifdef SYS_RB3D
        if( what == 2 ) { for( int k = planes; k-- > 0; ) { if( k % 3 ) { d.push_back( Elem( "static_plane_renderer" ).at( "plane", std::to_string( k ), "any" ).at( "r", n( k + 1 ) + " 2", "half" ) ); } } }
        if( what == 4 ) { for( int k = count; k-- > 0; ) { if( k % 3 ) { d.push_back( Elem( "static_cylinder_renderer" ).at( "cylinder_idx", std::to_string( k ), "any" ).at( "L", n( k + 1 ), ">=0" ) ); } } }
#endif
        accepted( turnedRound ? reversed( d ) : d, PLAIN );
        vp::outcome( "many" );
      }
    } );
  } }
}

// ---- the scenes that come with the program ----
// A reader of its own for the subset of XML they use
static Elem element( const string& t, size_t& p )
{
  const auto space = [&]() { for( ;; ) { while( p < t.size() && std::isspace( (unsigned char) t[p] ) ) { ++p; } if( t.compare( p, 4, "<!--" ) == 0 ) { p = t.find( "-->", p ) + 3; } else { return; } } };
  const auto word = [&]() { const size_t a = p; while( std::isalnum( (unsigned char) t[p] ) || t[p] == '_' ) { ++p; } return t.substr( a, p - a ); };
  space(); ++p;
  Elem e( word() );
  for( ;; )
  {
    space();
    if( t[p] == '/' ) { p += 2; return e; }
    if( t[p] == '>' ) { ++p; break; }
    const string n = word(); space(); ++p; space(); const char q = t[p++]; const size_t a = p; p = t.find( q, p ); e.at( n, t.substr( a, p - a ), "any" ); ++p;
  }
  for( ;; )
  {
    space();
    if( t.compare( p, 2, "</" ) == 0 ) { p = t.find( '>', p ) + 1; return e; }
    if( t[p] != '<' ) { ++p; continue; }
    e.kids.push_back( element( t, p ) );
  }
}
static void shipped()
{
  const char* repo = std::getenv( "VERIF_REPO" );
  const string dir = string( repo ? repo : "/repo" ) + "/assets/" +
#if defined(SYS_BALL2D)
    "ball2d";
#elif defined(SYS_RB2D)
    "rigidbody2d";
#else
    "rigidbody3d";
#endif
  std::vector<string> files;
  std::function<void( const string& )> walk = [&]( const string& d )
  {
    DIR* h = opendir( d.c_str() ); if( !h ) { return; }
    while( dirent* x = readdir( h ) )
    {
      const string n = x->d_name, f = d + "/" + n;
      if( n[0] == '.' ) { continue; }
      if( n.size() > 4 && n.substr( n.size() - 4 ) == ".xml" ) { files.push_back( f ); } else if( n.find( '.' ) == string::npos ) { walk( f ); }
    }
    closedir( h );
  };
  walk( dir );
  std::sort( files.begin(), files.end() );
  for( const string& f : files )
  {
    vp::runCase( [&]() { return "shipped scene " + f; }, [&]()
    {
      silence();
      std::ifstream in( f ); std::ostringstream o; o << in.rdbuf(); const string t = o.str();
      for( const char* absent : { "ipopt", "\"mesh\"", "jacobi" } ) { if( t.find( absent ) != string::npos ) { vp::outcome( "needs a missing library" ); return; } }
      size_t p = 0; const Elem root = element( t, p );
      if( root.name != ROOT ) { vp::outcome( "of another simulator" ); return; }
      Loaded l;
      const Elem* so = one( root.kids, "sobogus_friction_solver" );
      if( so && so->get( "staggering" ) == "symplectic_euler" && num( so->get( "CoR" ) ) != 0.0 ) { VP_CHECK( !load( f, l ), "symplectic_euler was accepted with restitution" ); vp::outcome( "shipped scenes with an entry out of range" ); return; }
      VP_CHECK( load( f, l ), "the shipped scene " << f << " was refused" );
      compare( got( l, true ), want( root.kids, true ) );
      vp::transition(); vp::state( t ); vp::outcome( "shipped scenes" );
    } );
  }
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  const std::vector<Scheme> S = schemes();
  layouts( S );
  faulty( S );
  cuts( S );
  numbering( S );
  many( S );
  shipped();
  features( S );
  return vp::finish();
}
