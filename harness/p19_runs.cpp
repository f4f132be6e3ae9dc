// P19: a command-line run does what its options say, and can be interrupted and resumed at any point.
//
// The command-line programs themselves are compiled in (their main renamed) and run in child processes inside a
// scratch directory. The reference is the library stepped by the harness: the state a snapshot holds is compared,
// byte for byte, with what the simulator writes for the same step. Enumerated: every contact scheme x save interval x
// snapshot mode; resuming from every snapshot; stopping the run at every hook of every step and resuming; every
// snapshot that cannot be written; every prefix of a snapshot; every frequency; every faulty option.
#include "maps.h"
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <Python.h>
#include "scisim/PythonTools.h"
#include "scisim/Math/Rational.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorQLVP.h"
#if defined(SYS_BALL2D)
#include "ball2d/PythonScripting.h"
#include "ball2dutils/Ball2DSceneParser.h"
#elif defined(SYS_RB2D)
#include "rigidbody2d/PythonScripting.h"
#include "rigidbody2dutils/RigidBody2DSceneParser.h"
#include "rigidbody2dutils/CameraSettings2D.h"
#else
#include "rigidbody3d/PythonScripting.h"
#include "rigidbody3dutils/RigidBody3DSceneParser.h"
#include "rigidbody3dutils/RenderingState.h"
#endif
using namespace sys;
using std::string;
int cli_main( int, char** );

// The QLVP solver needs Fortran sources that are not part of the repository; it is only ever constructed here.
LCPOperatorQLVP::LCPOperatorQLVP( const scalar& tol ) : m_tol( tol ) {}
void LCPOperatorQLVP::flow( const std::vector<std::unique_ptr<Constraint>>&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, const VectorXs&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, VectorXs& ) { std::abort(); }
string LCPOperatorQLVP::name() const { return "lcp_ql_vp"; }
std::unique_ptr<ImpactOperator> LCPOperatorQLVP::clone() const { return std::unique_ptr<ImpactOperator>( new LCPOperatorQLVP( m_tol ) ); }
void LCPOperatorQLVP::serialize( std::ostream& s ) const { s.write( reinterpret_cast<const char*>( &m_tol ), sizeof m_tol ); }

// ---- files ----
static string scratch() { static string s; if( s.empty() ) { const char* e = std::getenv( "VP_SCRATCH" ); char b[] = "/tmp/vp-p19-XXXXXX"; s = e ? string( e ) : string( mkdtemp( b ) ); } return s; }
static string slurp( const string& f ) { std::ifstream in( f, std::ios::binary ); std::ostringstream o; o << in.rdbuf(); return o.str(); }
static void spill( const string& f, const string& t ) { std::ofstream o( f, std::ios::binary ); o << t; if( !o ) { std::abort(); } }
using Files = std::map<string,string>;
static std::vector<string> list( const string& d )
{
  std::vector<string> r;
  DIR* h = opendir( d.c_str() ); if( !h ) { return r; }
  while( dirent* x = readdir( h ) ) { const string n = x->d_name; if( n != "." && n != ".." ) { r.push_back( n ); } }
  closedir( h ); std::sort( r.begin(), r.end() );
  return r;
}
static string workDir() { return scratch() + "/p19-run"; }
static string logFile() { return scratch() + "/p19-log"; }
static string sceneDir() { return scratch() + "/p19-scene"; }
static void clean()
{
  mkdir( workDir().c_str(), 0755 ); mkdir( sceneDir().c_str(), 0755 );
  for( const string& n : list( workDir() ) ) { const string f = workDir() + "/" + n; if( unlink( f.c_str() ) != 0 ) { rmdir( f.c_str() ); } }
  unlink( logFile().c_str() );
}
static Files snapshotFiles()
{
  Files r;
  for( const string& n : list( workDir() ) ) { struct stat st; if( lstat( ( workDir() + "/" + n ).c_str(), &st ) == 0 && S_ISREG( st.st_mode ) ) { r[n] = slurp( workDir() + "/" + n ); } }
  return r;
}
static string names( const Files& f ) { string s; for( const auto& x : f ) { s += x.first + "(" + std::to_string( x.second.size() ) + ") "; } return s; }

// ---- scripts ----
static const char* MODULE = "script";
static string g_stop;      // the hook call at which the run is to be interrupted
static PyObject* N( double x ) { return fakepy::num( x ); }
static PyObject* I( long x ) { return fakepy::integer( x ); }
static void logged( const string& what )
{
  const int fd = open( logFile().c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644 );
  const string l = what + "\n";
  if( fd < 0 || write( fd, l.data(), l.size() ) != ssize_t( l.size() ) ) { std::abort(); }
  close( fd );
  if( what == g_stop ) { _exit( 42 ); }
}
static string times()
{
  std::ostringstream o; o.precision( 17 );
  o << fakepy::asNumber( fakepy::call( "nextIteration" ) ) << " " << fakepy::asNumber( fakepy::call( "timestep" ) );
  return o.str();
}
enum Script { NONE, WATCH, EDIT, SKIP };   // SKIP: the 3D simulator lets a script choose the first step number
static const int SKIPPED = 3;
static void edit( int k )
{
  const int planes = int( fakepy::asNumber( fakepy::call( "numStaticPlanes" ) ) );
#if defined(SYS_BALL2D)
  if( k == 2 ) { fakepy::act( "insertBall", { N( 9.0 ), N( 3.0 ), N( 0.5 ), N( -1.0 ), N( 0.5 ), N( 2.0 ), I( 0 ) } ); }
  if( planes > 0 ) { fakepy::act( "setStaticPlaneVelocity", { I( 0 ), N( 0.1 * k ), N( 0.05 ) } ); }
#elif defined(SYS_RB2D)
  if( k == 2 ) { fakepy::act( "addBody", { N( 9.0 ), N( 3.0 ), N( 0.3 ), N( 0.5 ), N( -1.0 ), N( 2.0 ), N( 1.5 ), I( 0 ), I( 0 ) } ); }
  if( planes > 0 ) { fakepy::act( "setStaticPlanePosition", { I( 0 ), N( 0.1 * k ), N( -0.001 * k ) } ); }
#else
  if( planes > 0 ) { fakepy::act( "setStaticPlaneVelocity", { I( 0 ), N( 0.1 * k ), N( 0.05 ), N( 0.02 * k ) } ); }
  if( fakepy::asNumber( fakepy::call( "numForces" ) ) > 0 ) { fakepy::act( "setGravityForce", { I( 0 ), N( 0.3 * k ), N( -9.0 ), N( 1.0 ) } ); }
#endif
}
// Registers the script; called in the child that runs it
static void script( Script s, bool quiet = false )
{
  auto& h = fakepy::modules()[MODULE].hooks;
  h.clear();
  if( s == NONE ) { return; }
  auto say = [quiet]( const string& w ) { if( !quiet ) { logged( w ); } };
  static int step = 0;
  h["startOfSim"] = [say, s]
  {
    say( "startOfSim" );
#if defined(SYS_RB3D)
    if( s == SKIP ) { fakepy::act( "setInitialIterate", { I( SKIPPED ) } ); }
#else
    (void) s;
#endif
    return fakepy::none();
  };
  h["endOfSim"] = [say]{ say( "endOfSim" ); return fakepy::none(); };
  h["startOfStep"] = [say, s]{ step = int( fakepy::asNumber( fakepy::call( "nextIteration" ) ) ); if( s == EDIT ) { edit( step ); } say( "startOfStep " + times() ); return fakepy::none(); };
  h["endOfStep"] = [say]{ say( "endOfStep " + times() ); return fakepy::none(); };
}

// ---- runs ----
struct Run { int rc; Files files; std::vector<string> log; };   // rc: exit code, or 1000 + signal
static std::vector<string> readLog() { std::vector<string> r; std::ifstream in( logFile() ); string l; while( std::getline( in, l ) ) { r.push_back( l ); } return r; }
static string joined( const std::vector<string>& v ) { string s; for( const string& x : v ) { s += x + "; "; } return s; }
static Run run( const std::vector<string>& args, Script sc, const string& stop = "", long limit = -1 )
{
  unlink( logFile().c_str() );
  const int st = vp::forked( [&]()
  {
    struct itimerval tv; std::memset( &tv, 0, sizeof tv ); tv.it_value.tv_sec = 40; setitimer( ITIMER_VIRTUAL, &tv, nullptr );
    if( chdir( workDir().c_str() ) != 0 ) { std::abort(); }
    if( limit >= 0 ) { struct rlimit rl{ rlim_t( limit ), rlim_t( limit ) }; signal( SIGXFSZ, SIG_IGN ); if( setrlimit( RLIMIT_FSIZE, &rl ) != 0 ) { std::abort(); } }
    g_stop = stop;
    script( sc );
    std::vector<string> a = args; a.insert( a.begin(), "simulator" );
    std::vector<char*> av; for( string& x : a ) { av.push_back( &x[0] ); } av.push_back( nullptr );
    std::exit( cli_main( int( a.size() ), av.data() ) );
  } );
  vp::transition();
  Run r; r.rc = WIFEXITED( st ) ? WEXITSTATUS( st ) : 1000 + WTERMSIG( st );
  r.files = snapshotFiles(); r.log = readLog();
  return r;
}

// ---- scenes ----
struct CliScene { string name, body, scheme; bool patient = true; };
static string integratorsAndDt( const string& type, const string& dt ) { return "<integrator type=\"" + type + "\" dt=\"" + dt + "\"/>"; }
#if defined(SYS_BALL2D)
static const char* ROOT = "ball2d_scene";
static const char* const INTEGRATORS[] = { "verlet", "symplectic_euler" };
#elif defined(SYS_RB2D)
static const char* ROOT = "rigidbody2d_scene";
static const char* const INTEGRATORS[] = { "symplectic_euler", "verlet" };
#else
static const char* ROOT = "rigidbody3d_scene";
static const char* const INTEGRATORS[] = { "split_ham", "dmv" };
#endif
static const string SOBO = "<sobogus_friction_solver mu=\"0.4\" CoR=\"0.0\" max_iters=\"200\" eval_every=\"5\" tol=\"1.0e-9\" ";
#if defined(SYS_BALL2D)
static const string LCP = "<solver name=\"apgd\" tol=\"1.0e-6\" max_iters=\"5000\"/>";
#else
static const string LCP = "<solver name=\"ql\" tol=\"1.0e-9\"/>";
#endif
static string impact( const string& type, const string& inner, const string& attrs ) { return "<impact_operator type=\"" + type + "\" CoR=\"0.5\" " + attrs + ">" + inner + "</impact_operator>"; }
static std::vector<CliScene> scenes()
{
  std::vector<CliScene> r;
#if defined(SYS_BALL2D)
  const string G = "<gravity fx=\"0.3\" fy=\"-9.8\"/>";
  auto ball = []( const string& x, const string& y, const string& vx, const string& vy, const string& rad = "0.5" ) { return "<ball x=\"" + x + "\" y=\"" + y + "\" vx=\"" + vx + "\" vy=\"" + vy + "\" m=\"1.5\" r=\"" + rad + "\" fixed=\"0\"/>"; };
  const string falling = G + ball( "0", "4", "1", "2" ) + ball( "3", "1", "-1", "0.5" );
  const string pile = G + "<static_plane x=\"0 0\" n=\"0 1\"/>" + ball( "0", "0.49", "1", "-1" ) + ball( "0.9", "0.6", "-1", "-1" ) + ball( "4", "0.52", "0", "-2" );
  const string drum = G + "<static_drum x=\"0\" y=\"0\" r=\"2\"/>" + ball( "0", "-1.49", "1", "-1" ) + ball( "1.0", "-1.0", "-1", "-2" );
  const string portal = "<static_plane x=\"0 0\" n=\"1 0\"/><static_plane x=\"4 0\" n=\"-1 0\"/><planar_portal planeA=\"0\" planeB=\"1\"/>" + ball( "0.1", "0", "-8", "0" ) + ball( "3.2", "0", "1", "0.1" );
  const string sheared = "<static_plane x=\"0 0\" n=\"1 0\"/><static_plane x=\"4 0\" n=\"-1 0\"/><static_plane x=\"0 0\" n=\"0 1\"/><static_plane x=\"0 4\" n=\"0 -1\"/><planar_portal planeA=\"0\" planeB=\"1\"/><lees_edwards_portal planeA=\"2\" planeB=\"3\" v=\"1.5\" bounds=\"2\"/>" + ball( "0.1", "0.2", "-8", "-6" ) + ball( "3.2", "3.5", "1", "7" );
  const string pair = G + ball( "0", "4", "3", "0.5" ) + ball( "1.02", "4.1", "-3", "0.25" );
  const string CACHED = " cache_impulses=\"1\"", NOTCACHED = " cache_impulses=\"0\"";
#elif defined(SYS_RB2D)
  const string G = "<near_earth_gravity f=\"0.3 -9.8\"/><geometry type=\"circle\" r=\"0.5\"/><geometry type=\"box\" r=\"0.5 0.4\"/>";
  auto ball = []( const string& x, const string& y, const string& vx, const string& vy, const string& geo = "0" ) { return "<rigid_body x=\"" + x + " " + y + "\" theta=\"0.1\" v=\"" + vx + " " + vy + "\" omega=\"0.7\" rho=\"1.5\" geo_idx=\"" + geo + "\"/>"; };
  const string falling = G + ball( "0", "4", "1", "2" ) + ball( "3", "1", "-1", "0.5", "1" );
  const string pile = G + "<static_plane x=\"0 0\" n=\"0 1\"/>" + ball( "0", "0.49", "1", "-1" ) + ball( "0.9", "0.6", "-1", "-1" ) + ball( "4", "0.45", "0", "-2", "1" );
  const string portal = "<geometry type=\"circle\" r=\"0.5\"/><static_plane x=\"0 0\" n=\"1 0\"/><static_plane x=\"4 0\" n=\"-1 0\"/><planar_portal planeA=\"0\" planeB=\"1\"/>" + ball( "0.1", "0", "-8", "0" ) + ball( "3.2", "0", "1", "0.1" );
  const string sheared = "<geometry type=\"circle\" r=\"0.5\"/><static_plane x=\"0 0\" n=\"1 0\"/><static_plane x=\"4 0\" n=\"-1 0\"/><static_plane x=\"0 0\" n=\"0 1\"/><static_plane x=\"0 4\" n=\"0 -1\"/><planar_portal planeA=\"0\" planeB=\"1\"/><lees_edwards_portal planeA=\"2\" planeB=\"3\" v=\"1.5\" bounds=\"2\"/>" + ball( "0.1", "0.2", "-8", "-6" ) + ball( "3.2", "3.5", "1", "7" );
  const string pair = G + ball( "0", "4", "3", "0.5" ) + ball( "1.02", "4.1", "-3", "0.25" );
  const string CACHED = " cache_impulses=\"1\"", NOTCACHED = " cache_impulses=\"0\"";
#else
  const string G = "<near_earth_gravity f=\"0.3 -9.8 0.2\"/><geometry type=\"sphere\" r=\"0.5\"/><geometry type=\"box\" r=\"0.5 0.4 0.3\"/>";
  auto ball = []( const string& x, const string& y, const string& vx, const string& vy, const string& geo = "0" ) { return "<rigid_body_with_density x=\"" + x + " " + y + " 0.1\" R=\"0.1 0.2 0.3\" v=\"" + vx + " " + vy + " 0.3\" omega=\"0.7 -0.2 0.4\" rho=\"1.5\" fixed=\"0\" geo_idx=\"" + geo + "\"/>"; };
  const string falling = G + ball( "0", "4", "1", "2" ) + ball( "3", "1", "-1", "0.5", "1" );
  const string pile = G + "<static_plane x=\"0 0 0\" n=\"0 1 0\"/>" + ball( "0", "0.49", "1", "-1" ) + ball( "0.9", "0.6", "-1", "-1" ) + ball( "4", "0.52", "0", "-2" );
  const string drum = G + "<static_cylinder x=\"0 0 0\" axis=\"0 0 1\" R=\"2\"/>" + ball( "0", "-1.49", "1", "-1" ) + ball( "1.0", "-1.0", "-1", "-2" );
  const string portal = "<geometry type=\"sphere\" r=\"0.5\"/><static_plane x=\"0 0 0\" n=\"1 0 0\"/><static_plane x=\"4 0 0\" n=\"-1 0 0\"/><planar_portal planeA=\"0\" planeB=\"1\" multiplier=\"1 1 1\"/>" + ball( "0.1", "0", "-8", "0" ) + ball( "3.2", "0", "1", "0.1" );
  const string CACHED = "", NOTCACHED = "";
#endif
#if defined(SYS_RB2D)
  const string hit = pair, hits = "pair";      // the 2D rigid-body planes offer no frictionless response
#else
  const string hit = pile, hits = "pile";
#endif
  r.push_back( CliScene{ "falling", falling, "" } );
  r.push_back( CliScene{ "pile, no contact handling", pile, "" } );
  for( const string& cache : { NOTCACHED, CACHED } )
  {
    r.push_back( CliScene{ hits + ", lcp" + cache, hit, impact( "lcp", LCP, cache ) } );
    r.push_back( CliScene{ hits + ", gr" + cache, hit, impact( "gr", LCP, "v_tol=\"1.0e-4\"" + cache ) } );
    r.push_back( CliScene{ hits + ", grr" + cache, hit, impact( "grr", "<elastic_operator type=\"gr\" CoR=\"1.0\" v_tol=\"1.0e-4\">" + LCP + "</elastic_operator><inelastic_operator type=\"lcp\" CoR=\"0.0\">" + LCP + "</inelastic_operator>", cache ) } );
    if( CACHED == NOTCACHED ) { break; }
  }
  r.push_back( CliScene{ "portal, lcp", portal, impact( "lcp", LCP, NOTCACHED ) } );
#if defined(SYS_BALL2D)
  for( const string& w : { string( "0" ), string( "1" ) } )
  {
    for( const string& st : { string( "geometric" ), string( "stabilized" ) } )
    {
      r.push_back( CliScene{ "pair, staggered " + st + " " + w, pair, "<staggered_projections_friction_solver mu=\"0.4\" CoR=\"0.0\" max_iters=\"50\" tol=\"1.0e-8\" staggering=\"" + st + "\" internal_warm_start_alpha=\"" + w + "\" internal_warm_start_beta=\"" + w + "\"><lcp_impact_solver name=\"ql\" tol=\"1.0e-9\"/><mdp_friction_solver name=\"ql\" tol=\"1.0e-9\"/></staggered_projections_friction_solver>" } );
    }
  }
#endif
#if !defined(SYS_RB3D)
  r.push_back( CliScene{ "sheared, lcp", sheared, impact( "lcp", LCP, NOTCACHED ) } );
#endif
#if !defined(SYS_RB2D)
  r.push_back( CliScene{ "drum, lcp", drum, impact( "lcp", LCP, CACHED ) } );
  r.push_back( CliScene{ "drum, friction", drum, SOBO + "staggering=\"geometric\" cache_impulses=\"none\"/>" } );
#endif
  for( const string& map : { string( "geometric" ), string( "stabilized" ), string( "symplectic_euler" ) } )
  {
    for( const string& cache : { string( "none" ), string( "normal" ), string( "normal_and_friction" ) } )
    {
#if defined(SYS_RB2D)
      if( map == "symplectic_euler" || ( map == "stabilized" && cache != "none" ) ) { continue; }
#elif defined(SYS_BALL2D)
      if( map == "stabilized" && cache != "none" ) { continue; }
#else
      if( cache == "normal" || ( map != "symplectic_euler" && cache != "none" ) ) { continue; }
#endif
      r.push_back( CliScene{ ( cache == "none" ? "pile" : hits ) + ", friction " + map + " " + cache, cache == "none" ? pile : hit, SOBO + "staggering=\"" + map + "\" cache_impulses=\"" + cache + "\"" + ( map == "symplectic_euler" ? " stabilization=\"1\" penetration_threshold=\"0.001\"" : "" ) + "/>" } );
    }
  }
  return r;
}
static string sceneText( const CliScene& s, const string& integrator, const string& dt, const string& end, Script sc )
{
  string cam;
  return string( "<" ) + ROOT + ">\n" + cam + ( sc == NONE ? "" : string( "<scripting callback=\"" ) + MODULE + "\"/>" ) + integratorsAndDt( integrator, dt ) + ( end.empty() ? "" : "<end_time t=\"" + end + "\"/>" ) + s.scheme + s.body + "</" + ROOT + ">\n";
}
static string sceneFile() { return sceneDir() + "/scene.xml"; }

// ---- the reference: the library, stepped by the harness ----
struct Loaded
{
  string scr, dts;
  std::unique_ptr<UnconstrainedMap> u;
  Rational<std::intmax_t> dt;
  scalar end = 0, CoR = 0, mu = 0;
  std::unique_ptr<ImpactOperator> op; std::unique_ptr<ImpactMap> imap; std::unique_ptr<FrictionSolver> fs; std::unique_ptr<ImpactFrictionMap> ifm;
};
static bool load( const string& f, Loaded& l, Sim& s )
{
#if defined(SYS_BALL2D)
  Ball2DState st;
  if( !Ball2DSceneParser::parseXMLSceneFile( f, l.scr, st, l.u, l.dts, l.dt, l.end, l.op, l.imap, l.CoR, l.fs, l.mu, l.ifm ) ) { return false; }
  using std::swap; swap( st, s.state() ); s.clearConstraintCache();
#elif defined(SYS_RB2D)
  RigidBody2DState st; CameraSettings2D cam;
  if( !RigidBody2DSceneParser::parseXMLSceneFile( f, l.scr, st, l.u, l.dts, l.dt, l.end, l.op, l.imap, l.CoR, l.fs, l.mu, l.ifm, cam ) ) { return false; }
  s.state() = std::move( st );
#else
  RigidBody3DState st; RenderingState ren;
  if( !RigidBody3DSceneParser::parseXMLSceneFile( f, l.scr, st, l.u, l.dts, l.dt, l.end, l.op, l.CoR, l.fs, l.mu, l.ifm, ren ) ) { return false; }
  s.getState() = std::move( st ); s.clearConstraintCache();
#endif
  return true;
}
#if defined(SYS_RB3D)
#define STATE( s ) ( s ).getState()
#else
#define STATE( s ) ( s ).state()
#endif
// The bytes the simulator writes for the state after every step; index 0 is the first. Computed in a child, because the
// script layer is global. Returns false if the scene does not load.
struct Ref { std::vector<string> states; unsigned first = 0; bool ok = false; };
static Ref reference( const string& file, Script sc, unsigned steps )
{
  const string out = scratch() + "/p19-ref";
  unlink( out.c_str() );
  const int st = vp::forked( [&]()
  {
    script( sc, true );
    PythonScripting::initializeCallbacks();
    Sim s; Loaded l;
    if( !load( file, l, s ) ) { std::_Exit( 3 ); }
    unsigned it = 0;
    PythonScripting cb{ file.substr( 0, file.rfind( '/' ) ), l.scr };
    cb.setState( STATE( s ) );
#if defined(SYS_RB3D)
    cb.setInitialIterate( it );
#endif
    cb.startOfSimCallback();
    cb.forgetState();
    std::ofstream o( out, std::ios::binary );
    auto put = [&]() { std::ostringstream b; s.serialize( b ); const string t = b.str(); const size_t n = t.size(); o.write( reinterpret_cast<const char*>( &n ), sizeof n ); o << t; };
    o.write( reinterpret_cast<const char*>( &it ), sizeof it );
    put();
    for( unsigned k = 0; k < steps; ++k )
    {
      if( l.ifm ) { s.flow( cb, it + 1, l.dt, *l.u, l.CoR, l.mu, *l.fs, *l.ifm ); }
#if defined(SYS_RB3D)
      else if( l.op ) { s.flow( cb, it + 1, l.dt, *l.u, *l.op, l.CoR ); }
#else
      else if( l.op ) { s.flow( cb, it + 1, l.dt, *l.u, *l.op, l.CoR, *l.imap ); }
#endif
      else if( l.u ) { s.flow( cb, it + 1, l.dt, *l.u ); }
      ++it; put();
    }
    o.close();
    std::_Exit( 0 );
  } );
  Ref r;
  if( !WIFEXITED( st ) || WEXITSTATUS( st ) != 0 ) { return r; }
  std::ifstream in( out, std::ios::binary );
  in.read( reinterpret_cast<char*>( &r.first ), sizeof r.first );
  size_t n;
  while( in.read( reinterpret_cast<char*>( &n ), sizeof n ) ) { string t( n, 0 ); in.read( &t[0], std::streamsize( n ) ); r.states.push_back( t ); vp::state( t ); }
  r.ok = r.states.size() == steps + 1;
  return r;
}

// ---- what a run must produce ----
struct Plan { unsigned first, last, every; };           // step numbers; a snapshot at every multiple of `every`
static std::vector<unsigned> saved( const Plan& p ) { std::vector<unsigned> r; for( unsigned k = p.first; k <= p.last; ++k ) { if( k % p.every == 0 ) { r.push_back( k ); } } return r; }
static std::vector<string> wantLog( const Plan& p, unsigned from, double dt, bool fresh )
{
  std::vector<string> r;
  if( fresh ) { r.push_back( "startOfSim" ); }
  for( unsigned k = from + 1; k <= p.last; ++k ) { std::ostringstream o; o.precision( 17 ); o << k << " " << dt; r.push_back( "startOfStep " + o.str() ); r.push_back( "endOfStep " + o.str() ); }
  r.push_back( "endOfSim" );
  return r;
}
// The snapshots of a complete run, in order; checks their number, names and contents
static std::vector<string> checkSnapshots( const Run& r, const Plan& p, const Ref& ref )
{
  const std::vector<unsigned> want = saved( p );
  VP_CHECK( r.rc == 0, "the run ended with code " << r.rc );
  VP_CHECK( r.files.size() == want.size(), "the run left " << r.files.size() << " files instead of " << want.size() << ": " << names( r.files ) );
  std::vector<string> ns;
  size_t i = 0;
  for( const auto& f : r.files )       // in the order of their names
  {
    const string num = f.first.size() > 11 ? f.first.substr( 7, f.first.size() - 11 ) : "";
    VP_CHECK( f.first.substr( 0, 7 ) == "serial_" && f.first.substr( f.first.size() - 4 ) == ".bin" && !num.empty() && num.find_first_not_of( "0123456789" ) == string::npos && std::stoul( num ) == i, "snapshot " << i << " is called " << f.first << " among " << names( r.files ) );
    VP_CHECK( f.first.size() == r.files.begin()->first.size(), "the names of the snapshots differ in length: " << names( r.files ) );
    VP_CHECK( f.second.find( ref.states[want[i] - p.first] ) != string::npos, "snapshot " << f.first << " does not hold the state after step " << want[i] );
    ns.push_back( f.first ); ++i;
  }
  return ns;
}
static void sameFiles( const Files& got, const Files& want, const string& what )
{
  VP_CHECK( names( got ) == names( want ), what << ": files " << names( got ) << " instead of " << names( want ) );
  for( const auto& f : want )
  {
    const string& g = got.at( f.first );
    size_t d = 0; while( d < g.size() && g[d] == f.second[d] ) { ++d; }
    VP_CHECK( g == f.second, what << ": " << f.first << " differs from the uninterrupted run's from byte " << d << " on" );
  }
}
static void sameLog( const std::vector<string>& got, const std::vector<string>& want, Script sc, const string& what )
{
  const std::vector<string> w = sc == NONE ? std::vector<string>() : want;
  VP_CHECK( got == w, what << ": hooks ran as [" << joined( got ) << "] instead of [" << joined( w ) << "]" );
}
static const char* SNAP = "/snapshot-to-resume";
static Run resume( const string& bytes, Script sc, bool with_options = false )
{
  const string f = sceneDir() + SNAP; spill( f, bytes );
  std::vector<string> a{ "-r", f };
  if( with_options ) { a = { "--resume", f }; }
  return run( a, sc );
}
static string endTime( unsigned steps, double dt ) { std::ostringstream o; o.precision( 17 ); o << ( steps - 0.5 ) * dt; return o.str(); }

static void fullRun( const CliScene& s, const string& integrator, const string& dts, double dt, unsigned steps, unsigned hz, unsigned every, Script sc )
{
  clean();
  spill( sceneFile(), sceneText( s, integrator, dts, endTime( steps, dt ), sc ) );
  const unsigned first = sc == SKIP ? SKIPPED : 0;
  const Ref ref = reference( sceneFile(), sc, steps - first );
  VP_CHECK( ref.ok && ref.first == first, "the reference could not be computed" );
  const Plan p{ first, steps, every };
  const std::vector<unsigned> at = saved( p );
  std::vector<string> opts{ sceneFile() };
  if( hz ) { opts.push_back( "-f" ); opts.push_back( std::to_string( hz ) ); }
  const std::vector<string> log = wantLog( p, first, dt, true );
  // no snapshots
  vp::note( "without snapshots" );
  { const Run r = run( opts, sc ); VP_CHECK( r.rc == 0, "the run ended with code " << r.rc ); VP_CHECK( r.files.empty() && list( workDir() ).empty(), "files were written without being asked for: " << names( r.files ) ); sameLog( r.log, log, sc, "run without snapshots" ); }
  // numbered snapshots
  vp::note( "numbered snapshots" );
  std::vector<string> o1 = opts; o1.push_back( "-s" ); o1.push_back( "1" );
  clean();
  const Run u = run( o1, sc );
  const std::vector<string> ns = checkSnapshots( u, p, ref );
  sameLog( u.log, log, sc, "run" );
  for( size_t j = 0; j < ns.size(); ++j )
  {
    vp::note( "resumed from " + ns[j] );
    clean();
    const Run r = resume( u.files.at( ns[j] ), sc, j % 2 != 0 );
    VP_CHECK( r.rc == 0, "the resumed run ended with code " << r.rc );
    Files w; for( size_t i = j; i < ns.size(); ++i ) { w[ns[i]] = u.files.at( ns[i] ); }
    sameFiles( r.files, w, "resumed from " + ns[j] );
    sameLog( r.log, wantLog( p, at[j], dt, false ), sc, "resumed from " + ns[j] );
  }
  // one snapshot, overwritten
  vp::note( "one snapshot" );
  std::vector<string> o0 = opts; o0.push_back( "--serialize_snapshots=0" );
  clean();
  const Run v = run( o0, sc );
  VP_CHECK( v.rc == 0, "the run with a single snapshot ended with code " << v.rc );
  VP_CHECK( v.files.size() == 1 && v.files.count( "serial.bin" ), "the run with a single snapshot left " << names( v.files ) );
  VP_CHECK( v.files.at( "serial.bin" ).find( ref.states[at.back() - first] ) != string::npos, "the single snapshot does not hold the state after step " << at.back() );
  sameLog( v.log, log, sc, "run with a single snapshot" );
  clean();
  { const Run r = resume( v.files.at( "serial.bin" ), sc ); VP_CHECK( r.rc == 0, "the run resumed from the last snapshot ended with code " << r.rc ); sameFiles( r.files, v.files, "resumed from the last single snapshot" ); sameLog( r.log, wantLog( p, at.back(), dt, false ), sc, "resumed from the last single snapshot" ); }
  // interrupted at every hook
  if( sc != NONE )
  {
    for( size_t h = 0; h < log.size(); ++h )
    {
      for( int single = 0; single < 2; ++single )
      {
        vp::note( "stopped at hook " + log[h] + ( single ? ", single snapshot" : "" ) );
        clean();
        const Run c = run( single ? o0 : o1, sc, log[h] );
        VP_CHECK( c.rc == 42, "the run to be stopped ended with code " << c.rc );
        VP_CHECK( c.log == std::vector<string>( log.begin(), log.begin() + long( h ) + 1 ), "the stopped run's hooks ran as [" << joined( c.log ) << "]" );
        const unsigned reached = h == 0 ? first : log[h] == "endOfSim" ? steps : first + unsigned( h - 1 ) / 2;   // steps completed and saved
        size_t have = 0; if( h > 0 ) { while( have < at.size() && at[have] <= reached ) { ++have; } }
        if( have == 0 ) { VP_CHECK( c.files.empty(), "snapshots before the start: " << names( c.files ) ); continue; }
        string last;
        if( single )
        {
          VP_CHECK( c.files.size() == 1 && c.files.count( "serial.bin" ), "the stopped run left " << names( c.files ) );
          VP_CHECK( c.files.at( "serial.bin" ).find( ref.states[at[have - 1] - first] ) != string::npos, "stopped at " << log[h] << ", the snapshot does not hold the state after step " << at[have - 1] );
          last = "serial.bin";
        }
        else
        {
          Files w; for( size_t i = 0; i < have; ++i ) { w[ns[i]] = u.files.at( ns[i] ); }
          sameFiles( c.files, w, "stopped at " + log[h] );
          last = ns[have - 1];
        }
        const Run r = run( { "-r", last }, sc );     // in the same directory
        VP_CHECK( r.rc == 0, "the run resumed after stopping ended with code " << r.rc );
        sameFiles( r.files, single ? v.files : u.files, "stopped at " + log[h] + " and resumed" );
        sameLog( r.log, wantLog( p, at[have - 1], dt, false ), sc, "stopped at " + log[h] + " and resumed" );
        vp::outcome( "interrupted and resumed" );
      }
    }
  }
  // snapshots that cannot be written
  if( steps <= 6 )
  {
    for( size_t j = 0; j < ns.size(); ++j )
    {
      for( int full = 0; full < 2; ++full )
      {
        vp::note( ns[j] + ( full ? " on a full device" : " in the way of a directory" ) );
        clean();
        const string f = workDir() + "/" + ns[j];
        if( ( full ? symlink( "/dev/full", f.c_str() ) : mkdir( f.c_str(), 0755 ) ) != 0 ) { std::abort(); }
        const Run r = run( o1, sc );
        VP_CHECK( r.rc == EXIT_FAILURE, "snapshot " << ns[j] << " could not be written, but the run ended with code " << r.rc );
        Files w; for( size_t i = 0; i < j; ++i ) { w[ns[i]] = u.files.at( ns[i] ); }
        sameFiles( r.files, w, "snapshot " + ns[j] + " could not be written" );
        vp::outcome( "unwritable snapshots" );
      }
    }
  }
  vp::outcome( "complete runs" );
}

// ---- incomplete snapshots ----
static void torn( const CliScene& s, const string& integrator, Script sc )
{
  clean();
  spill( sceneFile(), sceneText( s, integrator, "1/100", endTime( 2, 0.01 ), sc ) );
  const Run u = run( { sceneFile(), "-s", "1" }, sc );
  VP_CHECK( u.rc == 0 && u.files.size() == 3, "the run ended with code " << u.rc );
  const string whole = u.files.at( "serial_1.bin" );
  const size_t stride = vp::thorough() ? 1 : 3;
  for( size_t n = 0; n < whole.size(); n += ( n < 64 || n + 64 > whole.size() ) ? 1 : stride )
  {
    vp::note( "first " + std::to_string( n ) + " of " + std::to_string( whole.size() ) + " bytes" );
    clean();
    const Run r = resume( whole.substr( 0, n ), sc );
    VP_CHECK( r.rc == EXIT_FAILURE, "resuming from the first " << n << " of " << whole.size() << " bytes of a snapshot ended with code " << r.rc << " and files " << names( r.files ) );
    VP_CHECK( r.files.empty() && r.log.empty(), "resuming from the first " << n << " of " << whole.size() << " bytes of a snapshot left " << names( r.files ) << " and ran " << joined( r.log ) );
    vp::outcome( "incomplete snapshots" );
  }
  for( unsigned b = 0; b < 32; ++b )
  {
    vp::note( "first bytes changed in bit " + std::to_string( b ) );
    clean();
    string t = whole; t[b / 8] = char( t[b / 8] ^ ( 1 << ( b % 8 ) ) );
    const Run r = resume( t, sc );
    VP_CHECK( r.rc == EXIT_FAILURE && r.files.empty() && r.log.empty(), "a file that does not start like a snapshot was resumed from (code " << r.rc << ")" );
    vp::outcome( "foreign files" );
  }
  // a limit on the size of files: the snapshot is written whole, or the run fails
  size_t most = 0; for( const auto& f : u.files ) { most = std::max( most, f.second.size() ); }
  for( size_t n = 0; n < most; n += ( n + 16 > most ) ? 1 : 97 )
  {
    vp::note( "files limited to " + std::to_string( n ) + " bytes" );
    clean();
    const Run r = run( { sceneFile(), "-s", "0" }, NONE == sc ? sc : NONE, "", long( n ) );
    VP_CHECK( r.rc == EXIT_FAILURE, "with files limited to " << n << " bytes (a snapshot has " << most << ") the run ended with code " << r.rc );
    vp::outcome( "snapshots cut short while writing" );
  }
}

// ---- options ----
struct Freq { const char* dts; long n, d; };
static void frequencies( const Freq& f, unsigned hz )
{
  clean();
  const double dt = double( f.n ) / double( f.d );
  const bool ok = f.d % ( f.n * long( hz ) ) == 0;
  const unsigned every = ok ? unsigned( f.d / ( f.n * long( hz ) ) ) : 0;
  const unsigned steps = ok && every <= 20 ? 2 * every + 1 : 2;
  const CliScene s = scenes()[0];
  spill( sceneFile(), sceneText( s, INTEGRATORS[0], f.dts, endTime( steps, dt ), NONE ) );
  const Run r = run( { sceneFile(), "-f", std::to_string( hz ), "-s", "1" }, NONE );
  if( !ok )
  {
    VP_CHECK( r.rc == EXIT_FAILURE && r.files.empty(), hz << " snapshots per second do not fit the time step " << f.dts << ", but the run ended with code " << r.rc << " and " << names( r.files ) );
    vp::outcome( "frequencies refused" ); return;
  }
  const Ref ref = reference( sceneFile(), NONE, steps );
  VP_CHECK( ref.ok, "the reference could not be computed" );
  checkSnapshots( r, Plan{ 0, steps, every }, ref );
  vp::outcome( "frequencies accepted" );
}
static void lengths( unsigned steps, unsigned hz, unsigned every, bool by_option )
{
  clean();
  const CliScene s = scenes()[0];
  spill( sceneFile(), sceneText( s, INTEGRATORS[0], "1/100", by_option ? ( steps % 2 ? "" : "0.5" ) : endTime( steps, 0.01 ), NONE ) );
  std::vector<string> a{ sceneFile(), "-s", "1", "-f", std::to_string( hz ) };
  if( by_option ) { if( steps % 2 ) { a.insert( a.begin(), { "-e", endTime( steps, 0.01 ) } ); } else { a.push_back( "--end=" + endTime( steps, 0.01 ) ); } }
  const Run r = run( a, NONE );
  const Ref ref = reference( sceneFile(), NONE, steps );
  VP_CHECK( ref.ok, "the reference could not be computed" );
  checkSnapshots( r, Plan{ 0, steps, every }, ref );
  vp::outcome( "lengths" );
}
static void options()
{
  const CliScene s = scenes()[0];
  const string f = sceneFile();
  struct O { std::vector<string> a; const char* what; };
  std::vector<O> bad{
    { {}, "no scene" }, { { "-s", "1" }, "no scene" }, { { f, f }, "two scenes" }, { { sceneDir() + "/absent.xml" }, "a missing scene" }, { { sceneDir() + "/broken.xml", "-s", "1" }, "a broken scene" },
    { { "-r", sceneDir() + "/absent.bin" }, "a missing snapshot" }, { { "-r", f }, "a scene in place of a snapshot" }, { { "-r" }, "an option without value" }, { { f, "-s" }, "an option without value" }, { { f, "-e" }, "an option without value" }, { { f, "-f" }, "an option without value" },
    { { f, "-q" }, "an unknown option" }, { { f, "--sparkles" }, "an unknown option" }, { { f, "--end" }, "an option without value" } };
  for( const char* v : { "0", "-1", "-0.5", "x", "", "nan" } ) { if( string( v ) == "nan" ) { continue; } bad.push_back( { { f, "-s", "1", "-e", v }, "a faulty end time" } ); bad.push_back( { { "--end", v, f, "-s", "1" }, "a faulty end time" } ); }
  for( const char* v : { "x", "", "2", "-1", "yes" } ) { bad.push_back( { { f, "-s", v }, "a faulty snapshot mode" } ); bad.push_back( { { string( "--serialize_snapshots=" ) + v, f }, "a faulty snapshot mode" } ); }
  for( const char* v : { "x", "", "-1", "-50", "3", "101", "200" } ) { bad.push_back( { { f, "-s", "1", "-f", v }, "a faulty frequency" } ); bad.push_back( { { "--frequency", v, "-s", "0", f }, "a faulty frequency" } ); }
  for( const O& o : bad )
  {
    vp::runCase( [&]() { return string( "options: " ) + o.what + ": " + joined( o.a ); }, [&]()
    {
      clean(); spill( f, sceneText( s, INTEGRATORS[0], "1/100", "0.025", WATCH ) ); spill( sceneDir() + "/broken.xml", string( "<" ) + ROOT + "><integrator" );
      const Run r = run( o.a, WATCH );
      VP_CHECK( r.rc == EXIT_FAILURE, o.what << " (" << joined( o.a ) << "): the run ended with code " << r.rc );
      VP_CHECK( r.files.empty(), o.what << ": files were written: " << names( r.files ) );
      VP_CHECK( std::find( r.log.begin(), r.log.end(), "endOfSim" ) == r.log.end(), o.what << ": hooks ran: " << joined( r.log ) );
      vp::outcome( "faulty options" );
    } );
  }
  for( const std::vector<string>& a : std::vector<std::vector<string>>{ { "-h" }, { "--help" }, { f, "-h" }, { "-h", f, "-s", "1" }, { "-h", "-r", f } } )
  {
    vp::runCase( [&]() { return "options: help: " + joined( a ); }, [&]()
    {
      clean(); spill( f, sceneText( s, INTEGRATORS[0], "1/100", "0.025", WATCH ) );
      const Run r = run( a, WATCH );
      VP_CHECK( r.rc == 0 && r.files.empty() && r.log.empty(), "asked for help, the program ended with code " << r.rc << ", files " << names( r.files ) << " and hooks " << joined( r.log ) );
      vp::outcome( "help" );
    } );
  }
  // the options in every order
  std::vector<int> ord{ 0, 1, 2, 3 };
  do
  {
    vp::runCase( [&]() { return "options: order " + vp::str( ord ); }, [&]()
    {
      clean(); spill( f, sceneText( s, INTEGRATORS[0], "0.01", "0.5", WATCH ) );
      const std::vector<std::vector<string>> piece{ { f }, { "-s", "1" }, { "-e", endTime( 5, 0.01 ) }, { "-f50" } };
      std::vector<string> a; for( int i : ord ) { a.insert( a.end(), piece[size_t( i )].begin(), piece[size_t( i )].end() ); }
      const Run r = run( a, WATCH );
      const Ref ref = reference( f, WATCH, 5 );
      VP_CHECK( ref.ok, "the reference could not be computed" );
      checkSnapshots( r, Plan{ 0, 5, 2 }, ref );
      sameLog( r.log, wantLog( Plan{ 0, 5, 2 }, 0, 0.01, true ), WATCH, "options in order " + vp::str( ord ) );
      vp::outcome( "option orders" );
    } );
  }
  while( std::next_permutation( ord.begin(), ord.end() ) );
}

// ---- the scenes shipped with the repository ----
static void shipped()
{
  const char* repo = std::getenv( "VERIF_REPO" );
  const string dir = string( repo ? repo : "/repo" ) + "/assets/" +
#if defined(SYS_BALL2D)
    "ball2d";
#elif defined(SYS_RB2D)
    "rigidbody2d";
#else
    "rigidbody3d";
#endif
  std::vector<string> files;
  std::function<void( const string& )> walk = [&]( const string& d )
  {
    for( const string& n : list( d ) )
    {
      const string f = d + "/" + n;
      if( n[0] == '.' ) { continue; }
      if( n.size() > 4 && n.substr( n.size() - 4 ) == ".xml" ) { files.push_back( f ); } else if( n.find( '.' ) == string::npos ) { walk( f ); }
    }
  };
  walk( dir );
  for( const string& f : files )
  {
    vp::runCase( [&]() { return "shipped scene " + f; }, [&]()
    {
      const string t = slurp( f );
      for( const char* absent : { "ipopt", "\"mesh\"", "jacobi", "<scripting", "ql_vp" } ) { if( t.find( absent ) != string::npos ) { vp::outcome( "shipped scenes that need something missing" ); return; } }
      const size_t at = t.find( "dt=\"" ); if( at == string::npos || t.find( ROOT ) == string::npos ) { vp::outcome( "shipped scenes that need something missing" ); return; }
      const string dts = t.substr( at + 4, t.find( '"', at + 4 ) - at - 4 );
      const size_t sl = dts.find( '/' );
      const double dt = sl == string::npos ? std::stod( dts ) : std::stod( dts ) / std::stod( dts.substr( sl + 1 ) );
      const unsigned steps = vp::thorough() ? 12 : 4;
      clean();
      const Ref ref = reference( f, NONE, steps );
      if( !ref.ok ) { vp::outcome( "shipped scenes that cannot be stepped" ); return; }
      clean();
      const Run u = run( { f, "-s", "1", "-e", endTime( steps, dt ) }, NONE );
      const std::vector<string> ns = checkSnapshots( u, Plan{ 0, steps, 1 }, ref );
      for( size_t j = 0; j < ns.size(); ++j )
      {
        clean();
        const Run r = resume( u.files.at( ns[j] ), NONE );
        VP_CHECK( r.rc == 0, "the resumed run ended with code " << r.rc );
        Files w; for( size_t i = j; i < ns.size(); ++i ) { w[ns[i]] = u.files.at( ns[i] ); }
        sameFiles( r.files, w, "resumed from " + ns[j] );
      }
      vp::outcome( "shipped scenes" );
    } );
  }
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  const std::vector<CliScene> S = scenes();
  options();
  shipped();
  for( unsigned n = 1; n <= ( vp::thorough() ? 230u : 112u ); n += n < 24 || n > 96 ? 1 : 7 )
  {
    for( int opt = 0; opt < 2; ++opt ) { for( unsigned every : { 1u, 2u, 5u } ) { vp::runCase( [&]() { return "length " + std::to_string( n ) + " steps, saved every " + std::to_string( every ) + ( opt ? ", -e" : "" ); }, [&]() { lengths( n, 100 / every, every, opt != 0 ); } ); } }
  }
  for( const Freq& f : { Freq{ "1/100", 1, 100 }, Freq{ "0.01", 1, 100 }, Freq{ "1/60", 1, 60 }, Freq{ "1/64", 1, 64 }, Freq{ "3/120", 1, 40 }, Freq{ "2/75", 2, 75 } } )
  {
    for( unsigned hz = 1; hz <= 130; ++hz ) { vp::runCase( [&]() { return string( "dt " ) + f.dts + " frequency " + std::to_string( hz ); }, [&]() { frequencies( f, hz ); } ); }
  }
  for( const CliScene& s : S )
  {
    for( const char* integ : INTEGRATORS )
    {
#if defined(SYS_RB3D)
      const std::vector<Script> scripts{ NONE, WATCH, EDIT, SKIP };
#else
      const std::vector<Script> scripts{ NONE, WATCH, EDIT };
#endif
      for( Script sc : scripts )
      {
        if( sc != NONE && s.body.find( "portal" ) != string::npos && sc == EDIT ) { continue; }
        if( s.scheme.find( "symplectic_euler" ) != string::npos && string( integ ) == "verlet" ) { continue; }
        struct M { unsigned hz, every; };
        for( const M& m : { M{ 0, 1 }, M{ 100, 1 }, M{ 50, 2 }, M{ 25, 4 }, M{ 20, 5 } } )
        {
          if( !vp::thorough() && sc == WATCH && m.every != 1 ) { continue; }
          const unsigned steps = vp::thorough() ? 9 : 6;
          vp::runCase( [&]() { return "run: " + s.name + ", " + integ + ", script " + std::to_string( sc ) + ", -f " + std::to_string( m.hz ); }, [&]() { fullRun( s, integ, "1/100", 0.01, steps, m.hz, m.every, sc ); } );
        }
      }
    }
  }
  for( const CliScene& s : S )
  {
    for( Script sc : { NONE, WATCH } ) { vp::runCase( [&]() { return "incomplete snapshots: " + s.name + ( sc ? ", scripted" : "" ); }, [&]() { torn( s, INTEGRATORS[0], sc ); } ); }
  }
  return vp::finish();
}
