// P17: scripting hooks. The repository's real scripting layer (compiled with USE_PYTHON against the in-process stand-in under
// shim/python) drives the real simulators; scripts are C++ functions. Every subset of hooks is run over every scheme and the calls
// are compared with what a script may rely on; every assignment of coefficients to contacts is compared with scenes that hold one
// contact each; every edit a script can make is compared with the same edit made between steps.
#include "maps.h"
using namespace sys;

namespace
{
enum Kind { PLAIN, IMPACT, FRICTION };
struct How { Kind kind; int op, fs, ifm, um; double e, mu; bool warm; };
std::string show( const How& h )
{
  std::string s = umapName( h.um );
  if( h.kind == IMPACT ) { s += std::string( " " ) + ( h.op == 9 ? "lcp_ql" : iopName( h.op ) ) + ( h.warm ? " warm" : "" ) + " restitution " + std::to_string( h.e ); }
  if( h.kind == FRICTION ) { s += std::string( " " ) + fsName( h.fs ) + " " + ifmName( h.ifm ) + " restitution " + std::to_string( h.e ) + " friction " + std::to_string( h.mu ); }
  return s;
}
const Dt DT( 1, 64 );

std::unique_ptr<ImpactOperator> makeOp( int i )
{
  const LCPOperatorAPGD apgd( 1.0e-6, 5000 );
  switch( i )
  {
    case 0: return std::unique_ptr<ImpactOperator>( new GaussSeidelOperator( 1.0e-9 ) );
    case 1: return std::unique_ptr<ImpactOperator>( new GROperator( 1.0e-4, apgd ) );
    case 2: return std::unique_ptr<ImpactOperator>( new GRROperator( GROperator( 1.0e-4, apgd ), apgd ) );
    case 3: return apgd.clone();
    default: return std::unique_ptr<ImpactOperator>( new LCPOperatorQL( 1.0e-9 ) );
  }
}

// What a solver or a hook was given: the contacts, and their coefficients
struct Ask { std::vector<std::string> contacts; VX cor, mu; };
std::string nameOf( const Constraint& c ) { std::pair<int,int> b( -7, -7 ); c.getBodyIndices( b ); return c.name() + " " + std::to_string( b.first ) + " " + std::to_string( b.second ); }
std::vector<std::string> namesOf( const Cons& cs ) { std::vector<std::string> r; for( const auto& c : cs ) { r.push_back( nameOf( *c ) ); } return r; }
std::string list( const std::vector<std::string>& v ) { std::string r = "["; for( const auto& s : v ) { r += s + "; "; } return r + "]"; }
std::vector<Ask>* SOLVES = nullptr;

class RecOp final : public ImpactOperator
{
public:
  explicit RecOp( std::unique_ptr<ImpactOperator> op ) : m( std::move( op ) ) {}
  virtual void flow( const std::vector<std::unique_ptr<Constraint>>& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha ) override
  {
    if( SOLVES ) { SOLVES->push_back( Ask{ namesOf( cons ), CoR, VX() } ); }
    m->flow( cons, M, Minv, q0, v0, v0F, N, Q, nrel, CoR, alpha );
  }
  virtual std::string name() const override { return m->name(); }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new RecOp( m->clone() ) ); }
  virtual void serialize( std::ostream& o ) const override { m->serialize( o ); }
private:
  std::unique_ptr<ImpactOperator> m;
};
class RecSolver final : public FrictionSolver
{
public:
  explicit RecSolver( std::unique_ptr<FrictionSolver> s ) : m( std::move( s ) ) {}
  virtual void solve( const unsigned iteration, const scalar& dt, const FlowableSystem& fs, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& CoR, const VectorXs& mu, const VectorXs& q0, const VectorXs& v0, std::vector<std::unique_ptr<Constraint>>& active_set, const MatrixXXsc& contact_bases, const VectorXs& nrel_extra, const VectorXs& drel_extra, const unsigned max_iters, const scalar& tol, VectorXs& f, VectorXs& alpha, VectorXs& beta, VectorXs& v2, bool& solve_succeeded, scalar& error ) override
  {
    if( SOLVES ) { SOLVES->push_back( Ask{ namesOf( active_set ), CoR, mu } ); }
    m->solve( iteration, dt, fs, M, Minv, CoR, mu, q0, v0, active_set, contact_bases, nrel_extra, drel_extra, max_iters, tol, f, alpha, beta, v2, solve_succeeded, error );
  }
  virtual unsigned numFrictionImpulsesPerNormal( const unsigned d ) const override { return m->numFrictionImpulsesPerNormal( d ); }
  virtual void serialize( std::ostream& o ) const override { m->serialize( o ); }
  virtual std::string name() const override { return m->name(); }
private:
  std::unique_ptr<FrictionSolver> m;
};

// A simulation with its scheme, stepped under a script
struct Rig
{
  Sim s; std::unique_ptr<UnconstrainedMap> u; ImpactMap im; std::unique_ptr<ImpactOperator> op; std::unique_ptr<FrictionSolver> fs; std::unique_ptr<ImpactFrictionMap> map; How h;
  Rig( const Scene& sc, const How& how ) : s( build( sc ) ), u( umap( how.um ) ), im( how.warm ), h( how )
  {
    if( h.kind == IMPACT ) { op.reset( new RecOp( makeOp( h.op ) ) ); }
    if( h.kind == FRICTION ) { fs.reset( new RecSolver( fsolver( h.fs, h.fs == SOBOGUS ? 1.0e-8 : 1.0e-6, 1, 8, 5000, 1.0e-5 ) ) ); map = ifmap( h.ifm, 1.0e-11, h.fs == SOBOGUS ? 3000 : 40 ); }
  }
  void step( PythonScripting& cb, unsigned it, const Dt& dt = DT )
  {
    if( h.kind == PLAIN ) { s.flow( cb, it, dt, *u ); }
    if( h.kind == IMPACT )
    {
#if defined(SYS_RB3D)
      s.flow( cb, it, dt, *u, *op, h.e );
#else
      s.flow( cb, it, dt, *u, *op, h.e, im );
#endif
    }
    if( h.kind == FRICTION ) { s.flow( cb, it, dt, *u, h.e, h.mu, *fs, *map ); }
    vp::transition();
  }
  // the same step at the level of the contact schemes, with any script object
  void solve( ScriptingCallback& cb, unsigned it, VX& q1, VX& v1 )
  {
    const double dt = double( DT );
    q1.resize( q( s ).size() ); v1.resize( v( s ).size() );
    if( h.kind == IMPACT ) { im.flow( cb, fsys( s ), csys( s ), *u, *op, it, dt, h.e, q( s ), v( s ), q1, v1 ); }
    else { map->flow( cb, fsys( s ), csys( s ), *u, *fs, it, dt, h.e, h.mu, q( s ), v( s ), q1, v1 ); }
    vp::transition();
  }
};

// ---- scripts ----
const char* MODULE = "script";
std::map<std::string,std::function<PyObject*()>>& hooks() { return fakepy::modules()[MODULE].hooks; }
double number( const std::string& f, const std::vector<PyObject*>& a = {} ) { return fakepy::asNumber( fakepy::call( f, a ) ); }
VX array( const std::string& f )
{
  PyObject* o = fakepy::call( f );
  VP_CHECK( o->kind == PyObject::ARRAY && o->dims.size() == 1 && o->descr.kind == 'f' && o->descr.elsize == 8, f << " does not return a one-dimensional array of numbers" );
  const VX r = Eigen::Map<VX>( static_cast<double*>( o->data ), o->dims[0] );
  fakepy::release( o );
  return r;
}
void store( const std::string& f, const VX& x )
{
  PyObject* o = fakepy::call( f );
  VP_CHECK( o->kind == PyObject::ARRAY && o->dims.size() == 1 && o->dims[0] == x.size(), f << " has the wrong size" );
  Eigen::Map<VX>( static_cast<double*>( o->data ), o->dims[0] ) = x;
  fakepy::release( o );
}
std::vector<std::string> scriptContacts()
{
  std::vector<std::string> r;
  const int n = int( number( "numCollisions" ) );
  for( int i = 0; i < n; ++i )
  {
    const std::string t = fakepy::asString( fakepy::call( "collisionType", { fakepy::integer( i ) } ) );
    PyObject* o = fakepy::call( "collisionIndices", { fakepy::integer( i ) } );
    VP_CHECK( o->kind == PyObject::ARRAY && o->dims.size() == 1 && o->dims[0] == 2 && o->descr.kind == 'i', "collisionIndices does not return two integers" );
    const int* d = static_cast<int*>( o->data );
    r.push_back( t + " " + std::to_string( d[0] ) + " " + std::to_string( d[1] ) );
    fakepy::release( o );
  }
  return r;
}
constexpr bool CAN_ASK = AD != 1;   // the 2D rigid-body module offers no access to contacts or coefficients

struct Call { std::string hook; unsigned it = 0; double dt = 0; std::string image; Ask ask; };

Body round( const VD& x, double r, const VD& vv, int w, double m )
{
  Body b; b.x = x; b.dim = { { r, r, r } }; b.m = m; b.I = 0.4 * m * r * r; b.v = vv;
  if( AD ) { if( w == 1 ) { b.w = { { 1.5, D == 3 ? -1.0 : 0.0, D == 3 ? 0.25 : 0.0 } }; } if( w == 2 ) { b.w = { { -2.0, 0.0, D == 3 ? 1.0 : 0.0 } }; } }
  return b;
}

struct Named { std::string name; Scene s; bool contact, round, sliding; };
std::vector<Named> scenes()
{
  std::vector<Named> r;
  Scene s; s.gravity = true; s.g = vd( 0.5, -6.0, 0.25 );
  s.b = { round( vd( 0, 0 ), 0.5, vd( 0.25, -1, 0.5 ), 1, 1.0 ), round( vd( 3, 2, 1 ), 0.5, vd( -0.5, 0.75 ), 2, 2.5 ), round( vd( -3, 1, -1 ), 0.5, vd( 1, 0, 0 ), 0, 0.75 ) };
  r.push_back( Named{ "apart", s, false, true, false } );
  Scene t = s; t.b[1].x = vd( 0.99, 0 ); t.b[1].v = vd( -1, 0.25 );
  r.push_back( Named{ "pair touching and one apart", t, true, true, false } );
  t = s; t.b[1].x = vd( 1.03, 0 ); t.b[1].v = vd( -1.5, -0.5 ); t.b[0].v = vd( 0.75, -0.5 );
  r.push_back( Named{ "pair that meets later", t, true, true, false } );
  t = s; Plane p; p.n = vd( 0, 1 ); p.x = vd( 0, -0.495 ); t.planes = { p }; p.n = vd( 1, 0 ); p.x = vd( -3.49, 0 ); t.planes.push_back( p ); t.b[2].v = vd( -1, 0.25 );
  r.push_back( Named{ "on two planes", t, true, true, false } );
  if( AD != 1 ) { Round d; d.x = vd( 0, 27 ); d.axis = vd( 0, 0, 1 ); d.r = 27.505; t = s; t.rounds = { d }; r.push_back( Named{ "in a drum", t, true, true, false } ); }
  for( int sl = 0; sl < ( D == 2 ? 2 : 1 ); ++sl )
  {
    Portal q; q.xa = vd( -3.25, 0 ); q.na = vd( 1, 0 ); q.xb = vd( 4, 0 ); q.nb = vd( -1, 0 ); if( sl ) { q.sliding = true; q.speed = 0.5; q.bounds = 4.0; }
    t = s; t.portals = { q }; t.b[1].x = vd( 3.52, 1.02 ); t.b[2].v = vd( -8, 0 ); t.b[2].x = vd( -3.2, 1 );
    r.push_back( Named{ sl ? "across a sliding boundary" : "across a boundary", t, true, true, sl != 0 } );
  }
  return r;
}
std::vector<How> hows( const Scene& sc, bool all )
{
  std::vector<How> hs;
  for( int um = 0; um < NUMAPS; ++um )
  {
    hs.push_back( How{ PLAIN, 0, 0, 0, um, 0, 0, false } );
    for( double e : { 0.0, 0.5 } )
    {
      if( !all && e > 0 ) { continue; }
      for( int op : { 0, 1, 2, 3, 9 } )
      {
        if( op == 0 && ( AD == 1 || !sc.rounds.empty() || ( D == 2 && !sc.planes.empty() ) || ( D == 3 && !sc.portals.empty() ) ) ) { continue; }   // not implemented there
        if( ( op == 1 || op == 2 ) && e > 0.0 && sc.b.size() > 3 ) { continue; }
        for( int warm = 0; warm < 2; ++warm )
        {
          if( warm && ( op != 3 || um || !sc.portals.empty() ) ) { continue; }
          hs.push_back( How{ IMPACT, op, 0, 0, um, e, 0, warm != 0 } );
        }
      }
      for( int im : { int( GEO ), int( GEO_N ), int( GEO_NF ), int( STAB ), int( SE ), int( SE_N ), int( SE_NF ) } )
      {
        if( ifmIsSE( im ) && ( e > 0.0 || AD == 1 || !sc.portals.empty() ) ) { continue; }
        if( D == 3 && im == GEO_NF ) { continue; }
        if( ifmCaches( im ) && !sc.portals.empty() ) { continue; }
        hs.push_back( How{ FRICTION, 0, SOBOGUS, im, um, e, 0.5, false } );
      }
      if( D == 2 && um == 0 && sc.portals.empty() && !( AD == 1 && !sc.planes.empty() ) ) { hs.push_back( How{ FRICTION, 0, STAGGERED, GEO, um, e, 0.5, false } ); }
      if( D == 3 && um == 1 && sc.portals.empty() && sc.planes.empty() && sc.rounds.empty() ) { hs.push_back( How{ FRICTION, 0, GRRF, GEO, um, e, 0.5, false } ); }
    }
  }
  return hs;
}

// The calls of a run under a script that defines the hooks in the mask, and that does nothing in them
const char* HOOKS[6] = { "startOfSim", "endOfSim", "startOfStep", "endOfStep", "frictionCoefficient", "restitutionCoefficient" };
Sim* CURRENT = nullptr;
void define( int mask, std::vector<Call>& log )
{
  hooks().clear();
  for( int k = 0; k < 6; ++k )
  {
    if( !( mask >> k & 1 ) ) { continue; }
    hooks()[HOOKS[k]] = [k, &log]
    {
      Call c; c.hook = HOOKS[k];
      if( k == 2 || k == 3 )
      {
        c.it = unsigned( number( "nextIteration" ) ); c.dt = number( "timestep" );
        if( CAN_ASK )
        {
          VP_CHECK( sys::same( array( "configuration" ), q( *CURRENT ) ) && sys::same( array( "velocity" ), v( *CURRENT ) ), c.hook << " does not see the simulation's state" );
        }
      }
      if( k < 4 ) { c.image = image( *CURRENT ); }
      if( k >= 4 && CAN_ASK ) { c.ask.contacts = scriptContacts(); if( k == 4 ) { c.ask.mu = array( "mu" ); } else { c.ask.cor = array( "cor" ); } }
      log.push_back( c );
      return fakepy::none();
    };
  }
}
std::string order( const std::vector<Call>& log ) { std::string r; for( const Call& c : log ) { r += c.hook + " "; } return r; }

void orderOf()
{
  for( const Named& n : scenes() ) { for( const How& h : hows( n.s, true ) )
  {
    vp::runCase( [&]{ return "calls: " + n.name + ", " + show( h ); }, [&]
    {
      const unsigned START = 3; const int STEPS = vp::thorough() ? 8 : 4;
      // the unscripted run
      std::vector<std::string> plain; std::vector<std::vector<Ask>> solves;
      {
        Rig r( n.s, h ); PythonScripting none; CURRENT = &r.s;
        plain.push_back( image( r.s ) );
        for( int k = 0; k < STEPS; ++k ) { std::vector<Ask> a; SOLVES = &a; r.step( none, START + unsigned( k ) ); SOLVES = nullptr; plain.push_back( image( r.s ) ); solves.push_back( a ); vp::state( vp::hashStr( plain.back() ) ); }
      }
      bool any = false; for( const auto& a : solves ) { any = any || !a.empty(); }
      vp::outcome( any ? "with contact" : "without contact" );
      for( int mask = 0; mask < 64; ++mask )
      {
        vp::note( "hooks defined: " + std::to_string( mask ) );
        std::vector<Call> log; define( mask, log );
        Rig r( n.s, h ); CURRENT = &r.s;
        PythonScripting cb( "some/path", MODULE );
        if( mask & 1 ) {} // start-of-simulation hooks are called by the drivers, through the same object
        cb.setState( r.s.state() );
        cb.startOfSimCallback();
        VP_CHECK( log.size() == size_t( mask & 1 ) && ( !( mask & 1 ) || log[0].hook == "startOfSim" ), "the start-of-simulation hook was called wrongly: " << order( log ) );
        cb.forgetState();
        for( int k = 0; k < STEPS; ++k )
        {
          log.clear();
          const std::string before = image( r.s );
          std::vector<Ask> a; SOLVES = &a;
          r.step( cb, START + unsigned( k ) );
          SOLVES = nullptr;
          const std::string after = image( r.s );
          VP_CHECK( after == plain[size_t( k ) + 1], "a script that does nothing changes step " << k );
          VP_CHECK( a.size() == solves[size_t( k )].size(), "step " << k << " solves " << a.size() << " times instead of " << solves[size_t( k )].size() );
          // expected calls
          size_t at = 0;
          auto take = [&]( const char* hook ) -> const Call& { VP_CHECK( at < log.size() && log[at].hook == hook, "step " << k << ": " << hook << " expected at position " << at << " of the calls " << order( log ) ); return log[at++]; };
          if( mask & 4 )
          {
            const Call& c = take( "startOfStep" );
            VP_CHECK( c.it == START + unsigned( k ) && c.dt == double( DT ), "start of step " << START + unsigned( k ) << " was announced as step " << c.it << " of length " << c.dt );
            VP_CHECK( c.image == before, "step " << k << ": something had moved before the start-of-step hook" );
          }
          const bool contact = !a.empty();
          if( contact )
          {
            const int wanted = ( ( mask & 16 ) && h.kind == FRICTION ? 1 : 0 ) + ( mask & 32 ? 1 : 0 );
            int f = 0, c = 0;
            for( int i = 0; i < wanted; ++i )
            {
              VP_CHECK( at < log.size() && ( log[at].hook == HOOKS[4] || log[at].hook == HOOKS[5] ), "step " << k << ": coefficients not asked for: " << order( log ) );
              const bool fr = log[at].hook == HOOKS[4];
              ( fr ? f : c )++;
              if( CAN_ASK )
              {
                const Ask& q = log[at].ask;
                VP_CHECK( q.contacts == a[0].contacts, "step " << k << ": " << log[at].hook << " was asked about " << list( q.contacts ) << " but the contacts solved are " << list( a[0].contacts ) );
                const VX& x = fr ? q.mu : q.cor;
                VP_CHECK( x.size() == long( q.contacts.size() ) && ( x.array() == ( fr ? h.mu : h.e ) ).all(), "step " << k << ": " << log[at].hook << " starts from " << vp::vstr( x ) );
              }
              ++at;
            }
            VP_CHECK( f == ( ( mask & 16 ) && h.kind == FRICTION ? 1 : 0 ) && c == ( mask & 32 ? 1 : 0 ), "step " << k << ": friction asked " << f << " times and restitution " << c << " times: " << order( log ) );
            VP_CHECK( ( a[0].cor.array() == h.e ).all() && ( h.kind != FRICTION || ( a[0].mu.array() == h.mu ).all() ), "step " << k << ": the scene's coefficients are not the ones used" );
          }
          if( mask & 8 )
          {
            const Call& c = take( "endOfStep" );
            VP_CHECK( c.it == START + unsigned( k ) && c.dt == double( DT ), "end of step " << START + unsigned( k ) << " was announced as step " << c.it << " of length " << c.dt );
            VP_CHECK( c.image == after, "step " << k << ": something moved after the end-of-step hook" );
          }
          VP_CHECK( at == log.size(), "step " << k << ": further calls: " << order( log ) );
        }
        log.clear();
        cb.setState( r.s.state() );
        cb.endOfSimCallback();
        VP_CHECK( log.size() == size_t( mask >> 1 & 1 ) && ( !( mask & 2 ) || log[0].hook == "endOfSim" ), "the end-of-simulation hook was called wrongly: " << order( log ) );
        cb.forgetState();
        vp::outcome( "hook subsets" );
      }
      // a script survives saving, restoring and swapping
      {
        std::vector<Call> log; define( 63, log );
        Rig r( n.s, h ); CURRENT = &r.s;
        PythonScripting first( "some/path", MODULE );
        std::vector<std::string> straight;
        for( int k = 0; k < STEPS; ++k ) { r.step( first, START + unsigned( k ) ); straight.push_back( order( log ) ); log.clear(); }
        for( int cut = 0; cut < STEPS; ++cut )
        {
          Rig o( n.s, h ); CURRENT = &o.s;
          std::unique_ptr<PythonScripting> cb( new PythonScripting( "some/path", MODULE ) );
          for( int k = 0; k < STEPS; ++k )
          {
            if( k == cut )
            {
              std::stringstream f; cb->serialize( f );
              cb.reset();
              PythonScripting back( f ), other;
              VP_CHECK( f.tellg() == f.tellp(), "restoring a script reads " << f.tellg() << " of " << f.tellp() << " bytes" );
              cb.reset( new PythonScripting ); swap( *cb, back ); swap( other, back );
            }
            log.clear();
            o.step( *cb, START + unsigned( k ) );
            VP_CHECK( order( log ) == straight[size_t( k )], "restored before step " << cut << ", in step " << k << " the script is called for " << order( log ) << " instead of " << straight[size_t( k )] );
          }
        }
        vp::outcome( "saved and restored" );
      }
      hooks().clear();
    } );
  } }
}

// ---- coefficients ----
// Up to four contacts between separate bodies: two pairs, one body on a plane, one against a second plane or drum
struct Group { Scene s; std::vector<int> bodies; };
class Giver final : public ScriptingCallback
{
public:
  std::function<void( const Cons&, VX& )> mu, cor; int nmu = 0, ncor = 0;
private:
  virtual void restitutionCoefficient( const Cons& c, VectorXs& x ) override { ++ncor; if( cor ) { cor( c, x ); } }
  virtual void frictionCoefficient( const Cons& c, VectorXs& x ) override { ++nmu; if( mu ) { mu( c, x ); } }
  virtual void startOfSim() override {}
  virtual void endOfSim() override {}
  virtual void startOfStep( const unsigned, const Rational<std::intmax_t>& ) override { vp::fail( "a contact scheme calls the start-of-step hook" ); }
  virtual void endOfStep( const unsigned, const Rational<std::intmax_t>& ) override { vp::fail( "a contact scheme calls the end-of-step hook" ); }
  virtual std::string name() const override { return "giver"; }
};

VX velOf( const VX& v, int i ) { VX r( D + AD ); r.head( D ) = lin( v, i ); if( AD ) { r.tail( AD ) = ang( v, i ); } return r; }

// body -> group, under a numbering of the bodies
// extra: further pairs, with patterns of assignments instead of all of them
void coefficients( int extra )
{
  const int G0 = D == 2 && AD == 1 ? 3 : 4, G = G0 + extra;
  std::vector<Scene> alone( static_cast<size_t>( G ) );
  auto floor = [&]( Scene& s ) { Plane p; p.n = vd( 0, 1 ); p.x = vd( 0, -10 ); s.planes.push_back( p ); p.n = vd( 1, 0 ); p.x = vd( -20, 0 ); s.planes.push_back( p ); };
  auto drum = [&]( Scene& s ) { if( AD != 1 ) { Round d; d.x = vd( 0, 0 ); d.axis = vd( 0, 0, 1 ); d.r = 40.0; s.rounds.push_back( d ); } };
  for( Scene& s : alone ) { floor( s ); drum( s ); }
  alone[0].b = { round( vd( 0, 0 ), 0.5, vd( 1, 0.25, 0.5 ), 1, 1.0 ), round( vd( 0.99, 0 ), 0.5, vd( -0.5, -0.5 ), 2, 2.5 ) };
  alone[1].b = { round( vd( 5, 5 ), 0.5, vd( 0.5, 1.25, 0 ), 0, 3.0 ), round( vd( 5.592, 5.792 ), 0.5, vd( 0.25, -0.75, 0.5 ), 1, 0.75 ) };
  alone[2].b = { round( vd( 10, -9.505 ), 0.5, vd( 1, -1.5, -0.5 ), 2, 1.5 ) };
  if( G0 == 4 ) { alone[3].b = { round( vd( 0, 39.505 ), 0.5, vd( 0.5, 2, 0.25 ), 1, 2.0 ) }; }
  for( int k = 0; k < extra; ++k ) { const VD x = vd( -15 + 2.5 * ( k % 8 ), 12 + 2.5 * ( k / 8 ) ); alone[size_t( G0 + k )].b = { round( x, 0.5, vd( 1, 0.25 * ( k % 3 ), 0.5 ), k % 3, 1.0 + k % 2 ), round( x + vd( 0.99, 0 ), 0.5, vd( -0.5, -0.5 ), 2, 2.5 ) }; }
  // numberings that interleave the groups
  std::vector<std::pair<int,int>> all; for( int g = 0; g < G; ++g ) { for( size_t i = 0; i < alone[size_t( g )].b.size(); ++i ) { all.emplace_back( g, int( i ) ); } }
  std::vector<std::vector<std::pair<int,int>>> orders = { all };
  { auto o = all; std::reverse( o.begin(), o.end() ); orders.push_back( o ); }
  { auto o = all; std::rotate( o.begin(), o.begin() + 1, o.end() ); std::swap( o[1], o[3] ); orders.push_back( o ); }
  if( vp::thorough() ) { auto o = all; std::rotate( o.begin(), o.begin() + 3, o.end() ); std::swap( o[0], o[2] ); orders.push_back( o ); }

  std::vector<How> hs;
  for( int um = 0; um < NUMAPS; ++um )
  {
    for( int op : { 0, 3, 9 } ) { if( op == 0 ) { continue; } hs.push_back( How{ IMPACT, op, 0, 0, um, 0.25, 0, false } ); }
    for( int im : { int( GEO ), int( GEO_N ), int( GEO_NF ), int( STAB ), int( SE ), int( SE_NF ) } )
    {
      if( ifmIsSE( im ) && AD == 1 ) { continue; }
      if( D == 3 && im == GEO_NF ) { continue; }
      hs.push_back( How{ FRICTION, 0, SOBOGUS, im, um, ifmIsSE( im ) ? 0.0 : 0.25, 0.3, false } );
    }
  }
  if( AD == 0 ) { hs.push_back( How{ FRICTION, 0, STAGGERED, GEO, 0, 0.25, 0.3, false } ); }

  for( const How& h : hs ) { for( size_t ord = 0; ord < orders.size(); ++ord )
  {
    vp::runCase( [&]{ return "coefficients: " + show( h ) + ", numbering " + std::to_string( ord ) + ( extra ? ", many groups" : "" ); }, [&]
    {
      const auto& o = orders[ord];
      Scene whole; floor( whole ); drum( whole );
      for( const auto& p : o ) { whole.b.push_back( alone[size_t( p.first )].b[size_t( p.second )] ); }
      auto groupOf = [&]( int body ) { return o[size_t( body )].first; };
      const std::vector<double> es = h.kind == FRICTION && ifmIsSE( h.ifm ) ? std::vector<double>{ -1.0 } : vp::thorough() || h.kind == IMPACT ? std::vector<double>{ -1.0, 0.0, 0.75 } : std::vector<double>{ -1.0, 0.75 };   // -1: left alone
      const std::vector<double> ms = h.kind == FRICTION ? ( vp::thorough() || es.size() == 1 ? std::vector<double>{ -1.0, 0.0, 1.0 } : std::vector<double>{ -1.0, 1.0 } ) : std::vector<double>{ -1.0 };
      const int per = int( es.size() * ms.size() );
      auto eOf = [&]( int c ) { return es[size_t( c ) % es.size()]; };
      auto mOf = [&]( int c ) { return ms[size_t( c ) / es.size()]; };
      // each group alone, with the coefficients as scene coefficients
      std::vector<std::vector<VX>> ref( static_cast<size_t>( G ) );
      PythonScripting none;
      for( int g = 0; g < G; ++g ) { for( int c = 0; c < per; ++c )
      {
        How k = h; if( eOf( c ) >= 0.0 ) { k.e = eOf( c ); } if( mOf( c ) >= 0.0 ) { k.mu = mOf( c ); }
        Rig r( alone[size_t( g )], k ); r.step( none, 1 );
        ref[size_t( g )].push_back( v( r.s ) );
        vp::state( hash( v( r.s ) ) );
      } }
      const double tol = h.kind == IMPACT && h.op == 3 ? 2.0e-4 : h.fs == STAGGERED ? 1.0e-3 : 1.0e-6;
      auto judge = [&]( const VX& v1, const std::vector<int>& d, const char* where )
      {
        for( size_t b = 0; b < o.size(); ++b )
        {
          const VX got = velOf( v1, int( b ) ), want = velOf( ref[size_t( o[b].first )][size_t( d[size_t( o[b].first )] )], o[b].second );
          VP_CHECK( ( got - want ).lpNorm<Eigen::Infinity>() <= tol, where << ": with restitution, friction " << eOf( d[size_t( o[b].first )] ) << ", " << mOf( d[size_t( o[b].first )] ) << " given for its contact (-1: none given), body " << b << " (of group " << o[b].first << ") leaves with " << vp::vstr( got ) << " instead of " << vp::vstr( want ) );
        }
      };
      vp::product( extra ? std::vector<int>{ per, vp::thorough() ? per : 2 } : std::vector<int>( size_t( G ), per ), [&]( const std::vector<int>& choice )
      {
        std::vector<int> d = choice; if( extra ) { d.clear(); for( int g = 0; g < G; ++g ) { d.push_back( ( choice[0] + g * ( choice[1] + 1 ) ) % per ); } }
        vp::note( "coefficients given " + vp::str( d ) );
        auto give = [&]( const Cons& cs, VX& x, bool friction )
        {
          VP_CHECK( x.size() == long( cs.size() ) && int( cs.size() ) == G, "asked for " << x.size() << " coefficients at " << cs.size() << " contacts where there are " << G );
          for( size_t i = 0; i < cs.size(); ++i )
          {
            std::pair<int,int> b; cs[i]->getBodyIndices( b );
            const int c = d[size_t( groupOf( b.first ) )];
            VP_CHECK( x( long( i ) ) == ( friction ? h.mu : h.e ), "before the script a coefficient is " << x( long( i ) ) );
            const double y = friction ? mOf( c ) : eOf( c ); if( y >= 0.0 ) { x( long( i ) ) = y; }
          }
        };
        Giver cb;
        cb.mu = [&]( const Cons& cs, VX& x ) { give( cs, x, true ); };
        cb.cor = [&]( const Cons& cs, VX& x ) { give( cs, x, false ); };
        {
          Rig r( whole, h ); VX q1, v1; r.solve( cb, 1, q1, v1 );
          VP_CHECK( cb.ncor == 1 && cb.nmu == ( h.kind == FRICTION ? 1 : 0 ), "restitution asked " << cb.ncor << " times, friction " << cb.nmu << " times" );
          judge( v1, d, "scheme" );
          vp::outcome( "assignments" );
        }
        if( CAN_ASK )
        {
          Rig r( whole, h ); CURRENT = &r.s;
          hooks().clear();
          auto hook = [&]( bool friction )
          {
            const auto cs = scriptContacts(); VX x = array( friction ? "mu" : "cor" );
            VP_CHECK( x.size() == long( cs.size() ) && int( cs.size() ) == G, "asked for " << x.size() << " coefficients at " << cs.size() << " contacts where there are " << G );
            for( size_t i = 0; i < cs.size(); ++i )
            {
              std::istringstream in( cs[i] ); std::string t; int a, b; in >> t >> a >> b;
              const int c = d[size_t( groupOf( a ) )];
              const double y = friction ? mOf( c ) : eOf( c ); if( y >= 0.0 ) { x( long( i ) ) = y; }
            }
            store( friction ? "mu" : "cor", x );
            return fakepy::none();
          };
          hooks()["frictionCoefficient"] = [&]{ return hook( true ); };
          hooks()["restitutionCoefficient"] = [&]{ return hook( false ); };
          PythonScripting s( "p", MODULE );
          r.step( s, 1 );
          judge( v( r.s ), d, "simulator" );
          hooks().clear();
          vp::outcome( "assignments by script" );
        }
      } );
    } );
  } }
}

// ---- edits ----
PyObject* I( long i ) { return fakepy::integer( i ); }
PyObject* N( double x ) { return fakepy::num( x ); }
struct Edit { std::string name; std::function<void()> script; std::function<void( Sim& )> direct; };

Scene editScene()
{
  Scene s; s.gravity = true; s.g = vd( 0.5, -6.0, 0.25 );
  s.b = { round( vd( 0, 0.495 ), 0.5, vd( 0.25, -1, 0.5 ), 1, 1.0 ), round( vd( 0.98, 0.6 ), 0.5, vd( -0.5, 0.25 ), 2, 2.5 ), round( vd( -3, 0.49, -1 ), 0.5, vd( 1, -0.25, 0 ), 0, 0.75 ) };
  Plane p; p.n = vd( 0, 1 ); p.x = vd( 0, 0 ); s.planes.push_back( p ); p.n = vd( 1, 0 ); p.x = vd( -3.48, 0 ); s.planes.push_back( p ); p.n = vd( 0, 1 ); p.x = vd( 0, -30 ); s.planes.push_back( p );
  if( D == 3 ) { Round r; r.x = vd( 0, 20.2 ); r.axis = vd( 0, 0, 1 ); r.r = 20.205; s.rounds = { r }; r.r = 50; s.rounds.push_back( r ); s.gravity2 = true; s.g2 = vd( 0.1, 0.2, 0.3 ); }
  return s;
}
std::vector<Edit> edits()
{
  std::vector<Edit> es;
  for( int k = 0; k < 3; ++k )
  {
    const VD x = k == 0 ? vd( 0.1, -0.02, 0.3 ) : k == 1 ? vd( -3.5, 0.2, 0.1 ) : vd( 0, 0.01, 0.2 ), w = vd( 0.3 * k, 0.25, -0.2 );
#if defined(SYS_RB3D)
    es.push_back( Edit{ "move plane " + std::to_string( k ), [k, x]{ fakepy::act( "setStaticPlanePosition", { I( k ), N( x( 0 ) ), N( x( 1 ) ), N( x( 2 ) ) } ); }, [k, x]( Sim& s ) { s.state().staticPlane( unsigned( k ) ).x() = x; } } );
    es.push_back( Edit{ "drive plane " + std::to_string( k ), [k, w]{ fakepy::act( "setStaticPlaneVelocity", { I( k ), N( w( 0 ) ), N( w( 1 ) ), N( w( 2 ) ) } ); }, [k, w]( Sim& s ) { s.state().staticPlane( unsigned( k ) ).v() = w; } } );
    if( k < 2 )
    {
      const VD a = k ? vd( 0.6, 0.8, 0 ) : vd( 0, 0.6, 0.8 );
      es.push_back( Edit{ "turn cylinder " + std::to_string( k ), [k, a]{ fakepy::act( "setStaticCylinderOrientation", { I( k ), N( a( 0 ) ), N( a( 1 ) ), N( a( 2 ) ), N( 0.3 ) } ); }, [k, a]( Sim& s ) { s.state().staticCylinder( unsigned( k ) ).setOrientation( a, 0.3 ); } } );
      es.push_back( Edit{ "spin cylinder " + std::to_string( k ), [k, w]{ fakepy::act( "setStaticCylinderAngularVelocity", { I( k ), N( w( 0 ) ), N( w( 1 ) ), N( w( 2 ) ) } ); }, [k, w]( Sim& s ) { s.state().staticCylinder( unsigned( k ) ).omega() = w; } } );
      es.push_back( Edit{ "change gravity " + std::to_string( k ), [k, w]{ fakepy::act( "setGravityForce", { I( k ), N( w( 0 ) ), N( w( 1 ) ), N( w( 2 ) ) } ); }, [k, w]( Sim& s ) { static_cast<NearEarthGravityForce&>( *s.state().forces()[size_t( k )] ).setForce( w ); } } );
    }
#elif defined(SYS_RB2D)
    es.push_back( Edit{ "move plane " + std::to_string( k ), [k, x]{ fakepy::act( "setStaticPlanePosition", { I( k ), N( x( 0 ) ), N( x( 1 ) ) } ); }, [k, x]( Sim& s ) { s.state().planes()[size_t( k )].setX( x ); } } );
    es.push_back( Edit{ "drive plane " + std::to_string( k ), [k, w]{ fakepy::act( "setStaticPlaneVelocity", { I( k ), N( w( 0 ) ), N( w( 1 ) ) } ); }, [k, w]( Sim& s ) { s.state().planes()[size_t( k )].setV( w ); } } );
    es.push_back( Edit{ "turn plane " + std::to_string( k ), [k]{ fakepy::act( "setStaticPlaneNormal", { I( k ), N( k == 1 ? 0.8 : 0.6 ), N( k == 1 ? 0.6 : 0.8 ) } ); }, [k]( Sim& s ) { s.state().planes()[size_t( k )].setN( Vector2s( k == 1 ? 0.8 : 0.6, k == 1 ? 0.6 : 0.8 ) ); } } );
    es.push_back( Edit{ "spin plane " + std::to_string( k ), [k]{ fakepy::act( "setStaticPlaneAngularVelocity", { I( k ), N( 0.5 + k ) } ); }, [k]( Sim& s ) { s.state().planes()[size_t( k )].setOmega( 0.5 + k ); } } );
    es.push_back( Edit{ "delete plane " + std::to_string( k ), [k]{ fakepy::act( "deleteStaticPlane", { I( k ) } ); }, [k]( Sim& s ) { s.state().planes().erase( s.state().planes().begin() + k ); } } );
    es.push_back( Edit{ "delete body " + std::to_string( k ), [k]{ fakepy::act( "delete_bodies", { fakepy::uints( { unsigned( k ) } ) } ); }, [k]( Sim& s ) { VectorXu d( 1 ); d << unsigned( k ); s.state().removeBodies( d ); } } );
    es.push_back( Edit{ "delete shape " + std::to_string( k ), [k]{ fakepy::act( "delete_geometry", { fakepy::uints( { unsigned( k ) } ) } ); }, [k]( Sim& s ) { VectorXu d( 1 ); d << unsigned( k ); s.state().removeGeometry( d ); } } );
    es.push_back( Edit{ "add body of shape " + std::to_string( k ), [k]{ fakepy::act( "addBody", { N( 4.0 + 1.2 * k ), N( 0.49 ), N( 0.3 ), N( 0.5 ), N( -1.0 ), N( 2.0 ), N( 1.5 ), I( k ), I( k == 2 ) } ); }, [k]( Sim& s ) { s.state().addBody( Vector2s( 4.0 + 1.2 * k, 0.49 ), 0.3, Vector2s( 0.5, -1.0 ), 2.0, 1.5, unsigned( k ), k == 2 ); } } );
    es.push_back( Edit{ "add shape " + std::to_string( k ), [k]{ fakepy::act( "addCircleGeometry", { N( 0.25 + 0.25 * k ) } ); }, [k]( Sim& s ) { s.state().addCircleGeometry( 0.25 + 0.25 * k ); } } );
#else
    es.push_back( Edit{ "move plane " + std::to_string( k ), [k, x]{ fakepy::act( "setStaticPlanePosition", { I( k ), N( x( 0 ) ), N( x( 1 ) ) } ); }, [k, x]( Sim& s ) { s.state().staticPlanes()[size_t( k )].x() = x; } } );
    es.push_back( Edit{ "drive plane " + std::to_string( k ), [k, w]{ fakepy::act( "setStaticPlaneVelocity", { I( k ), N( w( 0 ) ), N( w( 1 ) ) } ); }, [k, w]( Sim& s ) { s.state().staticPlanes()[size_t( k )].v() = w; } } );
    es.push_back( Edit{ "delete plane " + std::to_string( k ), [k]{ fakepy::act( "deleteStaticPlane", { I( k ) } ); }, [k]( Sim& s ) { s.state().staticPlanes().erase( s.state().staticPlanes().begin() + k ); } } );
    es.push_back( Edit{ "insert ball " + std::to_string( k ), [k]{ fakepy::act( "insertBall", { N( 4.0 + 1.2 * k ), N( 0.49 ), N( 0.5 ), N( -1.0 ), N( 0.5 ), N( 1.0 + k ), I( k == 1 ) } ); }, [k]( Sim& s ) { s.state().pushBallBack( Vector2s( 4.0 + 1.2 * k, 0.49 ), Vector2s( 0.5, -1.0 ), 0.5, 1.0 + k, k == 1 ); } } );
#endif
  }
#if !defined(SYS_RB2D)
  es.push_back( Edit{ "set positions", []{ VX x = array( "configuration" ); x( 0 ) += 0.125; x( D * 2 + 1 ) += 0.03125; store( "configuration", x ); }, []( Sim& s ) { q( s )( 0 ) += 0.125; q( s )( D * 2 + 1 ) += 0.03125; } } );
  es.push_back( Edit{ "set velocities", []{ VX x = array( "velocity" ); x( 1 ) -= 0.5; x( x.size() - 1 ) += 0.25; store( "velocity", x ); }, []( Sim& s ) { v( s )( 1 ) -= 0.5; v( s )( v( s ).size() - 1 ) += 0.25; } } );
#endif
  return es;
}
// what a script can count must be what is there
void counts( Sim& s )
{
#if defined(SYS_RB3D)
  VP_CHECK( number( "numStaticPlanes" ) == double( s.state().staticPlanes().size() ) && number( "numStaticCylinders" ) == double( s.state().staticCylinders().size() ) && number( "numForces" ) == double( s.state().forces().size() ), "wrong counts" );
  for( size_t i = 0; i < s.state().forces().size(); ++i ) { VP_CHECK( fakepy::asString( fakepy::call( "forceType", { I( long( i ) ) } ) ) == s.state().forces()[i]->name(), "wrong type of force " << i ); }
#elif defined(SYS_RB2D)
  VP_CHECK( number( "numStaticPlanes" ) == double( s.state().planes().size() ) && number( "numGeometryInstances" ) == double( s.state().geometry().size() ) && number( "num_geometry" ) == double( s.state().geometry().size() ) && number( "num_bodies" ) == double( s.state().nbodies() ), "wrong counts" );
#else
  VP_CHECK( number( "numStaticPlanes" ) == double( s.state().staticPlanes().size() ), "wrong counts" );
#endif
}
bool sizes( const std::vector<const Edit*>& es )
{
  // at most one removal of each kind, and nothing that uses a removed item afterwards
  int planes = 3, bodies = 3, shapes = 3; bool ok = true;
  for( const Edit* e : es )
  {
    const int k = e->name.back() - '0';
    if( e->name.find( "plane" ) != std::string::npos ) { ok = ok && k < planes; if( e->name.find( "delete" ) == 0 ) { --planes; } }
    if( e->name.find( "body of shape" ) != std::string::npos ) { ok = ok && k < shapes; ++bodies; continue; }
    if( e->name.find( "delete body" ) == 0 ) { ok = ok && k < bodies; --bodies; }
    if( e->name.find( "delete shape" ) == 0 ) { ok = ok && k < shapes; ok = false; }   // every shape is in use: see below
    if( e->name.find( "add shape" ) == 0 ) { ++shapes; }
  }
  return ok;
}

void editing()
{
  const auto es = edits();
  Scene sc = editScene();
  std::vector<How> hs;
  for( int um = 0; um < NUMAPS; ++um ) { hs.push_back( How{ PLAIN, 0, 0, 0, um, 0, 0, false } ); hs.push_back( How{ IMPACT, 3, 0, 0, um, 0.0, 0, false } ); hs.push_back( How{ FRICTION, 0, SOBOGUS, AD == 1 || D == 3 ? GEO_N : GEO_NF, um, 0.0, 0.5, false } ); }
  for( const How& h : hs ) { for( size_t a = 0; a < es.size(); ++a ) { for( size_t b = 0; b <= es.size(); ++b )
  {
    std::vector<const Edit*> list = { &es[a] }; if( b < es.size() ) { list.push_back( &es[b] ); }
    if( list.size() == 2 && h.um && !vp::thorough() ) { continue; }
    if( !sizes( list ) || ( a == b && ( es[a].name.find( "insert" ) == 0 || es[a].name.find( "add body" ) == 0 ) ) ) { continue; }   // two bodies in one place
    vp::runCase( [&]{ return "edits: " + show( h ) + ", " + es[a].name + ( b < es.size() ? ", " + es[b].name : "" ); }, [&]
    {
      const int STEPS = 3;
      // each edit in the start or end hook of each step
      const int last = list.size() == 2 ? 2 * STEPS : 1;
      for( int when = 0; when < 2 * STEPS; ++when ) { for( int when2 = 0; when2 < last; ++when2 )
      {
        if( list.size() == 2 && when2 < when ) { continue; }
        if( list.size() == 2 && !vp::thorough() && when2 > when + 1 ) { continue; }
        vp::note( "at " + std::to_string( when ) + ", " + std::to_string( when2 ) );
        Rig r( sc, h ), o( sc, h ); CURRENT = &r.s;
        int now = 0;
        hooks().clear();
        auto hook = [&]
        {
          counts( r.s );
          if( now == when ) { list[0]->script(); }
          if( list.size() == 2 && now == when2 ) { list[1]->script(); }
          counts( r.s );
          ++now;
          return fakepy::none();
        };
        hooks()["startOfStep"] = hook; hooks()["endOfStep"] = hook;
        PythonScripting cb( "p", MODULE ), none;
        auto direct = [&]( int t ) { if( t == when ) { list[0]->direct( o.s ); } if( list.size() == 2 && t == when2 ) { list[1]->direct( o.s ); } };
        for( int k = 0; k < STEPS; ++k )
        {
          direct( 2 * k );
          o.step( none, unsigned( k + 1 ) );
          direct( 2 * k + 1 );
          r.step( cb, unsigned( k + 1 ) );
          VP_CHECK( image( r.s ) == image( o.s ), "step " << k << ": the simulation differs from one edited between the steps; positions " << vp::vstr( q( r.s ) ) << " instead of " << vp::vstr( q( o.s ) ) << ", velocities " << vp::vstr( v( r.s ) ) << " instead of " << vp::vstr( v( o.s ) ) );
          vp::state( hash( v( r.s ), hash( q( r.s ) ) ) );
        }
        VP_CHECK( now == 2 * STEPS, "hooks called " << now << " times" );
        hooks().clear();
        vp::outcome( list.size() == 2 ? "two edits" : "one edit" );
      } }
    } );
  } } }
#if defined(SYS_RB2D)
  // shapes that nothing uses can be removed
  vp::runCase( [&]{ return std::string( "edits: unused shapes" ); }, [&]
  {
    for( unsigned mask = 1; mask < 8; ++mask ) { for( unsigned extra = 0; extra < 3; ++extra )
    {
      Rig r( sc, How{ PLAIN, 0, 0, 0, 0, 0, 0, false } ), o( sc, How{ PLAIN, 0, 0, 0, 0, 0, 0, false } ); CURRENT = &r.s;
      std::vector<unsigned> gone; for( unsigned i = 0; i < 3; ++i ) { if( mask >> i & 1 ) { gone.push_back( i ); } }
      hooks().clear();
      hooks()["endOfStep"] = [&]{ for( unsigned i = 0; i < extra; ++i ) { fakepy::act( "addCircleGeometry", { N( 2.0 + i ) } ); } fakepy::act( "delete_bodies", { fakepy::uints( gone ) } ); fakepy::act( "delete_geometry", { fakepy::uints( gone ) } ); counts( r.s ); return fakepy::none(); };
      PythonScripting cb( "p", MODULE ), none;
      r.step( cb, 1 ); o.step( none, 1 );
      VectorXu d( long( gone.size() ) ); for( size_t i = 0; i < gone.size(); ++i ) { d( long( i ) ) = gone[i]; }
      for( unsigned i = 0; i < extra; ++i ) { o.s.state().addCircleGeometry( 2.0 + i ); }
      o.s.state().removeBodies( d ); o.s.state().removeGeometry( d );
      VP_CHECK( image( r.s ) == image( o.s ), "removal differs" );
      hooks().clear();
    } }
  } );
#endif
}

// ---- refusals: what does not exist, and scripts that fail ----
void refused( const std::string& what, const std::function<void()>& body )
{
  const int st = vp::forked( [&]{ alarm( 20 ); try { body(); } catch( vp::Failure& ) {} } );
  VP_CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) == EXIT_FAILURE, what << " is not refused (status " << st << ")" );
  vp::outcome( "refused" );
}
void accepted( const std::string& what, const std::function<void()>& body )
{
  const int st = vp::forked( [&]{ alarm( 20 ); bool ok = true; try { body(); } catch( vp::Failure& ) { ok = false; } _exit( ok ? 0 : 3 ); } );
  VP_CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) == 0, what << " is refused (status " << st << ")" );
  vp::outcome( "accepted" );
}
void refusals()
{
  std::vector<std::pair<std::string,std::vector<PyObject*(*)()>>> dummy;
  struct Fn { std::string name; int limit; std::function<std::vector<PyObject*>( long )> args; bool step; };
  std::vector<Fn> fs;
  auto vec = []( const std::vector<double>& x ) { return [x]( long i ) { std::vector<PyObject*> a = { I( i ) }; for( double y : x ) { a.push_back( N( y ) ); } return a; }; };
  const Scene sc = editScene();
  const int np = int( sc.planes.size() );
  if( D == 2 )
  {
    fs.push_back( Fn{ "setStaticPlanePosition", np, vec( { 0.5, 0.25 } ), true } );
    fs.push_back( Fn{ "setStaticPlaneVelocity", np, vec( { 0.5, 0.25 } ), true } );
    fs.push_back( Fn{ "deleteStaticPlane", np, vec( {} ), true } );
  }
  if( AD == 1 ) { fs.push_back( Fn{ "setStaticPlaneNormal", np, vec( { 0.6, 0.8 } ), true } ); fs.push_back( Fn{ "setStaticPlaneAngularVelocity", np, vec( { 0.5 } ), true } ); fs.push_back( Fn{ "delete_bodies", 3, []( long i ) { return std::vector<PyObject*>{ fakepy::uints( { unsigned( i ) } ) }; }, true } ); fs.push_back( Fn{ "addBody", 3, []( long i ) { return std::vector<PyObject*>{ N( 4 ), N( 5 ), N( 0 ), N( 0 ), N( 0 ), N( 0 ), N( 1 ), I( i ), I( 0 ) }; }, true } ); }
  if( D == 3 )
  {
    fs.push_back( Fn{ "setStaticPlanePosition", np, vec( { 0.5, 0.25, 0.125 } ), true } );
    fs.push_back( Fn{ "setStaticPlaneVelocity", np, vec( { 0.5, 0.25, 0.125 } ), true } );
    fs.push_back( Fn{ "setStaticCylinderOrientation", 2, vec( { 0, 0.6, 0.8, 0.25 } ), true } );
    fs.push_back( Fn{ "setStaticCylinderAngularVelocity", 2, vec( { 0.5, 0.25, 0.125 } ), true } );
    fs.push_back( Fn{ "forceType", 2, vec( {} ), true } );
    fs.push_back( Fn{ "setGravityForce", 2, vec( { 0.5, 0.25, 0.125 } ), true } );
  }
  if( CAN_ASK ) { fs.push_back( Fn{ "collisionType", -1, vec( {} ), false } ); fs.push_back( Fn{ "collisionIndices", -1, vec( {} ), false } ); }
  const How h{ FRICTION, 0, SOBOGUS, GEO, 0, 0.0, 0.5, false };
  // how many contacts the first solve has
  std::vector<Ask> solves; { Rig r( sc, h ); PythonScripting none; SOLVES = &solves; r.step( none, 1 ); SOLVES = nullptr; }
  const long contacts = long( solves.at( 0 ).contacts.size() );
  auto inHook = [&]( const char* hook, const std::function<void()>& body )
  {
    Rig r( sc, h ); CURRENT = &r.s; hooks().clear();
    hooks()[hook] = [&]{ body(); return fakepy::none(); };
    PythonScripting cb( "p", MODULE );
    r.step( cb, 1 );
  };
  for( const Fn& f : fs )
  {
    vp::runCase( [&]{ return "refusals: " + f.name; }, [&]
    {
      const long limit = f.limit < 0 ? contacts : f.limit;
      for( const char* hook : f.step ? std::vector<const char*>{ "startOfStep", "endOfStep" } : std::vector<const char*>{ "frictionCoefficient", "restitutionCoefficient" } )
      {
        vp::note( hook );
        for( long i = 0; i < limit; ++i ) { accepted( f.name + " of item " + std::to_string( i ), [&]{ inHook( hook, [&]{ fakepy::act( f.name, f.args( i ) ); } ); } ); }
        for( long i : { limit, limit + 1, limit + 7, 0x7fffffffl } ) { refused( f.name + " of item " + std::to_string( i ) + " of " + std::to_string( limit ), [&]{ inHook( hook, [&]{ fakepy::act( f.name, f.args( i ) ); } ); } ); }
        refused( f.name + " without arguments", [&]{ inHook( hook, [&]{ fakepy::act( f.name, {} ); } ); } );
      }
    } );
  }
  vp::runCase( [&]{ return std::string( "refusals: values" ); }, [&]
  {
#if defined(SYS_BALL2D)
    auto ball = [&]( double r, double m, long fx ) { return [=]{ fakepy::act( "insertBall", { N( 4 ), N( 5 ), N( 0 ), N( 0 ), N( r ), N( m ), I( fx ) } ); }; };
    accepted( "a ball", [&]{ inHook( "startOfStep", ball( 0.5, 1, 0 ) ); } );
    for( double bad : { 0.0, -1.0 } ) { refused( "radius", [&]{ inHook( "startOfStep", ball( bad, 1, 0 ) ); } ); refused( "mass", [&]{ inHook( "startOfStep", ball( 0.5, bad, 0 ) ); } ); }
    for( long bad : { -1l, 2l } ) { refused( "fixed flag", [&]{ inHook( "startOfStep", ball( 0.5, 1, bad ) ); } ); }
#elif defined(SYS_RB2D)
    auto body = [&]( double rho, long g, long fx ) { return [=]{ fakepy::act( "addBody", { N( 4 ), N( 5 ), N( 0 ), N( 0 ), N( 0 ), N( 0 ), N( rho ), I( g ), I( fx ) } ); }; };
    accepted( "a body", [&]{ inHook( "startOfStep", body( 1, 0, 0 ) ); } );
    for( double bad : { 0.0, -1.0 } ) { refused( "density", [&]{ inHook( "startOfStep", body( bad, 0, 0 ) ); } ); refused( "radius", [&]{ inHook( "startOfStep", [&]{ fakepy::act( "addCircleGeometry", { N( bad ) } ); } ); } ); }
    for( long bad : { -1l, 2l } ) { refused( "fixed flag", [&]{ inHook( "startOfStep", body( 1, 0, bad ) ); } ); }
    refused( "shape -1", [&]{ inHook( "startOfStep", body( 1, -1, 0 ) ); } );
#else
    refused( "an axis that is no unit vector", [&]{ inHook( "startOfStep", [&]{ fakepy::act( "setStaticCylinderOrientation", { I( 0 ), N( 0 ), N( 1 ), N( 1 ), N( 0.25 ) } ); } ); } );
#endif
    // scripts that raise, scripts that are not there, hooks that are no functions
    for( const char* hook : { "startOfStep", "endOfStep", "frictionCoefficient", "restitutionCoefficient" } )
    {
      refused( std::string( "a failing " ) + hook, [&]{ Rig r( sc, h ); CURRENT = &r.s; hooks().clear(); hooks()[hook] = []() -> PyObject* { fakepy::error() = true; return nullptr; }; PythonScripting cb( "p", MODULE ); r.step( cb, 1 ); } );
    }
    for( int k = 0; k < 2; ++k ) { refused( k ? "a failing endOfSim" : "a failing startOfSim", [&]{ hooks().clear(); hooks()[k ? "endOfSim" : "startOfSim"] = []() -> PyObject* { fakepy::error() = true; return nullptr; }; PythonScripting cb( "p", MODULE ); if( k ) { cb.endOfSimCallback(); } else { cb.startOfSimCallback(); } } ); }
    refused( "a missing script", [&]{ PythonScripting cb( "p", "no_such_script" ); } );
  } );
#if defined(SYS_RB3D)
  vp::runCase( [&]{ return std::string( "initial iteration" ); }, [&]
  {
    for( unsigned n : { 0u, 1u, 7u, 4000000000u } )
    {
      Rig r( sc, h ); hooks().clear(); hooks()["startOfSim"] = [&]{ fakepy::act( "setInitialIterate", { I( n ) } ); return fakepy::none(); };
      PythonScripting cb( "p", MODULE ); unsigned it = 99; cb.setState( r.s.state() ); cb.setInitialIterate( it ); cb.startOfSimCallback(); cb.forgetState();
      VP_CHECK( it == n, "initial iteration " << it << " instead of " << n );
    }
    hooks().clear();
  } );
#endif
}
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  fakepy::modules()[MODULE];
  PythonScripting::initializeCallbacks();
  orderOf();
  coefficients( 0 );
  coefficients( 9 );
  coefficients( vp::thorough() ? 40 : 32 );
  editing();
  refusals();
  return vp::finish();
}
