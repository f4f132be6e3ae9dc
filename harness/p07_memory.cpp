// P07: remembered contact impulses go back to the contact they came from.
//
// (a) Every content of the memory over a menu of contacts of all kinds, reached by breadth-first search; in each,
//     every operation (remember, clear, save and restore into fresh and used memories, copy, move) is applied and
//     every contact of the menu is asked back; plus all operation sequences up to a depth without merging states.
// (b) The steppers that use the memory: solvers are replaced by recorders that note the impulses they are started
//     from and answer with unique ones. Over all sequences of scene layouts (contact sets), interleaved with saving,
//     copying and moving the simulator, each contact must start from what the previous step found for it.
#include "maps.h"
#if defined(SYS_BALL2D)
#include "ball2d/ConstraintCache.h"
#elif defined(SYS_RB2D)
#include "rigidbody2d/ConstraintCache.h"
#else
#include "rigidbody3d/ConstraintCache.h"
#endif
using namespace sys;

using Key = std::tuple<std::string,int,int>;
static Key keyOf( const Constraint& c )
{
  const Hit h = hitOf( c );
  return Key( c.name(), h.i, h.j );
}

static Body ball( const VD& x, bool fixed = false ) { Body b; b.x = x; b.fixed = fixed; return b; }

// Contacts of every kind, many with the same pair of numbers
static std::vector<std::unique_ptr<Sim>> g_sims;
static void collect( const Scene& sc, std::map<Key,std::unique_ptr<Constraint>>& menu )
{
  g_sims.emplace_back( new Sim( build( sc ) ) );
  Sim& s = *g_sims.back();
  Cons c = detect( s, q( s ), q( s ), v( s ) );
  for( auto& p : c ) { const Key k = keyOf( *p ); if( !menu.count( k ) ) { menu[k] = std::move( p ); } }
}

static std::map<Key,std::unique_ptr<Constraint>> contactMenu( int many )
{
  std::map<Key,std::unique_ptr<Constraint>> m;
  const int variants = AD ? 3 : 1;
  for( int f = 0; f < variants; ++f )
  {
    Scene sc; // three mutually touching bodies
    sc.b = { ball( vd( 0, 0 ), f == 1 ), ball( vd( 1.9, 0 ), f == 2 ), ball( vd( 0.95, 1.6 ) ) };
    collect( sc, m );
  }
  {
    Scene sc; sc.b = { ball( vd( 0, 0 ) ), ball( vd( 7, 0 ) ), ball( vd( 14, 0 ) ) };
    for( int i = 0; i < 3; ++i ) { Plane p; p.x = vd( 0, -0.9 ); p.n = vd( 0, 1 ); sc.planes.push_back( p ); }
    if( AD != 1 ) { for( int i = 0; i < 3; ++i ) { Round r; r.x = vd( 30, 0 ); if( D == 3 ) { r.axis = vd( 0, 1 ); } r.r = 5.0; sc.rounds.push_back( r ); } }
    collect( sc, m );
  }
#if defined(SYS_RB2D)
  {
    Scene sc; sc.b = { ball( vd( 0, 0 ) ), ball( vd( 1.4, 0.5 ) ), ball( vd( 0.5, 1.4 ) ) };
    for( auto& b : sc.b ) { b.kind = 'b'; b.dim = { { 1, 0.75, 1 } }; }
    sc.b[1].rot[0] = 0.2; sc.b[2].rot[0] = 0.1;
    Sim* s; g_sims.emplace_back( new Sim( build( sc ) ) ); s = g_sims.back().get();
    Cons c = detect( *s, q( *s ), q( *s ), v( *s ) );
    for( auto& p : c ) { if( p->name() == "body_body" ) { const Key k = keyOf( *p ); if( !m.count( k ) ) { m[k] = std::move( p ); } } }
  }
#endif
  if( many )
  {
    // Large body numbers: pairs at the end of long rows
    for( int n : { 12, 257, 1002 } )
    {
      for( int f = 0; f < ( AD ? 2 : 1 ); ++f )
      {
        Scene sc;
        for( int i = 0; i < n; ++i ) { sc.b.push_back( ball( vd( 5.0 * i, 0 ) ) ); }
        sc.b[n-1].x = sc.b[n-2].x + vd( 1.9, 0 );
        sc.b[n-3].x = sc.b[0].x + vd( 1.9, 0 );
        if( f ) { sc.b[n-1].fixed = true; sc.b[0].fixed = true; }
        Plane p; p.x = sc.b[n-1].x - vd( 0, 0.9 ); p.n = vd( 0, 1 ); if( n < 100 ) { sc.planes.push_back( p ); }
        collect( sc, m );
      }
    }
    // Large plane and drum numbers, and large body numbers against them
    for( int n : { 40, 300 } )
    {
      Scene sc; sc.b = { ball( vd( 0, 0 ) ) };
      for( int i = 0; i < n; ++i ) { Plane p; p.x = vd( i, -0.9 ); p.n = vd( 0, 1 ); sc.planes.push_back( p ); if( AD != 1 ) { Round r; r.x = vd( 0, 0 ); if( D == 3 ) { r.axis = vd( 0, 1 ); } r.r = 0.9; r.x( 0 ) += 30.0; r.r = 30.5; sc.rounds.push_back( r ); } }
      collect( sc, m );
      Scene rows; for( int i = 0; i < n; ++i ) { rows.b.push_back( ball( vd( 5.0 * i, 0 ) ) ); }
      Plane p; p.x = vd( 0, -0.9 ); p.n = vd( 0, 1 ); rows.planes.push_back( p ); rows.planes.push_back( p );
      if( AD != 1 ) { Round r; r.x = rows.b.back().x - vd( 30, 0 ); if( D == 3 ) { r.axis = vd( 0, 1 ); } r.r = 30.5; rows.rounds.push_back( r ); rows.rounds.push_back( r ); }
      collect( rows, m );
    }
  }
  return m;
}

struct Item { Key k; const Constraint* c; };
using Model = std::map<Key,VX>;

static VX val( int dim, int which, int item )
{
  VX r( dim );
  for( int i = 0; i < dim; ++i ) { r( i ) = which == 0 ? 0.1 * ( item + 1 ) + 1.0 / 3.0 + i : -( 2.0 / 7.0 ) * ( item + 3 ) - 10.0 * i; }
  if( which == 2 ) { r.setZero(); r( dim - 1 ) = 1.0e-300; }
  return r;
}

static void verify( const ConstraintCache& cache, const Model& m, const std::vector<Item>& items, int dim, const char* after )
{
  VP_CHECK( cache.empty() == m.empty(), after << ": the memory says it is " << ( cache.empty() ? "" : "not " ) << "empty, holding " << m.size() << " contacts" );
  for( const Item& it : items )
  {
    VX r = VX::Constant( dim, 77.0 );
    cache.getCachedConstraint( *it.c, r );
    const auto f = m.find( it.k );
    const VX want = f == m.end() ? VX( VX::Zero( dim ) ) : f->second;
    VP_CHECK( same( r, want ), after << ": contact " << std::get<0>( it.k ) << " " << std::get<1>( it.k ) << "," << std::get<2>( it.k ) << " got back " << vp::vstr( r ) << " instead of " << vp::vstr( want ) );
  }
}
static std::string bytes( const ConstraintCache& c ) { std::ostringstream o; c.serialize( o ); return o.str(); }
static void load( ConstraintCache& c, const std::string& b )
{
  std::istringstream in( b + "x" );
  c.deserialize( in );
  VP_CHECK( size_t( in.tellg() ) == b.size(), "restoring consumed " << in.tellg() << " of " << b.size() << " bytes" );
}

constexpr int NOPS = 7;
// 0 clear, 1 save/restore into a fresh memory, 2 save/restore into a used one, 3 copy-construct, 4 copy-assign onto a used one, 5 move-construct, 6 move-assign
static void applyOp( int op, ConstraintCache& c, Model& m, const ConstraintCache& used )
{
  switch( op )
  {
    case 0: c.clear(); m.clear(); break;
    case 1: { ConstraintCache f; load( f, bytes( c ) ); c = f; break; }
    case 2: { ConstraintCache f = used; load( f, bytes( c ) ); c = f; break; }
    case 3: { ConstraintCache f( c ); c = f; break; }
    case 4: { ConstraintCache f = used; f = c; c = f; break; }
    case 5: { ConstraintCache f( std::move( c ) ); c = std::move( f ); break; }
    default: { ConstraintCache f = used; f = std::move( c ); c = std::move( f ); break; }
  }
}
static const char* opName( int op ) { static const char* n[] = { "clear", "save and restore", "save and restore into a used memory", "copy", "copy onto a used memory", "move", "move onto a used memory" }; return n[op]; }

// ---------------- recorders ----------------
struct Seen { std::map<Key,VX> start, answer; std::map<Key,MX> basis; int calls = 0; };
static int g_unique = 0;

class RecImpact final : public ImpactOperator
{
public:
  Seen* s;
  explicit RecImpact( Seen* t ) : s( t ) {}
  virtual void flow( const std::vector<std::unique_ptr<Constraint>>& cons, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, const VectorXs&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, VectorXs& alpha ) override
  {
    ++s->calls;
    for( int i = 0; i < int( cons.size() ); ++i )
    {
      VX a( 1 ); a( 0 ) = alpha( i ); s->start[keyOf( *cons[i] )] = a;
      alpha( i ) = 1.0 + 1.0e-3 * ++g_unique; a( 0 ) = alpha( i ); s->answer[keyOf( *cons[i] )] = a;
    }
  }
  virtual std::string name() const override { return "recorder"; }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new RecImpact( s ) ); }
  virtual void serialize( std::ostream& ) const override {}
};

// Small velocities, different for every body and seed, of the three bodies; the second may be fixed
static void stir( VX& v, int seed, int fixed )
{
  const int per = D == 2 ? 2 + AD : 3;
  for( int i = 0; i < 3; ++i ) { if( i == 1 && fixed ) { continue; } for( int d = 0; d < D; ++d ) { v( per * i + d ) += 0.03 * std::sin( 1.0 + 2.0 * seed + 3.0 * i + 5.0 * d ); } }
}

class RecFriction final : public FrictionSolver
{
public:
  Seen* s; int fixed;
  RecFriction( Seen* t, int f ) : s( t ), fixed( f ) {}
  virtual void solve( const unsigned, const scalar&, const FlowableSystem&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, const VectorXs&, const VectorXs& v0, std::vector<std::unique_ptr<Constraint>>& cons, const MatrixXXsc& bases, const VectorXs&, const VectorXs&, const unsigned, const scalar&, VectorXs&, VectorXs& alpha, VectorXs& beta, VectorXs& v2, bool& ok, scalar& error ) override
  {
    ++s->calls;
    for( int i = 0; i < int( cons.size() ); ++i )
    {
      VX a( D ); a( 0 ) = alpha( i ); a.tail( D - 1 ) = beta.segment( ( D - 1 ) * i, D - 1 );
      const Key k = keyOf( *cons[i] );
      s->start[k] = a;
      a( 0 ) = 1.0 + 1.0e-3 * ++g_unique; for( int d = 1; d < D; ++d ) { a( d ) = ( d % 2 ? -1.0 : 1.0 ) * ( 0.1 + 1.0e-3 * ++g_unique ); }
      alpha( i ) = a( 0 ); beta.segment( ( D - 1 ) * i, D - 1 ) = a.tail( D - 1 );
      s->answer[k] = a;
      s->basis[k] = bases.block( 0, D * i, D, D );
    }
    v2 = v0; ok = true; error = 0.0;
    // Leaves with other velocities than it came with, where that breaks no conservation law
    bool mom = true, ang = true; for( const auto& c : cons ) { mom = mom && c->conservesTranslationalMomentum(); ang = ang && c->conservesAngularMomentumUnderImpactAndFriction(); }
    if( !mom && !ang ) { stir( v2, 3, fixed ); }
  }
  virtual unsigned numFrictionImpulsesPerNormal( const unsigned d ) const override { return d - 1; }
  virtual void serialize( std::ostream& ) const override {}
  virtual std::string name() const override { return "recorder"; }
};

static std::vector<VX> layouts( Sim& s )
{
  auto mk = [&]( VD a, VD b, VD c ) { VX x = q( s ); setPos( x, 0, a ); setPos( x, 1, b ); setPos( x, 2, c ); return x; };
  const double h = 0.95, u = 6.0;
  return {
    mk( vd( 0, h ), vd( 1.9, h ), vd( 3.8, h, 0.1 ) ),
    mk( vd( 1.9, h ), vd( 0, h, 0.2 ), vd( 3.8, h ) ),
    mk( vd( 0, h ), vd( 1.9, u ), vd( -1.3, h + 1.3 ) ),
    mk( vd( -2, u ), vd( 2, u ), vd( 0, u + 2.5 ) ),
    mk( vd( 0, u ), vd( 1.9, u ), vd( 0.95, u + 1.6, 0.2 ) ),
    mk( vd( -8.95, u ), vd( -6.3, h ), vd( -8.95, u - 1.9 ) ) };
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  // (a) state space of the memory
  const auto menu = contactMenu( 0 );
  std::vector<Item> all;
  for( const auto& p : menu ) { all.push_back( Item{ p.first, p.second.get() } ); }
  // groups of contacts whose contents are explored together: every pair of kinds that share numbers, at most G contacts at a time
  const int G = vp::thorough() ? 8 : 6;
  const int stride = vp::thorough() ? 1 : 2;
  for( int dim : { 1, D, 6 } )
  {
    for( int off = 0; off < int( all.size() ); off += stride )
    {
      std::vector<Item> items;
      for( int i = 0; i < std::min( G, int( all.size() ) ); ++i ) { items.push_back( all[( off + i * ( 1 + off % 3 ) ) % all.size()] ); }
      std::set<Key> seen; std::vector<Item> uniq; for( const Item& i : items ) { if( seen.insert( i.k ).second ) { uniq.push_back( i ); } } items = uniq;
      vp::runCase( [&] { std::ostringstream o; o << "memory of vectors of length " << dim << ", contacts"; for( const Item& i : items ) { o << " " << std::get<0>( i.k ) << ":" << std::get<1>( i.k ) << "," << std::get<2>( i.k ); } return o.str(); }, [&]
      {
        ConstraintCache used;   // other content, to be overwritten
        for( size_t i = 0; i < all.size(); i += 2 ) { used.cacheConstraint( *all[i].c, VX::Constant( dim, -5.0 - i ) ); }
        const int n = int( items.size() );
        // breadth-first over contents: base-3 digits per contact (absent, first value, second value)
        std::map<std::vector<int>,ConstraintCache> reached; std::vector<std::vector<int>> todo;
        const std::vector<int> none( n, 0 );
        reached[none]; todo.push_back( none );
        for( size_t h = 0; h < todo.size(); ++h )
        {
          const std::vector<int> st = todo[h];
          const ConstraintCache cache = reached[st];
          Model m; for( int i = 0; i < n; ++i ) { if( st[i] ) { m[items[i].k] = val( dim, st[i] - 1, i ); } }
          verify( cache, m, all, dim, "reached" );
          vp::state( "m" + std::to_string( off ) + "/" + std::to_string( dim ) + vp::str( st ) );
          for( int op = 0; op < NOPS; ++op ) { ConstraintCache c = cache; Model mm = m; applyOp( op, c, mm, used ); vp::transition(); verify( c, mm, op == 0 || h % 7 == 0 ? all : items, dim, opName( op ) ); }
          for( int i = 0; i < n; ++i )
          {
            if( st[i] ) { continue; }
            for( int w = 1; w <= 2; ++w )
            {
              std::vector<int> nx = st; nx[i] = w;
              ConstraintCache c = cache; c.cacheConstraint( *items[i].c, val( dim, w - 1, i ) ); vp::transition();
              if( !reached.count( nx ) ) { reached[nx] = c; todo.push_back( nx ); }
              else { Model mm = m; mm[items[i].k] = val( dim, w - 1, i ); verify( c, mm, items, dim, "remembered in another order" ); }
            }
          }
        }
      } );
    }
  }
  // all operation sequences without merging states
  {
    const int depth = vp::thorough() ? 6 : 5;
    const int n = std::min<int>( 4, int( all.size() ) );
    std::vector<Item> items; for( int i = 0; i < n; ++i ) { items.push_back( all[( i * std::max<int>( 1, int( all.size() ) / n ) ) % all.size()] ); }
    const int ops = NOPS - 3 + n;   // clear, restore, restore over used, copy; remember contact i
    std::vector<int> base( depth, ops );
    vp::product( base, [&]( const std::vector<int>& d )
    {
      vp::runCase( [&] { return "operations " + vp::str( d ); }, [&]
      {
        ConstraintCache used; used.cacheConstraint( *all[0].c, VX::Constant( 1, 9.0 ) ); used.cacheConstraint( *all.back().c, VX::Constant( 1, 8.0 ) );
        ConstraintCache c; Model m;
        for( int k = 0; k < depth; ++k )
        {
          if( d[k] < NOPS - 3 ) { applyOp( d[k], c, m, used ); }
          else
          {
            const Item& it = items[d[k] - ( NOPS - 3 )];
            if( m.count( it.k ) ) { continue; }   // a contact is remembered once per step
            m[it.k] = VX::Constant( 1, 1.0 + k ); c.cacheConstraint( *it.c, m[it.k] );
          }
          vp::transition();
          verify( c, m, items, 1, "sequence" );
        }
      } );
    } );
  }
  // large numbers: all contacts remembered together, then asked back, alone and after restoring
  {
    const auto many = contactMenu( 1 );
    std::vector<Item> items; for( const auto& p : many ) { items.push_back( Item{ p.first, p.second.get() } ); }
    vp::runCase( [&] { return "contacts among many bodies"; }, [&]
    {
      ConstraintCache c; Model m;
      for( size_t i = 0; i < items.size(); ++i ) { m[items[i].k] = val( 2, 0, int( i ) ); c.cacheConstraint( *items[i].c, m[items[i].k] ); verify( c, m, items, 2, "remember" ); vp::transition(); }
      for( int op = NOPS - 1; op >= 0; --op ) { applyOp( op, c, m, ConstraintCache() ); verify( c, m, items, 2, opName( op ) ); vp::transition(); }
      for( size_t i = 0; i < items.size(); ++i ) { c.clear(); m.clear(); m[items[i].k] = val( 2, 1, int( i ) ); c.cacheConstraint( *items[i].c, m[items[i].k] ); verify( c, m, items, 2, "remember one" ); vp::transition(); }
      for( const Item& it : items ) { vp::outcome( std::get<0>( it.k ) ); }
    } );
  }

  // (b) steppers: all sequences of layouts with actions in between
  const int NL = 6, LEN = 3, NACT = 4;
  for( int which = 0; which < 8; ++which )   // 0 impacts, 1 impacts warm, 2.. friction maps
  {
    static const int ifms[] = { GEO, GEO_N, GEO_NF, STAB, SE_N, SE_NF };
    const int im = which < 2 ? -1 : ifms[which - 2];
    if( im == GEO_NF && D == 3 ) { continue; }
    if( im >= 0 && ifmIsSE( im ) && AD == 1 ) { continue; }
    for( int f = 0; f < ( AD ? 2 : 1 ); ++f )
    {
      Scene sc; sc.b = { ball( vd( 0, 0 ) ), ball( vd( 4, 0 ), f == 1 ), ball( vd( 8, 0 ) ) };
      Plane p; p.x = vd( 0, 0 ); p.n = vd( 0, 1 ); sc.planes.push_back( p ); p.x = vd( -9.9, 0 ); p.n = vd( 1, 0 ); sc.planes.push_back( p );
      if( AD != 1 ) { Round r; r.x = vd( 0, 0 ); r.r = 11.7; if( D == 3 ) { r.axis = vd( 0, 0, 1 ); } sc.rounds.push_back( r ); }
      std::vector<int> base; for( int i = 0; i < LEN; ++i ) { base.push_back( NL ); } base.push_back( NACT ); base.push_back( NACT );
      vp::product( base, [&]( const std::vector<int>& d )
      {
        vp::runCase( [&] { return std::string( which == 0 ? "impacts" : which == 1 ? "impacts with memory" : ifmName( im ) ) + ( f ? " with a fixed body" : "" ) + ", layouts and actions " + vp::str( d ) + " " + show( sc ); }, [&]
        {
          std::unique_ptr<Sim> s( new Sim( build( sc ) ) );
          const std::vector<VX> lay = layouts( *s );
          std::unique_ptr<UnconstrainedMap> um = umap( D == 3 ? 1 : 0 );
          std::unique_ptr<ImpactMap> imap( new ImpactMap( which == 1 ) );
          std::unique_ptr<ImpactFrictionMap> ifm; if( im >= 0 ) { ifm = ifmap( im, 1.0e-6, 100 ); }
          Seen prev;
          PythonScripting cb;
          g_unique = 0;
          for( int k = 0; k < LEN; ++k )
          {
            q( *s ) = lay[d[k]]; v( *s ).setZero(); stir( v( *s ), d[k], f );
            Seen now;
            VX q1 = q( *s ), v1 = v( *s );
            const VX q0 = q( *s ), v0 = v( *s );
            if( im < 0 ) { RecImpact op( &now ); imap->flow( cb, fsys( *s ), csys( *s ), *um, op, unsigned( k + 1 ), 0.0625, 0.0, q0, v0, q1, v1 ); }
            else { RecFriction fs( &now, f ); ifm->flow( cb, fsys( *s ), csys( *s ), *um, fs, unsigned( k + 1 ), 0.0625, 0.0, 0.5, q0, v0, q1, v1 ); }
            vp::transition();
            vp::outcome( now.calls ? "contacts" : "no contact" );
            const bool normal = which == 1 || im == GEO_N || im == SE_N || im == GEO_NF || im == SE_NF, fric = im == GEO_NF || im == SE_NF;
            for( const auto& st : now.start )
            {
              VX want = VX::Zero( st.second.size() );
              const auto pf = prev.answer.find( st.first );
              if( pf != prev.answer.end() && normal )
              {
                if( fric )
                {
                  if( D == 2 ) { want = pf->second; }
                  else
                  {
                    // the impulse as a vector, carried along with the rotation of the contact normal
                    const MX B0 = prev.basis[st.first], B1 = now.basis[st.first];
                    const Eigen::Vector3d n0 = B0.col( 0 ), n1 = B1.col( 0 ), fw = B0 * pf->second;
                    const Eigen::Vector3d a = n0.cross( n1 ); const double c = n0.dot( n1 );
                    Eigen::Vector3d r = fw;
                    if( a.norm() > 1.0e-12 ) { r = c * fw + a.cross( fw ) + a * ( a.dot( fw ) / ( 1.0 + c ) ); }
                    else if( c < 0.0 ) { continue; }   // normal reversed: no unique rotation
                    want = B1.transpose() * r;
                  }
                }
                else { want( 0 ) = pf->second( 0 ); }
                vp::outcome( "given back" );
              }
              const double tol = fric && D == 3 ? 1.0e-8 : 0.0;
              VP_CHECK( ( st.second - want ).cwiseAbs().maxCoeff() <= tol, "step " << k << ": contact " << std::get<0>( st.first ) << " " << std::get<1>( st.first ) << "," << std::get<2>( st.first ) << " starts from " << vp::vstr( st.second ) << " instead of " << vp::vstr( want ) );
            }
            prev = now;
            vp::state( image( *s ) );
            if( k + 1 < LEN )
            {
              switch( d[LEN + k] )
              {
                case 1: { std::istringstream in( image( *s ) ); std::unique_ptr<Sim> t( new Sim( build( sc ) ) ); t->deserialize( in ); s = std::move( t ); break; }
                case 2: { std::unique_ptr<Sim> t( new Sim( *s ) ); s = std::move( t ); break; }
                case 3: { std::unique_ptr<Sim> t( new Sim( build( sc ) ) ); *t = std::move( *s ); s = std::move( t ); break; }
                default: break;
              }
            }
          }
        } );
      } );
    }
  }
  return vp::finish();
}
