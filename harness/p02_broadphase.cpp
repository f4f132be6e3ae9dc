// P02: broad phase. All small collections of boxes on several coordinate lattices.
// Built three times: -DSYS_BALL2D, -DSYS_RB2D, -DSYS_RB3D
#include <cassert>
#include <map>
#include <set>
#include "vp.h"
#if defined( SYS_BALL2D )
#include "ball2d/SpatialGridDetector.h"
constexpr int DIM = 2; using Arr = Array2s;
static AABB mk( const Arr& a, const Arr& b ) { return AABB{ a, b }; }
static void grid( const std::vector<AABB>& x, std::set<std::pair<unsigned,unsigned>>& o ) { SpatialGridDetector::getPotentialOverlaps( x, o ); }
#define HAVE_ALL_PAIRS 1
static void allp( const std::vector<AABB>& x, std::set<std::pair<unsigned,unsigned>>& o ) { SpatialGridDetector::getPotentialOverlapsAllPairs( x, o ); }
#elif defined( SYS_RB2D )
#include "rigidbody2d/SpatialGrid.h"
constexpr int DIM = 2; using Arr = Array2s;
static AABB mk( const Arr& a, const Arr& b ) { return AABB{ a, b }; }
static void grid( const std::vector<AABB>& x, std::set<std::pair<unsigned,unsigned>>& o ) { SpatialGrid::getPotentialOverlaps( x, o ); }
#define HAVE_QUERY 1
#else
#include "rigidbody3d/SpatialGridDetector.h"
constexpr int DIM = 3; using Arr = Array3s;
static AABB mk( const Arr& a, const Arr& b ) { AABB r; r.min() = a; r.max() = b; return r; }
static void grid( const std::vector<AABB>& x, std::set<std::pair<unsigned,unsigned>>& o ) { SpatialGridDetector::getPotentialOverlaps( x, o ); }
#define HAVE_ALL_PAIRS 1
static void allp( const std::vector<AABB>& x, std::set<std::pair<unsigned,unsigned>>& o ) { SpatialGridDetector::getPotentialOverlapsAllPairs( x, o ); }
#endif

static std::string show( const std::vector<AABB>& b )
{
  std::ostringstream o; o.precision( 17 );
  for( const auto& x : b ) { o << "{" << x.min().transpose() << " .. " << x.max().transpose() << "} "; }
  return o.str();
}

static void one( const std::vector<AABB>& b )
{
  std::set<std::pair<unsigned,unsigned>> expect;
  for( unsigned i = 0; i < b.size(); ++i ) { for( unsigned j = i + 1; j < b.size(); ++j )
  {
    bool hit = true;
    for( int d = 0; d < DIM; ++d ) { if( b[i].max()( d ) < b[j].min()( d ) || b[j].max()( d ) < b[i].min()( d ) ) { hit = false; } }
    if( hit ) { expect.insert( { i, j } ); }
  } }
  std::set<std::pair<unsigned,unsigned>> got;
  grid( b, got );
  vp::transition();
  if( got != expect )
  {
    std::ostringstream o;
    o << "boxes " << show( b ) << ": ";
    for( const auto& p : expect ) { if( !got.count( p ) ) { o << "missed (" << p.first << "," << p.second << ") "; } }
    for( const auto& p : got ) { if( !expect.count( p ) ) { o << "spurious (" << p.first << "," << p.second << ") "; } }
    vp::fail( o.str() );
  }
  vp::check( true, []( std::ostream& ){} );
  for( unsigned i = 0; i < b.size(); ++i ) { for( unsigned j = 0; j < b.size(); ++j ) { if( i != j )
  {
    const bool e = expect.count( { std::min( i, j ), std::max( i, j ) } ) > 0;
    VP_CHECK( b[i].overlaps( b[j] ) == e, "overlaps( " << i << "," << j << " ) of " << show( b ) );
  } } }
#ifdef HAVE_ALL_PAIRS
  { std::set<std::pair<unsigned,unsigned>> g2; allp( b, g2 ); VP_CHECK( g2 == expect, "all-pairs variant differs on " << show( b ) ); }
#endif
#ifdef HAVE_QUERY
  if( !b.empty() )
  {
    const std::vector<AABB> rest( b.begin() + 1, b.end() );
    std::vector<unsigned> r;
    SpatialGrid::getPotentialOverlaps( b[0], rest, r );
    std::vector<unsigned> e; for( unsigned j = 1; j < b.size(); ++j ) { if( expect.count( { 0, j } ) ) { e.push_back( j - 1 ); } }
    std::vector<unsigned> s = r; std::sort( s.begin(), s.end() );
    VP_CHECK( s == e, "single-box query differs on " << show( b ) );
  }
#endif
  uint64_t h = 1469598103934665603ull;
  for( const auto& p : expect ) { h = vp::fnv( &p, sizeof p, h ); }
  vp::state( vp::fnv( b.data(), 0, h ) ^ b.size() );
  vp::outcome( "overlapping pairs=" + ( expect.size() > 6 ? std::string( "7+" ) : std::to_string( expect.size() ) ) );
}

// All boxes with corners on the lattice
static std::vector<AABB> boxes( const std::vector<double>& c, double scale, double off )
{
  std::vector<std::pair<double,double>> iv;
  for( size_t i = 0; i < c.size(); ++i ) { for( size_t j = i + 1; j < c.size(); ++j ) { iv.push_back( { c[i], c[j] } ); } }
  std::vector<AABB> out;
  vp::product( std::vector<int>( DIM, int( iv.size() ) ), [&]( const std::vector<int>& d )
  {
    Arr a, b; for( int k = 0; k < DIM; ++k ) { a( k ) = iv[d[k]].first * scale + off; b( k ) = iv[d[k]].second * scale + off; }
    out.push_back( mk( a, b ) );
  } );
  return out;
}

static void collections( const std::string& name, const std::vector<double>& c, int n, double scale, double off )
{
  const std::vector<AABB> bx = boxes( c, scale, off );
  const int N = int( bx.size() );
  for( int first = 0; first < N; ++first )
  {
    vp::runCase( [&]{ std::ostringstream o; o << "lattice " << name << " scale " << scale << " offset " << off << ": all collections of " << n << " boxes starting with box " << first << " of " << N; return o.str(); }, [&]
    {
      vp::product( std::vector<int>( n - 1, N ), [&]( const std::vector<int>& d )
      {
        std::vector<AABB> b{ bx[first] };
        for( int i : d ) { b.push_back( bx[i] ); }
        one( b );
      } );
    } );
  }
}

// Rows and grids of n equal boxes at a spacing, optionally with one large box swept over all positions
static void rows( int nmax )
{
  for( int n = 1; n <= nmax; ++n )
  {
    vp::runCase( [&]{ return "rows and grids of " + std::to_string( n ) + " boxes, with and without one large box"; }, [&]
    {
      for( double sp : { 0.5, 0.999999, 1.0, 1.0000001, 1.1, 3.0, 50.0 } ) { for( int axis = 0; axis < DIM; ++axis ) { for( int cols = 1; cols <= n; ++cols ) { for( double off : { 0.0, -13.37 } )
      {
        std::vector<AABB> b;
        for( int i = 0; i < n; ++i )
        {
          Arr a = Arr::Constant( off );
          a( axis ) += sp * ( i % cols ); a( ( axis + 1 ) % DIM ) += sp * ( i / cols );
          b.push_back( mk( a, a + 1.0 ) );
        }
        one( b );
        for( double big : { 2.0, 7.5, 100.0 } ) { for( int at = -1; at <= n; at += std::max( 1, n / 3 ) ) { for( int where : { 0, n / 2, n } )
        {
          std::vector<AABB> c = b;
          Arr a = Arr::Constant( off ); a( axis ) += sp * at + 0.3;
          c.insert( c.begin() + where, mk( a, a + big ) );
          one( c );
        } } }
      } } } }
    } );
  }
}

// Large collections of fixed patterns: every size in the menu, so that nothing depends on how many boxes, cells or boxes per cell there are
static void crowds()
{
  std::vector<int> sizes;
  for( int n = 4; n <= 40; ++n ) { sizes.push_back( n ); }
  for( int c : { 50, 64, 100, 128, 200, 256, 300 } ) { for( int d = -1; d <= 1; ++d ) { sizes.push_back( c + d ); } }
  if( vp::thorough() ) { for( int c : { 512, 700, 1000, 1024 } ) { for( int d = -1; d <= 1; ++d ) { sizes.push_back( c + d ); } } }
  const char* names[] = { "pile", "chain", "carpet", "giant first", "giant last", "clusters", "needles", "mixed widths", "spanning box" };
  for( int n : sizes ) { for( int pat = 0; pat < 9; ++pat )
  {
    vp::runCase( [&]{ return std::string( names[pat] ) + " of " + std::to_string( n ) + " boxes"; },
    [&]{
      for( int axis = 0; axis < DIM; ++axis ) { for( double scale : { 1.0, 0.037 } )
      {
        const Arr off = Arr::Constant( scale == 1.0 ? 0.0 : -7.3 );
        std::vector<AABB> b;
        auto put = [&]( const Arr& lo, const Arr& hi ) { b.push_back( mk( Arr( scale * lo + off ), Arr( scale * hi + off ) ) ); };
        const int side = std::max( 2, int( std::ceil( std::pow( double( n ), 1.0 / DIM ) ) ) );
        for( int i = 0; i < n; ++i )
        {
          Arr c = Arr::Zero();
          int r = i;
          for( int d = 0; d < DIM; ++d ) { c( ( axis + d ) % DIM ) = r % side; r /= side; }
          if( pat == 0 ) { put( Arr::Constant( -1.0 - 0.001 * i ) , Arr::Constant( 1.0 + 0.0005 * ( i * 7 % n ) ) ); }
          else if( pat == 1 ) { Arr lo = Arr::Zero(); lo( axis ) = 1.0 * i + ( i % 5 == 4 ? 0.125 : 0.0 ); put( lo, Arr( lo + 1.0 ) ); }
          else if( pat == 2 ) { const Arr lo = 1.25 * c; put( lo, Arr( lo + ( i % 3 == 0 ? 1.25 : 1.0 ) ) ); }
          else if( pat == 3 || pat == 4 )
          {
            const bool big = pat == 3 ? i == 0 : i == n - 1;
            if( big ) { put( Arr::Constant( -0.5 ), Arr::Constant( 0.5 + 2.0 * side ) ); } else { const Arr lo = 2.0 * c; put( lo, Arr( lo + ( i % 2 ? 0.5 : 2.0 ) ) ); }
          }
          else if( pat == 5 ) { Arr lo = 0.75 * c; lo( axis ) += ( i % 2 ) * 60.0; put( lo, Arr( lo + 1.0 ) ); }
          else if( pat == 6 ) { Arr lo = Arr::Zero(), hi = Arr::Constant( 1.0 ); const int l = i % DIM, m = ( l + 1 ) % DIM; hi( l ) = 90.0; lo( m ) = 1.5 * ( i / DIM ); hi( m ) = lo( m ) + 0.5; lo( l ) = -3.0; put( lo, hi ); }
          else if( pat == 8 ) { Arr lo = Arr::Zero(), hi = Arr::Constant( 1.0 ); if( i == n / 2 ) { lo( axis ) = -0.5; hi( axis ) = 2.0 * n; } else { lo( axis ) = 2.0 * i; hi( axis ) = 2.0 * i + 1.0; } put( lo, hi ); }
          else { const Arr lo = 1.5 * c; Arr hi = lo + 0.5; hi( ( axis + i ) % DIM ) += 0.25 * ( i % 11 ); put( lo, hi ); }
        }
        one( b );
      } }
      vp::outcome( std::string( "crowd: " ) + names[pat] );
    } );
  } }
}

// More boxes than any 16-bit count: a chain whose pairs are known without a quadratic reference
static void longChain()
{
  for( int axis = 0; axis < DIM; ++axis ) { for( int n : { 40000, 70000 } )
  {
    vp::runCase( [&]{ return "chain of " + std::to_string( n ) + " boxes along axis " + std::to_string( axis ); },
    [&]{
      std::vector<AABB> b; std::set<std::pair<unsigned,unsigned>> expect, got;
      for( int i = 0; i < n; ++i )
      {
        Arr lo = Arr::Zero(); lo( axis ) = 1.0 * i;
        b.push_back( mk( lo, Arr( lo + 1.0 - ( i % 3 == 2 ? 0.125 : 0.0 ) ) ) );
        if( i && ( i - 1 ) % 3 != 2 ) { expect.insert( { unsigned( i - 1 ), unsigned( i ) } ); }
      }
      grid( b, got );
      vp::transition();
      VP_CHECK( got == expect, "reported " << got.size() << " pairs, " << expect.size() << " touch" );
      vp::outcome( "chain longer than 16 bits" );
    } );
  } }
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  const bool T = vp::thorough();
  vp::runCase( []{ return std::string( "no boxes and one box" ); }, []{ one( {} ); one( { mk( Arr::Constant( -1 ), Arr::Constant( 2 ) ) } ); } );
  const std::vector<double> tiny{ 0, 0.01, 0.02, 1, 10 }, eps{ 0, 1e-9, 0.5, 0.5 + 1e-7, 1.0 };
  if( DIM == 2 )
  {
    collections( "0..4", { 0, 1, 2, 3, 4 }, 2, 1, 0 );
    collections( "0..4", { 0, 1, 2, 3, 4 }, 2, 0.0137, -1000.3 );
    collections( "0..4", { 0, 1, 2, 3, 4 }, 2, 37.1, 5.5 );
    collections( "0..3", { 0, 1, 2, 3 }, 3, 1, 0 );
    collections( "0..3", { 0, 1, 2, 3 }, 3, 1.0 / 3.0, -0.77 );
    collections( "mixed sizes", tiny, T ? 3 : 2, 1, -0.3 );
    collections( "near-touching", eps, T ? 3 : 2, 1, 0 );
    collections( "mixed sizes small", { 0, 0.01, 1, 10 }, 3, 1, 0 );
    collections( "0..2", { 0, 1, 2 }, 5, 0.7, 0.1 );
    if( T ) { collections( "0..3", { 0, 1, 2, 3 }, 4, 1, 0 ); collections( "0..4", { 0, 1, 2, 3, 4 }, 3, 1, 0 ); }
  }
  else
  {
    collections( "0..3", { 0, 1, 2, 3 }, 2, 1, 0 );
    collections( "0..3", { 0, 1, 2, 3 }, 2, 0.0137, -1000.3 );
    collections( "mixed sizes", { 0, 0.05, 1, 4 }, 2, 1, -0.3 );
    collections( "near-touching", { 0, 0.5, 0.5 + 1e-7, 1.0 }, 2, 1, 0 );
    collections( "0..2", { 0, 1, 2 }, 3, 1, 0 );
    collections( "0..2", { 0, 1, 2 }, 3, 1.0 / 3.0, -0.77 );
    collections( "mixed sizes small", { 0, 0.1, 2 }, 3, 1, 0 );
    if( T ) { collections( "0..2", { 0, 1, 2 }, 4, 0.7, 0.1 ); collections( "0..3", { 0, 1, 2, 3 }, 3, 1, 0 ); }
  }
  rows( T ? 24 : 10 );
  crowds();
  longChain();
  return vp::finish();
}
