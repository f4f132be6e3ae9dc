// P11: Rational time steps are exact. All operand pairs / operator chains / short texts.
#include <cassert>
#include <algorithm>
#include <cstdint>
#include "vp.h"
#include "scisim/Math/Rational.h"
#include "scisim/Utilities.h"

using i128 = __int128;
using LL = std::intmax_t;

// Reference: an exact fraction, kept independently in lowest terms
struct Ref { i128 n, d; };
static i128 gcd128( i128 a, i128 b ) { if( a < 0 ) a = -a; if( b < 0 ) b = -b; while( b ) { i128 t = a % b; a = b; b = t; } return a; }
static Ref norm( i128 n, i128 d ) { if( d < 0 ) { n = -n; d = -d; } if( n == 0 ) { return { 0, 1 }; } i128 g = gcd128( n, d ); return { n / g, d / g }; }

template<typename T> static void same( const Rational<T>& r, const Ref& e, const std::string& what )
{
  VP_CHECK( i128( r.numerator() ) == e.n && i128( r.denominator() ) == e.d, what << ": got " << r.numerator() << "/" << r.denominator() << " expected " << (long long)( e.n ) << "/" << (long long)( e.d ) );
  VP_CHECK( r.positive() == ( e.n > 0 ), what << ": positive()" );
  VP_CHECK( r.nonNegative() == ( e.n >= 0 ), what << ": nonNegative()" );
  VP_CHECK( r.isInteger() == ( e.d == 1 ), what << ": isInteger()" );
  VP_CHECK( double( r ) == double( (long long)( e.n ) ) / double( (long long)( e.d ) ), what << ": conversion to double" );
  vp::state( vp::hashStr( std::to_string( (long long)( e.n ) ) + "/" + std::to_string( (long long)( e.d ) ) ) );
}

template<typename T> static void pairs( const char* tname, const std::vector<std::pair<T,T>>& vals, const std::vector<T>& ints )
{
  for( const auto& A : vals )
  {
    vp::runCase( [&]{ std::ostringstream o; o << "operators on " << tname << " " << A.first << "/" << A.second << " with every operand"; return o.str(); }, [&]
    {
      const Ref ra = norm( A.first, A.second );
      const Rational<T> a{ A.first, A.second };
      same( a, ra, "construction" );
      { Rational<T> s; same( s, { 0, 1 }, "default" ); Rational<T>& ret = s.set( A.first, A.second ); same( s, ra, "set" ); VP_CHECK( &ret == &s, "set returns *this" ); }
      { std::ostringstream o; o << a; std::ostringstream e; e << a.numerator() << " / " << a.denominator(); VP_CHECK( o.str() == e.str(), "printing " << o.str() ); }
      { std::stringstream st; Utilities::serialize( a, st ); const Rational<T> b = Utilities::deserialize<Rational<T>>( st ); VP_CHECK( b == a, "binary round trip" ); }
      // aliasing
      { Rational<T> x{ a }; x += x; same( x, norm( ra.n * 2, ra.d ), "x += x" ); }
      { Rational<T> x{ a }; x -= x; same( x, { 0, 1 }, "x -= x" ); }
      { Rational<T> x{ a }; x *= x; same( x, norm( ra.n * ra.n, ra.d * ra.d ), "x *= x" ); }
      if( ra.n != 0 ) { Rational<T> x{ a }; x /= x; same( x, { 1, 1 }, "x /= x" ); }
      for( const auto& B : vals )
      {
        vp::transition( 4 );
        const Ref rb = norm( B.first, B.second );
        const Rational<T> b{ B.first, B.second };
        std::ostringstream w; w << A.first << "/" << A.second << " ? " << B.first << "/" << B.second;
        { Rational<T> x{ a }; Rational<T>& r = ( x += b ); VP_CHECK( &r == &x, "+= returns *this" ); same( x, norm( ra.n * rb.d + rb.n * ra.d, ra.d * rb.d ), w.str() + " +=" ); }
        { Rational<T> x{ a }; x -= b; same( x, norm( ra.n * rb.d - rb.n * ra.d, ra.d * rb.d ), w.str() + " -=" ); }
        { Rational<T> x{ a }; x *= b; same( x, norm( ra.n * rb.n, ra.d * rb.d ), w.str() + " *=" ); }
        if( rb.n != 0 ) { Rational<T> x{ a }; x /= b; same( x, norm( ra.n * rb.d, ra.d * rb.n ), w.str() + " /=" ); }
        const bool eq = ra.n == rb.n && ra.d == rb.d;
        VP_CHECK( ( a == b ) == eq, w.str() << " ==" );
        VP_CHECK( ( a != b ) == !eq, w.str() << " !=" );
        vp::outcome( eq ? "equal" : "different" );
      }
      for( const T k : ints )
      {
        vp::transition( 4 );
        std::ostringstream w; w << A.first << "/" << A.second << " ? " << k;
        same( a * k, norm( ra.n * k, ra.d ), w.str() + " a*k" );
        same( k * a, norm( ra.n * k, ra.d ), w.str() + " k*a" );
        if( k != 0 ) { same( a / k, norm( ra.n, ra.d * k ), w.str() + " a/k" ); }
        if( ra.n != 0 ) { same( k / a, norm( ra.d * k, ra.n ), w.str() + " k/a" ); }
        VP_CHECK( ( a == k ) == ( ra.d == 1 && ra.n == k ), w.str() << " a==k" );
        VP_CHECK( ( k == a ) == ( ra.d == 1 && ra.n == k ), w.str() << " k==a" );
      }
    } );
  }
}

// Every chain of compound operations up to a depth
static void chains( int depth )
{
  const std::vector<std::pair<int,int>> operands{ { 1, 1 }, { -1, 2 }, { 2, 3 }, { 3, -4 }, { 0, 5 }, { 5, 6 } };
  const int nops = 4 * int( operands.size() );
  std::vector<int> base( depth, nops );
  for( const auto& s : operands )
  {
    for( int first = 0; first < nops; ++first )
    {
      vp::runCase( [&]{ std::ostringstream o; o << "all chains of " << depth << " operations from " << s.first << "/" << s.second << " starting with op " << first; return o.str(); }, [&]
      {
        std::vector<int> b( depth - 1, nops );
        vp::product( b, [&]( const std::vector<int>& d )
        {
          Rational<LL> x{ s.first, s.second };
          Ref e = norm( s.first, s.second );
          std::string path;
          for( int i = 0; i < depth; ++i )
          {
            const int op = i == 0 ? first : d[i-1];
            const auto& o = operands[ op / 4 ];
            const Ref ro = norm( o.first, o.second );
            const Rational<LL> y{ o.first, o.second };
            path += "+-*/"[ op % 4 ]; path += std::to_string( op / 4 );
            switch( op % 4 )
            {
              case 0: x += y; e = norm( e.n * ro.d + ro.n * e.d, e.d * ro.d ); break;
              case 1: x -= y; e = norm( e.n * ro.d - ro.n * e.d, e.d * ro.d ); break;
              case 2: x *= y; e = norm( e.n * ro.n, e.d * ro.d ); break;
              default: if( ro.n == 0 ) { return; } x /= y; e = norm( e.n * ro.d, e.d * ro.n ); break;
            }
            vp::transition();
            same( x, e, path );
          }
        } );
      } );
    }
  }
}

// Number texts. Returns 1: denotes a number (value in e), -1: must be refused, 0: not claimed
static int classify( const std::string& in, Ref& e )
{
  std::string s;
  for( char c : in ) { if( c != ' ' && c != '\t' && c != '\n' ) { s += c; } }
  const int slashes = int( std::count( s.begin(), s.end(), '/' ) ), dots = int( std::count( s.begin(), s.end(), '.' ) );
  if( slashes > 1 || dots > 1 || ( slashes == 1 && dots > 0 ) ) { return -1; }
  auto readInt = []( const std::string& t, bool& neg, std::string& digits ) -> bool
  {
    size_t i = 0; neg = false;
    if( i < t.size() && ( t[i] == '+' || t[i] == '-' ) ) { neg = t[i] == '-'; ++i; }
    digits = t.substr( i );
    for( char c : digits ) { if( c < '0' || c > '9' ) { return false; } }
    return true;
  };
  auto val = []( const std::string& d ) { i128 v = 0; for( char c : d ) { v = v * 10 + ( c - '0' ); } return v; };
  if( slashes == 1 )
  {
    const size_t p = s.find( '/' );
    bool nn, dn; std::string nd, dd;
    const bool ok = readInt( s.substr( 0, p ), nn, nd ) && readInt( s.substr( p + 1 ), dn, dd ) ;
    if( !ok ) { return 0; }
    if( nd.empty() || dd.empty() ) { return -1; }
    if( val( dd ) == 0 ) { return -1; }
    e = norm( nn ? -val( nd ) : val( nd ), dn ? -val( dd ) : val( dd ) );
    return 1;
  }
  if( dots == 1 )
  {
    const size_t p = s.find( '.' );
    bool neg; std::string l;
    if( !readInt( s.substr( 0, p ), neg, l ) ) { return 0; }
    const std::string r = s.substr( p + 1 );
    for( char c : r ) { if( c < '0' || c > '9' ) { return 0; } }
    i128 den = 1; for( size_t i = 0; i < r.size(); ++i ) { den *= 10; }
    const i128 m = val( l ) * den + val( r );
    e = norm( neg ? -m : m, den );
    return 1;
  }
  bool neg; std::string l;
  if( !readInt( s, neg, l ) || l.empty() ) { return 0; }
  e = norm( neg ? -val( l ) : val( l ), 1 );
  return 1;
}

template<typename T> static void parseOne( const std::string& t )
{
  Ref e{ 0, 1 };
  const int c = classify( t, e );
  vp::outcome( c == 1 ? "text denotes a number" : c == -1 ? "text must be refused" : "text not claimed" );
  Rational<T> r{ 77, 13 };
  const bool ok = extractFromString( t, r );
  vp::transition();
  if( c == 1 )
  {
    VP_CHECK( ok, "refused '" << t << "'" );
    same( r, e, "reading '" + t + "'" );
  }
  else if( c == -1 ) { VP_CHECK( !ok, "accepted '" << t << "' as " << r.numerator() << "/" << r.denominator() ); }
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  {
    const int N = vp::thorough() ? 24 : 12;
    std::vector<std::pair<int,int>> vi; std::vector<std::pair<LL,LL>> vl;
    for( int d = -N; d <= N; ++d ) { if( d == 0 ) { continue; } for( int n = -N; n <= N; ++n ) { vi.push_back( { n, d } ); vl.push_back( { n, d } ); } }
    std::vector<int> ki; std::vector<LL> kl;
    for( int k = -N; k <= N; ++k ) { ki.push_back( k ); kl.push_back( k ); }
    pairs<int>( "int", vi, ki );
    pairs<LL>( "intmax", vl, kl );
  }
  {
    // Large magnitudes that still have exact products
    std::vector<std::pair<LL,LL>> v; std::vector<LL> k{ 1, 2, 1000000007ll, 2147483647ll, -2147483648ll };
    const std::vector<LL> m{ 1, 3, 1000, 65536, 999983, 1000000007ll, 2147483646ll, 2147483647ll };
    for( LL n : m ) { for( LL d : m ) { v.push_back( { n, d } ); v.push_back( { -n, d } ); } }
    v.push_back( { 0, 2147483647ll } );
    std::vector<std::pair<LL,LL>> w;
    for( auto& x : v ) { if( std::abs( x.first ) <= 1000000007ll && x.second <= 1000000007ll ) { w.push_back( x ); } }
    pairs<LL>( "large intmax", w, k );
  }
  chains( vp::thorough() ? 4 : 3 );
  {
    // All texts over the alphabet up to a length
    const std::string al = "015-+./ ";
    const int L = vp::thorough() ? 8 : 6;
    std::vector<std::string> heads{ "" };
    for( char a : al ) { for( char b : al ) { heads.push_back( std::string() + a + b ); } }
    vp::runCase( []{ return std::string( "texts of length 0 and 1" ); }, [&]{ parseOne<LL>( "" ); for( char a : al ) { parseOne<LL>( std::string( 1, a ) ); } } );
    for( size_t h = 1; h < heads.size(); ++h )
    {
      vp::runCase( [&]{ return "all texts up to length " + std::to_string( L ) + " starting with '" + heads[h] + "'"; }, [&]
      {
        for( int len = 0; len <= L - 2; ++len )
        {
          vp::product( std::vector<int>( len, int( al.size() ) ), [&]( const std::vector<int>& d )
          {
            std::string t = heads[h];
            for( int i : d ) { t += al[i]; }
            parseOne<LL>( t );
            if( len <= 3 ) { parseOne<int>( t ); }
          } );
        }
      } );
    }
    // Longer decimals: every digit string of length up to 9 on either side from a few patterns
    vp::runCase( []{ return std::string( "long decimals" ); }, [&]
    {
      const std::vector<std::string> parts{ "", "0", "7", "00", "10", "123", "999999", "000001", "100000", "900800" };
      for( const char* sg : { "", "-", "+", "- ", " +" } ) { for( const auto& l : parts ) { for( const auto& r : parts ) {
        parseOne<LL>( sg + l + "." + r ); if( !l.empty() ) { parseOne<LL>( sg + l ); if( !r.empty() ) { parseOne<LL>( sg + l + "/" + r ); parseOne<LL>( sg + l + " / -" + r ); } } } } }
    } );
  }
  return vp::finish();
}
