// P12: text helpers and binary primitives. All short strings; all short sequences of values.
#include <cassert>
#include "vp.h"
#include <iomanip>
#include <memory>
#include "scisim/StringUtilities.h"
#include "scisim/Utilities.h"
#include "scisim/Math/MathUtilities.h"

static bool ws( char c ) { return c == ' ' || ( c >= '\t' && c <= '\r' ); }

static std::string q( const std::string& s ) { return "'" + vp::jsonEscape( s ) + "'"; }

static void stringFunctions( const std::string& s, const std::string& alphabet )
{
  using namespace StringUtilities;
  const size_t n = s.size();
  size_t f = 0; while( f < n && ws( s[f] ) ) { ++f; }
  size_t b = n; while( b > f && ws( s[b-1] ) ) { --b; }
  size_t b2 = n; while( b2 > 0 && ws( s[b2-1] ) ) { --b2; }
  VP_CHECK( trimFront( s ) == s.substr( f ), "trimFront " << q( s ) );
  VP_CHECK( trimBack( s ) == s.substr( 0, b2 ), "trimBack " << q( s ) );
  VP_CHECK( trim( s ) == s.substr( f, b - f ), "trim " << q( s ) );
  std::string nows; for( char c : s ) { if( !ws( c ) ) { nows += c; } }
  VP_CHECK( removeWhiteSpace( s ) == nows, "removeWhiteSpace " << q( s ) );
  for( unsigned w = 0; w <= n + 2; ++w )
  {
    std::string e = s; while( e.size() < w ) { e = "0" + e; }
    VP_CHECK( padWithZeros( s, w ) == e, "padWithZeros " << q( s ) << " to " << w << " gives " << q( padWithZeros( s, w ) ) );
  }
  for( char c : alphabet )
  {
    vp::transition();
    // split at last occurrence
    {
      std::string l = "junk", r = "junk";
      splitAtLastCharacterOccurence( s, l, r, c );
      int p = -1; for( size_t i = 0; i < n; ++i ) { if( s[i] == c ) { p = int( i ); } }
      const std::string el = p < 0 ? s : s.substr( 0, size_t( p ) ), er = p < 0 ? "" : s.substr( size_t( p ) + 1 );
      VP_CHECK( l == el && r == er, "splitAtLast " << q( s ) << " at " << q( std::string( 1, c ) ) << " gives " << q( l ) << q( r ) );
    }
    {
      size_t p = n; for( size_t i = n; i-- > 0; ) { if( s[i] == c ) { p = i; } }
      const size_t e = p == n ? 0 : n - p - 1;
      VP_CHECK( computeNumCharactersToRight( s, c ) == e, "computeNumCharactersToRight " << q( s ) << " of " << q( std::string( 1, c ) ) );
    }
    {
      size_t e = n; while( e > 0 && s[e-1] == c ) { --e; }
      VP_CHECK( trimCharacterRight( s, c ) == s.substr( 0, e ), "trimCharacterRight " << q( s ) << " of " << q( std::string( 1, c ) ) );
    }
    {
      std::vector<std::string> e;
      if( n > 0 ) { e.push_back( "" ); for( char x : s ) { if( x == c ) { e.push_back( "" ); } else { e.back() += x; } } }
      const std::vector<std::string> t = tokenize( s, c );
      VP_CHECK( t == e, "tokenize " << q( s ) << " at " << q( std::string( 1, c ) ) << " gives " << t.size() << " tokens, expected " << e.size() );
      std::vector<std::string> acc{ "kept" };
      tokenize( s, c, acc );
      VP_CHECK( acc.size() == e.size() + 1 && acc[0] == "kept" && std::equal( e.begin(), e.end(), acc.begin() + 1 ), "tokenize appends for " << q( s ) );
      vp::outcome( "tokens=" + std::to_string( e.size() ) );
    }
  }
  vp::state( s );
}

static bool plainInt( const std::string& t )
{
  size_t i = 0; if( i < t.size() && ( t[i] == '-' || t[i] == '+' ) ) { ++i; }
  if( i == t.size() ) { return false; }
  for( ; i < t.size(); ++i ) { if( t[i] < '0' || t[i] > '9' ) { return false; } }
  return true;
}

static bool plainReal( const std::string& t )
{
  size_t i = 0; if( i < t.size() && ( t[i] == '-' || t[i] == '+' ) ) { ++i; }
  size_t d = 0; while( i < t.size() && isdigit( t[i] ) ) { ++i; ++d; }
  if( i < t.size() && t[i] == '.' ) { ++i; while( i < t.size() && isdigit( t[i] ) ) { ++i; ++d; } }
  if( d == 0 ) { return false; }
  if( i < t.size() && t[i] == 'e' )
  {
    ++i; if( i < t.size() && ( t[i] == '-' || t[i] == '+' ) ) { ++i; }
    size_t e = 0; while( i < t.size() && isdigit( t[i] ) ) { ++i; ++e; }
    if( e == 0 ) { return false; }
  }
  return i == t.size();
}

static void numbers( const std::string& s )
{
  using namespace StringUtilities;
  std::string t = s; while( !t.empty() && ws( t.front() ) ) { t.erase( 0, 1 ); } while( !t.empty() && ws( t.back() ) ) { t.pop_back(); }
  const bool anydigit = t.find_first_of( "0123456789" ) != std::string::npos;
  vp::transition();
  if( plainInt( t ) )
  {
    int v = -99; VP_CHECK( extractFromString( s, v ) && v == std::stoi( t ), "reading int " << q( s ) << " gave " << v );
    long long w = -99; VP_CHECK( extractFromString( s, w ) && w == std::stoll( t ), "reading long long " << q( s ) );
    vp::outcome( "int" );
  }
  else if( !anydigit ) { int v; VP_CHECK( !extractFromString( s, v ), "accepted " << q( s ) << " as an int" ); }
  if( plainReal( t ) && ( std::isinf( std::strtod( t.c_str(), nullptr ) ) || ( std::strtod( t.c_str(), nullptr ) == 0.0 && t.find( 'e' ) != std::string::npos ) ) )
  {
    vp::outcome( "outside the range of double: not claimed" );
  }
  else if( plainReal( t ) )
  {
    const double e = std::strtod( t.c_str(), nullptr );
    double v = -99; VP_CHECK( extractFromString( s, v ) && v == e, "reading double " << q( s ) << " gave " << v );
    double w = -99; VP_CHECK( extractScalarFromString( s, w ) && w == e, "reading scalar " << q( s ) << " gave " << w );
    vp::outcome( "real" );
  }
  else if( !anydigit )
  {
    double v; VP_CHECK( !extractFromString( s, v ), "accepted " << q( s ) << " as a double" );
    double w; VP_CHECK( !extractScalarFromString( s, w ), "accepted " << q( s ) << " as a scalar" );
    vp::outcome( "not a number" );
  }
}

static void scalarLists( int maxn )
{
  const std::vector<std::string> items{ "1", "-2.5", "inf", "-inf", "x", "", " 3 ", "1e-3" };
  const double INF = std::numeric_limits<double>::infinity();
  const std::vector<double> val{ 1, -2.5, INF, -INF, NAN, NAN, 3, 1e-3 };
  for( int n = 0; n <= maxn; ++n )
  {
    vp::product( std::vector<int>( n, int( items.size() ) ), [&]( const std::vector<int>& d )
    {
      for( const char delim : { ' ', ',' } )
      {
        std::string text; bool valid = true; bool skip = false;
        for( int i = 0; i < n; ++i )
        {
          if( i ) { text += delim; }
          text += items[d[i]];
          if( d[i] == 4 || d[i] == 5 ) { valid = false; }
          if( d[i] == 6 && delim == ' ' ) { skip = true; }
        }
        if( skip || ( n == 1 && d[0] == 5 ) ) { continue; }   // " 3 " holds the delimiter; a lone empty entry is no entry
        for( int ask = 0; ask <= maxn + 1; ++ask )
        {
          vp::transition();
          VectorXs out;
          const bool ok = StringUtilities::readScalarList( text, unsigned( ask ), delim, out );
          const bool expect = valid && ask == n;
          VP_CHECK( ok == expect, "readScalarList " << q( text ) << " asking for " << ask << " returned " << ok );
          if( ok ) { VP_CHECK( out.size() == n, "size" ); for( int i = 0; i < n; ++i ) { VP_CHECK( out( i ) == val[d[i]], "readScalarList " << q( text ) << " entry " << i << " is " << out( i ) ); } }
        }
      }
    } );
  }
}

// ---- binary ----
struct Blob   // not trivially copyable, own serialisation
{
  std::string s;
  explicit Blob( const std::string& x ) : s( x ) {}
  explicit Blob( std::istream& i ) : s( StringUtilities::deserialize( i ) ) {}
  void serialize( std::ostream& o ) const { StringUtilities::serialize( s, o ); }
  std::unique_ptr<Blob> clone() const { return std::unique_ptr<Blob>( new Blob( s ) ); }
  ~Blob() {}
};

struct Item { std::string name; std::function<void(std::ostream&)> put; std::function<bool(std::istream&)> get; };

template<typename M> static bool bitsame( const M& a, const M& b )
{
  return a.rows() == b.rows() && a.cols() == b.cols() && ( a.size() == 0 || std::memcmp( a.data(), b.data(), sizeof( typename M::Scalar ) * size_t( a.size() ) ) == 0 );
}

template<typename T> static void addPod( std::vector<Item>& v, const std::string& n, T x )
{
  v.push_back( { n, [x]( std::ostream& o ) { Utilities::serialize( x, o ); }, [x]( std::istream& i ) { const T y = Utilities::deserialize<T>( i ); return std::memcmp( &x, &y, sizeof( T ) ) == 0; } } );
}
template<typename T> static void addVec( std::vector<Item>& v, const std::string& n, std::vector<T> x )
{
  v.push_back( { n, [x]( std::ostream& o ) { Utilities::serialize( x, o ); }, [x]( std::istream& i ) { return Utilities::deserialize<std::vector<T>>( i ) == x; } } );
}
static void addStr( std::vector<Item>& v, const std::string& x )
{
  v.push_back( { "string " + q( x ), [x]( std::ostream& o ) { StringUtilities::serialize( x, o ); }, [x]( std::istream& i ) { return StringUtilities::deserialize( i ) == x; } } );
}
template<typename M> static void addDense( std::vector<Item>& v, const std::string& n, M x )
{
  v.push_back( { n, [x]( std::ostream& o ) { MathUtilities::serialize( x, o ); }, [x]( std::istream& i ) { return bitsame<M>( MathUtilities::deserialize<M>( i ), x ); } } );
}
static void addSparse( std::vector<Item>& v, const SparseMatrixsc& x )
{
  std::ostringstream n; n << "sparse " << x.rows() << "x" << x.cols() << " nnz " << x.nonZeros();
  v.push_back( { n.str(), [x]( std::ostream& o ) { MathUtilities::serialize( x, o ); }, [x]( std::istream& i )
  {
    SparseMatrixsc y( 1, 5 ); y.insert( 0, 3 ) = 9; y.makeCompressed();
    MathUtilities::deserialize( y, i );
    if( y.rows() != x.rows() || y.cols() != x.cols() || y.nonZeros() != x.nonZeros() || !y.isCompressed() ) { return false; }
    return bitsame<MatrixXXsc>( MatrixXXsc( y ), MatrixXXsc( x ) );
  } } );
}

static SparseMatrixsc sparse( int r, int c, unsigned pattern )
{
  SparseMatrixsc A( r, c );
  std::vector<Eigen::Triplet<double>> t;
  for( int j = 0; j < c; ++j ) { for( int i = 0; i < r; ++i ) { if( pattern >> ( j * r + i ) & 1u ) { t.push_back( { i, j, 1.5 + i * 10 + j * 0.25 } ); } } }
  A.setFromTriplets( t.begin(), t.end() ); A.makeCompressed();
  return A;
}

static std::vector<Item> menu( bool big )
{
  std::vector<Item> v;
  addPod<bool>( v, "bool true", true ); addPod<unsigned>( v, "unsigned", 8675309u ); addPod<double>( v, "nan", std::numeric_limits<double>::quiet_NaN() );
  addVec<int>( v, "vector<int>{}", {} ); addVec<int>( v, "vector<int>{1,-2}", { 1, -2 } ); addVec<bool>( v, "vector<bool>{}", {} ); addVec<bool>( v, "vector<bool>{1,0,0}", { true, false, false } );
  addStr( v, "" ); addStr( v, std::string( "a\0b", 3 ) );
  { VectorXs x( 0 ); addDense( v, "VectorXs(0)", x ); } { VectorXs x( 3 ); x << 1, -0.0, 1e-300; addDense( v, "VectorXs(3)", x ); }
  { Vector2s x( 3.25, -1 ); addDense( v, "Vector2s", x ); } { Matrix33sr x; x << 1, 2, 3, 4, 5, 6, 7, 8, 9; addDense( v, "Matrix33sr", x ); }
  { Matrix3Xsc x( 3, 0 ); addDense( v, "Matrix3Xsc(0)", x ); } { Matrix3Xsc x( 3, 2 ); x << 1, 2, 3, 4, 5, 6; addDense( v, "Matrix3Xsc(2)", x ); }
  { MatrixX2sr x( 3, 2 ); x << 1, 2, 3, 4, 5, 6; addDense( v, "MatrixX2sr(3)", x ); }
  addSparse( v, sparse( 3, 2, 0 ) ); addSparse( v, sparse( 2, 3, 0x2b ) );
  v.push_back( { "vector<string>{'','xy'}", []( std::ostream& o ) { StringUtilities::serializeVector( { "", "xy" }, o ); }, []( std::istream& i ) { return StringUtilities::deserializeVector( i ) == std::vector<std::string>{ "", "xy" }; } } );
  v.push_back( { "vector<Blob>", []( std::ostream& o ) { std::vector<Blob> b; b.emplace_back( std::string( "p" ) ); b.emplace_back( std::string( "qq" ) ); Utilities::serialize( b, o ); }, []( std::istream& i ) { const auto b = Utilities::deserialize<std::vector<Blob>>( i ); return b.size() == 2 && b[0].s == "p" && b[1].s == "qq"; } } );
  v.push_back( { "vector<unique_ptr<Blob>>", []( std::ostream& o ) { std::vector<std::unique_ptr<Blob>> b; b.emplace_back( new Blob( std::string( "r" ) ) ); b.emplace_back( new Blob( std::string( "" ) ) ); const auto c = Utilities::clone( b ); Utilities::serialize( c, o ); }, []( std::istream& i ) { const auto b = Utilities::deserialize<std::vector<Blob>>( i ); return b.size() == 2 && b[0].s == "r" && b[1].s == ""; } } );
  if( big )
  {
    addPod<int>( v, "int", -7 ); addPod<float>( v, "float", 0.1f ); addPod<std::uint8_t>( v, "u8", 200 ); addPod<std::int64_t>( v, "i64", -1234567890123ll ); addPod<double>( v, "-0.0", -0.0 ); addPod<char>( v, "char", 'x' ); addPod<bool>( v, "bool false", false );
    addVec<double>( v, "vector<double>", { 0.5, -1e300, 3 } ); addVec<unsigned>( v, "vector<unsigned>", { 7 } ); addVec<bool>( v, "vector<bool> of 70", std::vector<bool>( 70, true ) );
    addStr( v, std::string( 300, 'z' ) );
    { VectorXu x( 2 ); x << 4, 5; addDense( v, "VectorXu", x ); } { Matrix3Xuc x( 3, 2 ); x << 1, 2, 3, 4, 5, 6; addDense( v, "Matrix3Xuc", x ); } { Array3s x( 1, 2, 3 ); addDense( v, "Array3s", x ); } { Array3u x( 1, 2, 3 ); addDense( v, "Array3u", x ); } { Vector3s x( 1, 2, 3 ); addDense( v, "Vector3s", x ); }
    { Eigen::Matrix<double,1,1> x; x << 4; addDense( v, "1x1", x ); }
    for( int r = 0; r <= 3; ++r ) { for( int c = 0; c <= 3; ++c ) { if( r * c <= 6 ) { for( unsigned p = 0; p < ( 1u << ( r * c ) ); ++p ) { addSparse( v, sparse( r, c, p ) ); } } } }
    for( unsigned p = 0; p < 512; ++p ) { addSparse( v, sparse( 3, 3, p ) ); }
  }
  return v;
}

static void sequence( const std::vector<const Item*>& seq )
{
  std::stringstream st( std::ios::in | std::ios::out | std::ios::binary );
  std::vector<std::streampos> ends;
  for( const Item* i : seq ) { i->put( st ); ends.push_back( st.tellp() ); }
  Utilities::serialize( 0x5aa5c33cu, st );
  for( size_t k = 0; k < seq.size(); ++k )
  {
    vp::transition();
    VP_CHECK( seq[k]->get( st ), "value " << k << " (" << seq[k]->name << ") read back differently" );
    VP_CHECK( st.good() && st.tellg() == ends[k], "value " << k << " (" << seq[k]->name << ") consumed " << long( st.tellg() ) << " bytes up to here, wrote " << long( ends[k] ) );
  }
  VP_CHECK( Utilities::deserialize<unsigned>( st ) == 0x5aa5c33cu, "trailing marker" );
  vp::state( st.str() );
}

// Values of every size in a menu: nothing depends on how long a string, list or matrix is
static void sizes()
{
  std::vector<int> ns; for( int n = 0; n <= 70; ++n ) { ns.push_back( n ); }
  for( int c : { 100, 128, 200, 256, 300, 512, 1000, 1024, 4096, 8192 } ) { for( int d = -1; d <= 1; ++d ) { ns.push_back( c + d ); } }
  for( int n : { 32767, 32768, 65535, 65536, 65537 } ) { ns.push_back( n ); }
  for( int n : ns )
  {
    vp::runCase( [&]{ return "values of size " + std::to_string( n ); }, [&]
    {
      const std::string tag = " of size " + std::to_string( n );
      std::vector<Item> v;
      { std::string x; for( int i = 0; i < n; ++i ) { x += char( i * 37 + 11 ); } v.push_back( { "string" + tag, [x]( std::ostream& o ) { StringUtilities::serialize( x, o ); }, [x]( std::istream& i ) { return StringUtilities::deserialize( i ) == x; } } ); }
      { std::vector<std::string> x; for( int i = 0; i < n; ++i ) { x.push_back( std::string( size_t( i % 5 ), char( 'a' + i % 26 ) ) ); } v.push_back( { "vector<string>" + tag, [x]( std::ostream& o ) { StringUtilities::serializeVector( x, o ); }, [x]( std::istream& i ) { return StringUtilities::deserializeVector( i ) == x; } } ); }
      { std::vector<int> x; std::vector<double> y; std::vector<bool> z; for( int i = 0; i < n; ++i ) { x.push_back( i * 7919 - 3 ); y.push_back( 1.0 / ( i + 3 ) ); z.push_back( i % 3 == 1 ); } addVec<int>( v, "vector<int>" + tag, x ); addVec<double>( v, "vector<double>" + tag, y ); addVec<bool>( v, "vector<bool>" + tag, z ); }
      { VectorXs x( n ); VectorXu u( n ); Matrix3Xsc a( 3, n ); Matrix3Xuc b( 3, n ); MatrixX2sr c( n, 2 ); for( int i = 0; i < n; ++i ) { x( i ) = std::sin( 1.0 + i ); u( i ) = unsigned( i ) * 65537u; for( int k = 0; k < 3; ++k ) { a( k, i ) = std::cos( 3.0 * i + k ); b( k, i ) = unsigned( 3 * i + k ); } c( i, 0 ) = 0.1 * i; c( i, 1 ) = -0.3 * i; }
        addDense( v, "VectorXs" + tag, x ); addDense( v, "VectorXu" + tag, u ); addDense( v, "Matrix3Xsc" + tag, a ); addDense( v, "Matrix3Xuc" + tag, b ); addDense( v, "MatrixX2sr" + tag, c ); }
      if( n <= 1100 )
      {
        for( int shape = 0; shape < 3; ++shape )
        {
          const int r = shape == 1 ? 3 : n, c = shape == 2 ? 2 : n;
          SparseMatrixsc A( r, c ); std::vector<Eigen::Triplet<double>> t;
          for( int i = 0; i < std::max( r, c ); ++i ) { if( i % 4 == 3 || r == 0 || c == 0 ) { continue; } t.push_back( { i % r, i % c, 0.5 + i } ); }
          std::map<std::pair<int,int>,double> u; for( const auto& e : t ) { u[{ e.row(), e.col() }] = e.value(); }
          t.clear(); for( const auto& e : u ) { t.push_back( { e.first.first, e.first.second, e.second } ); }
          A.setFromTriplets( t.begin(), t.end() ); A.makeCompressed();
          addSparse( v, A );
        }
        v.push_back( { "vector<Blob>" + tag, [n]( std::ostream& o ) { std::vector<Blob> b; for( int i = 0; i < n; ++i ) { b.emplace_back( std::string( size_t( i % 3 ), 'k' ) ); } Utilities::serialize( b, o ); }, [n]( std::istream& i ) { const auto b = Utilities::deserialize<std::vector<Blob>>( i ); bool ok = int( b.size() ) == n; for( int k = 0; ok && k < n; ++k ) { ok = b[size_t( k )].s == std::string( size_t( k % 3 ), 'k' ); } return ok; } } );
      }
      for( size_t k = 0; k < v.size(); ++k ) { sequence( { &v[k], &v[( k + 1 ) % v.size()] } ); }
      vp::outcome( "sized values" );
    } );
  }
  // Long texts for the text helpers
  for( int n = 0; n < 8; ++n )
  {
    vp::runCase( [&]{ return "string helpers on long texts " + std::to_string( n ); }, [&]
    {
      const std::string unit[] = { "a,", "ab c,", " \t", "0.5 ", "-12, ", "x.y/", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa,", "\n\n," };
      for( int k : { 5, 20, 64, 65, 130, 257 } ) { std::string s; for( int i = 0; i < k; ++i ) { s += unit[n]; } stringFunctions( s, "a0 \t,.\n" ); stringFunctions( "  " + s + "tail  ", "a0 \t,.\n" ); }
      vp::outcome( "long texts" );
    } );
  }
}

int main( int argc, char** argv )
{
  vp::init( argc, argv );
  {
    const std::string al( "a0 \t,.\n" );
    const int L = vp::thorough() ? 8 : 6;
    vp::runCase( []{ return std::string( "string helpers on '' and single characters" ); }, [&]{ stringFunctions( "", al ); for( int c = 1; c < 128; ++c ) { stringFunctions( std::string( 1, char( c ) ), al ); } } );
    for( char a : al ) { for( char b : al )
    {
      vp::runCase( [&]{ return "string helpers on all strings up to length " + std::to_string( L ) + " starting with " + q( std::string() + a + b ); }, [&]
      {
        for( int len = 0; len <= L - 2; ++len )
        {
          vp::product( std::vector<int>( len, int( al.size() ) ), [&]( const std::vector<int>& d ) { std::string t; t += a; t += b; for( int i : d ) { t += al[i]; } stringFunctions( t, al ); } );
        }
      } );
    } }
  }
  {
    const std::string al( "019.-+e " );
    const int L = vp::thorough() ? 7 : 5;
    for( char a : al )
    {
      vp::runCase( [&]{ return "number reading on all texts up to length " + std::to_string( L ) + " starting with " + q( std::string( 1, a ) ); }, [&]
      {
        for( int len = 0; len <= L - 1; ++len ) { vp::product( std::vector<int>( len, int( al.size() ) ), [&]( const std::vector<int>& d ) { std::string t( 1, a ); for( int i : d ) { t += al[i]; } numbers( t ); } ); }
      } );
    }
    vp::runCase( []{ return std::string( "integers written and read back; infinities; digit counts" ); }, [&]
    {
      for( int i = -70000; i <= 70000; ++i ) { int v; VP_CHECK( StringUtilities::extractFromString( StringUtilities::convertToString( i ), v ) && v == i, "int " << i ); VP_CHECK( StringUtilities::convertToString( i ) == std::to_string( i ), "text of " << i ); }
      double v = 0; VP_CHECK( StringUtilities::extractScalarFromString( std::string( "inf" ), v ) && v > 0 && std::isinf( v ), "inf" );
      VP_CHECK( StringUtilities::extractScalarFromString( std::string( "-inf" ), v ) && v < 0 && std::isinf( v ), "-inf" );
      for( unsigned n = 0; n < 200000; ++n ) { VP_CHECK( MathUtilities::computeNumDigits( n ) == std::to_string( n ).size(), "computeNumDigits " << n ); }
      for( unsigned long p = 10; p <= 1000000000ul; p *= 10 ) { for( long d = -1; d <= 1; ++d ) { const unsigned n = unsigned( long( p ) + d ); VP_CHECK( MathUtilities::computeNumDigits( n ) == std::to_string( n ).size(), "computeNumDigits " << n ); } }
      VP_CHECK( MathUtilities::computeNumDigits( 4294967295u ) == 10, "computeNumDigits max" );
    } );
    vp::runCase( []{ return std::string( "scalar lists" ); }, []{ scalarLists( vp::thorough() ? 4 : 3 ); } );
  }
  {
    const std::vector<Item> all = menu( true ), small = menu( false );
    vp::runCase( []{ return std::string( "every single value" ); }, [&]{ for( const auto& a : all ) { sequence( { &a } ); } } );
    for( const auto& a : small )
    {
      vp::runCase( [&]{ return "value sequences starting with " + a.name; }, [&]
      {
        for( const auto& b : all ) { sequence( { &a, &b } ); sequence( { &b, &a } ); }
        for( const auto& b : small ) { for( const auto& c : small ) { sequence( { &a, &b, &c } ); if( vp::thorough() ) { for( const auto& d : small ) { sequence( { &a, &b, &c, &d } ); } } } }
      } );
    }
  }
  sizes();
  return vp::finish();
}
