// Minimal exhaustive-exploration harness runtime shared by all checks.
//
// A harness enumerates *all* cases of a bounded space by calling vp::runCase once per case, in a fixed
// order. Cases are dealt to shards by index. A failing case is reported with its index and description,
// and can be re-run alone with --case N.
#ifndef VP_H
#define VP_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <functional>
#include <limits>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>

namespace vp
{

struct Failure { std::string msg; };

struct Globals
{
  int shard = 0, of = 1;
  long only = -1;
  bool thorough = false;
  std::string out;
  long cases_total = 0;     // cases enumerated (all shards see the same total)
  long cases_run = 0;       // cases this shard ran
  long transitions = 0;
  long checks = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string,long> outcomes;
  std::vector<std::string> samples;
  char* status = nullptr;   // mmap'd: case index and description survive a crash
  std::string cur, more;
  unsigned case_seconds = 60;
};
inline Globals& G() { static Globals g; return g; }
constexpr size_t STATUS_BYTES = 65536;

inline bool thorough() { return G().thorough; }

inline uint64_t fnv( const void* p, size_t n, uint64_t h = 1469598103934665603ull )
{
  const unsigned char* c = static_cast<const unsigned char*>( p );
  for( size_t i = 0; i < n; ++i ) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hashStr( const std::string& s ) { return fnv( s.data(), s.size() ); }

inline void state( uint64_t h ) { G().states.insert( h ); }
inline void state( const std::string& s ) { state( hashStr( s ) ); }
inline void transition( long n = 1 ) { G().transitions += n; }
inline void outcome( const std::string& o, long n = 1 ) { G().outcomes[o] += n; }
inline void sample( const std::string& s ) { if( G().samples.size() < 3 ) { G().samples.push_back( s ); } }

[[noreturn]] inline void fail( const std::string& m ) { throw Failure{ m }; }

template<typename F> inline void check( bool ok, F msg )
{
  ++G().checks;
  if( !ok ) { std::ostringstream o; o.precision( 17 ); msg( o ); fail( o.str() ); }
}
#define VP_CHECK( cond, stream_expr ) ::vp::check( (cond), [&]( std::ostream& _o ) { _o << stream_expr; } )

inline std::string jsonEscape( const std::string& s )
{
  std::string r;
  for( unsigned char c : s )
  {
    if( c == '"' || c == '\\' ) { r += '\\'; r += char( c ); }
    else if( c < 0x20 || c >= 0x7f ) { char b[8]; std::snprintf( b, sizeof b, "\\u%04x", c ); r += b; }
    else { r += char( c ); }
  }
  return r;
}

inline void writeOut( const std::string& kind, const std::string& extra )
{
  std::ofstream f( G().out, std::ios::app );
  f << "{\"kind\":\"" << kind << "\"" << extra << "}\n";
}

inline void setStatus( long idx, const std::string& d )
{
  if( !G().status ) { return; }
  std::snprintf( G().status, STATUS_BYTES, "%ld\n%s", idx, d.substr( 0, STATUS_BYTES - 64 ).c_str() );
}

inline void note( const std::string& more ) { G().more = more; setStatus( G().cases_total - 1, G().cur + " :: " + more ); }

inline void onAlarm( int )
{
  const char* m = "vp: case exceeded its time limit\n";
  if( write( 2, m, strlen( m ) ) ) {}
  _exit( 97 );
}

// desc: callable returning a std::string; body: callable performing the case
template<typename D, typename B> inline void runCase( D desc, B body )
{
  Globals& g = G();
  const long idx = g.cases_total++;
  if( g.only >= 0 ? idx != g.only : ( idx % g.of ) != g.shard ) { return; }
  g.cur = desc(); g.more.clear();
  setStatus( idx, g.cur );
  ++g.cases_run;
  struct itimerval tv; std::memset( &tv, 0, sizeof tv ); tv.it_value.tv_sec = g.case_seconds;
  setitimer( ITIMER_VIRTUAL, &tv, nullptr );
  try { body(); }
  catch( Failure& f )
  {
    if( !g.more.empty() ) { f.msg += " [" + g.more + "]"; }
    writeOut( "FAIL", ",\"case\":" + std::to_string( idx ) + ",\"desc\":\"" + jsonEscape( g.cur ) + "\",\"msg\":\"" + jsonEscape( f.msg ) + "\"" );
    std::cerr << "FAIL case " << idx << ": " << g.cur << "\n  " << f.msg << std::endl;
    _exit( 1 );
  }
  std::memset( &tv, 0, sizeof tv );
  setitimer( ITIMER_VIRTUAL, &tv, nullptr );
  if( g.samples.size() < 2 || ( g.cases_run == 50 ) ) { sample( g.cur ); }
}

// Runs body in a child process; returns its wait status (exit code 0 when body returned normally).
// Used where the code under test is entitled to refuse its input by terminating.
template<typename B> inline int forked( B body )
{
  std::cout.flush(); std::cerr.flush();
  const pid_t pid = fork();
  if( pid == 0 )
  {
    int dn = open( std::getenv( "VP_SHOW" ) ? "/tmp/vp-show" : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0644 );
    dup2( dn, 1 ); dup2( dn, 2 );
    body();
    _exit( 0 );
  }
  int st = 0;
  waitpid( pid, &st, 0 );
  return st;
}

inline int finish()
{
  Globals& g = G();
  std::ostringstream e;
  e << ",\"cases_total\":" << g.cases_total << ",\"cases_run\":" << g.cases_run << ",\"transitions\":" << g.transitions << ",\"checks\":" << g.checks << ",\"outcomes\":{";
  bool first = true;
  for( const auto& o : g.outcomes ) { e << ( first ? "" : "," ) << "\"" << jsonEscape( o.first ) << "\":" << o.second; first = false; }
  e << "},\"samples\":[";
  first = true;
  for( const auto& s : g.samples ) { e << ( first ? "" : "," ) << "\"" << jsonEscape( s.substr( 0, 600 ) ) << "\""; first = false; }
  e << "]";
  {
    std::ofstream f( g.out + ".states", std::ios::binary );
    for( uint64_t h : g.states ) { f.write( reinterpret_cast<const char*>( &h ), 8 ); }
  }
  writeOut( "DONE", e.str() );
  std::cout.flush();
  return 0;
}

inline void init( int argc, char** argv )
{
  Globals& g = G();
  g.out = "/dev/stdout";
  std::string status;
  for( int i = 1; i + 1 < argc; i += 2 )
  {
    const std::string k = argv[i], v = argv[i+1];
    if( k == "--shard" ) { g.shard = std::stoi( v ); }
    else if( k == "--of" ) { g.of = std::stoi( v ); }
    else if( k == "--case" ) { g.only = std::stol( v ); }
    else if( k == "--tier" ) { g.thorough = v == "thorough"; }
    else if( k == "--out" ) { g.out = v; }
    else if( k == "--status" ) { status = v; }
    else if( k == "--case-seconds" ) { g.case_seconds = unsigned( std::stoul( v ) ); }
  }
  if( !status.empty() )
  {
    int fd = open( status.c_str(), O_RDWR | O_CREAT, 0644 );
    if( fd >= 0 && ftruncate( fd, STATUS_BYTES ) == 0 )
    {
      g.status = static_cast<char*>( mmap( nullptr, STATUS_BYTES, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
    }
  }
  signal( SIGVTALRM, onAlarm );
}

// ---- enumeration helpers ----

// Calls f(digits) for every vector of n digits with digit i in [0,base[i])
template<typename F> inline void product( const std::vector<int>& base, F f )
{
  for( int b : base ) { if( b <= 0 ) { return; } }
  std::vector<int> d( base.size(), 0 );
  while( true )
  {
    f( d );
    size_t i = 0;
    while( i < d.size() && ++d[i] == base[i] ) { d[i] = 0; ++i; }
    if( i == d.size() ) { return; }
  }
}

template<typename T> inline std::string str( const std::vector<T>& v )
{
  std::ostringstream o; o.precision( 17 ); o << "[";
  for( size_t i = 0; i < v.size(); ++i ) { o << ( i ? "," : "" ) << v[i]; }
  o << "]"; return o.str();
}

template<typename V> inline std::string vstr( const V& v )
{
  std::ostringstream o; o.precision( 17 ); o << "(";
  for( int i = 0; i < int( v.size() ); ++i ) { o << ( i ? " " : "" ) << v( i ); }
  o << ")"; return o.str();
}

}
#endif
