// A stand-in for the Python 2 C API, as much of it as the simulators' scripting layer uses. Scripts are C++ functions that a
// harness registers under the name of a module (fakepy::modules()); the simulators' own module is called through fakepy::call.
#ifndef FAKE_PYTHON_H
#define FAKE_PYTHON_H
#include <cassert>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

typedef long npy_intp;
struct PyArray_Descr { char kind; int elsize; };
struct PyObject
{
  enum Kind { NONE, FLOAT, INT, STR, ARRAY, TUPLE, FUNC, MODULE } kind = NONE;
  long refs = 1;
  double d = 0.0; long i = 0; std::string s;
  void* data = nullptr; bool owns = false; std::vector<npy_intp> dims; PyArray_Descr descr{ 'f', 8 };
  std::vector<PyObject*> items;
  std::function<PyObject*()> fn;
};
typedef PyObject PyArrayObject;
typedef PyObject* ( *PyCFunction )( PyObject*, PyObject* );
struct PyMethodDef { const char* ml_name; PyCFunction ml_meth; int ml_flags; const char* ml_doc; };
#define METH_VARARGS 0x0001
#define METH_NOARGS 0x0004

namespace fakepy
{
struct Module { std::map<std::string,std::function<PyObject*()>> hooks; PyObject* object = nullptr; };
inline std::map<std::string,Module>& modules() { static std::map<std::string,Module> m; return m; }
inline std::map<std::string,PyMethodDef>& natives() { static std::map<std::string,PyMethodDef> m; return m; }
inline std::string& nativeName() { static std::string n; return n; }
inline bool& error() { static bool e = false; return e; }
inline long& live() { static long n = 0; return n; }
inline std::vector<std::string>& path() { static std::vector<std::string> p; return p; }
inline PyObject* make( PyObject::Kind k ) { PyObject* o = new PyObject; o->kind = k; ++live(); return o; }
inline PyObject* none() { return make( PyObject::NONE ); }
inline PyObject* num( double x ) { PyObject* o = make( PyObject::FLOAT ); o->d = x; return o; }
inline PyObject* integer( long x ) { PyObject* o = make( PyObject::INT ); o->i = x; return o; }
inline void release( PyObject* o )
{
  if( !o ) { return; }
  assert( o->refs > 0 );
  if( --o->refs ) { return; }
  for( PyObject* c : o->items ) { release( c ); }
  if( o->owns ) { std::free( o->data ); }
  --live(); delete o;
}
// Calls a function of the simulator's module with the given (owned) arguments
inline PyObject* call( const std::string& name, const std::vector<PyObject*>& args = {} )
{
  const auto it = natives().find( name );
  if( it == natives().end() ) { std::fprintf( stderr, "no function %s in module %s\n", name.c_str(), nativeName().c_str() ); std::abort(); }
  if( it->second.ml_flags == METH_NOARGS ) { assert( args.empty() ); return it->second.ml_meth( nullptr, nullptr ); }
  PyObject* t = make( PyObject::TUPLE ); t->items = args;
  PyObject* r = it->second.ml_meth( nullptr, t );
  release( t );
  return r;
}
inline bool has( const std::string& name ) { return natives().count( name ) != 0; }
inline void act( const std::string& name, const std::vector<PyObject*>& args = {} ) { release( call( name, args ) ); }
inline double asNumber( PyObject* o ) { const double r = o->kind == PyObject::FLOAT ? o->d : double( o->i ); release( o ); return r; }
inline std::string asString( PyObject* o ) { const std::string r = o->s; release( o ); return r; }
inline PyObject* uints( const std::vector<unsigned>& v )
{
  PyObject* o = make( PyObject::ARRAY ); o->dims = { npy_intp( v.size() ) }; o->descr = PyArray_Descr{ 'u', 4 };
  o->data = std::malloc( 4 * v.size() + 4 ); o->owns = true; if( !v.empty() ) { std::memcpy( o->data, v.data(), 4 * v.size() ); }
  return o;
}
}

inline void Py_XDECREF( PyObject* o ) { fakepy::release( o ); }
inline void Py_DECREF( PyObject* o ) { fakepy::release( o ); }
inline void Py_INCREF( PyObject* o ) { ++o->refs; }
inline void Py_XINCREF( PyObject* o ) { if( o ) { ++o->refs; } }
inline PyObject* PyErr_Occurred() { static PyObject e; return fakepy::error() ? &e : nullptr; }
inline void PyErr_Clear() { fakepy::error() = false; }
inline void PyErr_Print() { fakepy::error() = false; }
inline int PyRun_SimpleString( const char* c )
{
  const std::string s = c;
  if( s.find( "sys.path.insert" ) != std::string::npos ) { fakepy::path().push_back( s ); }
  if( s.find( "sys.path.pop" ) != std::string::npos ) { assert( !fakepy::path().empty() ); fakepy::path().pop_back(); }
  return 0;
}
inline void Py_SetProgramName( char* ) {}
inline void Py_Initialize() {}
inline void Py_Finalize() {}
inline PyObject* PyImport_ImportModule( const char* name )
{
  const auto it = fakepy::modules().find( name );
  if( it == fakepy::modules().end() ) { fakepy::error() = true; return nullptr; }
  fakepy::Module& m = it->second;
  if( !m.object ) { m.object = fakepy::make( PyObject::MODULE ); m.object->s = name; }
  ++m.object->refs;
  return m.object;
}
inline PyObject* PyImport_ReloadModule( PyObject* o ) { ++o->refs; return o; }
inline PyObject* PyObject_GetAttrString( PyObject* o, const char* name )
{
  fakepy::Module& m = fakepy::modules()[o->s];
  const auto it = m.hooks.find( name );
  if( it == m.hooks.end() ) { fakepy::error() = true; return nullptr; }
  PyObject* f = fakepy::make( PyObject::FUNC ); f->fn = it->second;
  return f;
}
inline int PyCallable_Check( PyObject* o ) { return o && o->kind == PyObject::FUNC; }
inline PyObject* PyObject_CallObject( PyObject* f, PyObject* args ) { assert( f && f->kind == PyObject::FUNC ); assert( !args ); (void) args; return f->fn(); }
inline PyObject* Py_BuildValue( const char* f, ... )
{
  const std::string s = f;
  va_list a; va_start( a, f );
  PyObject* r = nullptr;
  if( s.empty() ) { r = fakepy::none(); }
  else if( s == "d" || s == "f" ) { r = fakepy::num( va_arg( a, double ) ); }
  else if( s == "I" ) { r = fakepy::integer( va_arg( a, unsigned ) ); }
  else if( s == "i" ) { r = fakepy::integer( va_arg( a, int ) ); }
  else if( s == "s" ) { r = fakepy::make( PyObject::STR ); r->s = va_arg( a, const char* ); }
  else { std::fprintf( stderr, "Py_BuildValue format %s\n", f ); std::abort(); }
  va_end( a );
  return r;
}
inline int PyArg_ParseTuple( PyObject* t, const char* f, ... )
{
  if( !t || t->kind != PyObject::TUPLE || t->items.size() != std::strlen( f ) ) { fakepy::error() = true; return 0; }
  va_list a; va_start( a, f );
  int ok = 1;
  for( size_t k = 0; k < t->items.size(); ++k )
  {
    PyObject* o = t->items[k];
    const bool number = o->kind == PyObject::FLOAT || o->kind == PyObject::INT;
    const double x = o->kind == PyObject::FLOAT ? o->d : double( o->i );
    if( f[k] == 'd' ) { double* p = va_arg( a, double* ); if( number ) { *p = x; } else { ok = 0; } }
    else if( f[k] == 'f' ) { float* p = va_arg( a, float* ); if( number ) { *p = float( x ); } else { ok = 0; } }
    else if( f[k] == 'I' ) { unsigned* p = va_arg( a, unsigned* ); if( o->kind == PyObject::INT ) { *p = unsigned( o->i ); } else { ok = 0; } }
    else if( f[k] == 'i' ) { int* p = va_arg( a, int* ); if( o->kind == PyObject::INT ) { *p = int( o->i ); } else { ok = 0; } }
    else if( f[k] == 'O' ) { PyObject** p = va_arg( a, PyObject** ); *p = o; }
    else { std::fprintf( stderr, "PyArg_ParseTuple format %s\n", f ); std::abort(); }
  }
  va_end( a );
  if( !ok ) { fakepy::error() = true; }
  return ok;
}
inline PyObject* Py_InitModule( const char* name, PyMethodDef* m )
{
  fakepy::nativeName() = name;
  for( ; m->ml_name; ++m ) { fakepy::natives()[m->ml_name] = *m; }
  return nullptr;
}
#endif
