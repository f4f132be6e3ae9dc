// Stand-in for the part of the NumPy C API the scripting layer uses.
#ifndef FAKE_NUMPY_H
#define FAKE_NUMPY_H
#include <Python.h>
#define NPY_1_7_API_VERSION 7
enum { NPY_INT = 5, NPY_UINT = 6, NPY_FLOAT = 11, NPY_DOUBLE = 12 };
inline int _import_array() { return 0; }
inline PyArray_Descr fakeDescr( int t ) { return t == NPY_DOUBLE ? PyArray_Descr{ 'f', 8 } : t == NPY_FLOAT ? PyArray_Descr{ 'f', 4 } : t == NPY_INT ? PyArray_Descr{ 'i', 4 } : PyArray_Descr{ 'u', 4 }; }
inline PyObject* PyArray_SimpleNewFromData( int nd, npy_intp* dims, int t, void* data )
{
  PyObject* o = fakepy::make( PyObject::ARRAY ); o->dims.assign( dims, dims + nd ); o->descr = fakeDescr( t ); o->data = data;
  return o;
}
inline PyObject* PyArray_SimpleNew( int nd, npy_intp* dims, int t )
{
  PyObject* o = PyArray_SimpleNewFromData( nd, dims, t, nullptr );
  size_t n = size_t( o->descr.elsize ); for( npy_intp x : o->dims ) { n *= size_t( x ); }
  o->data = std::malloc( n + 8 ); std::memset( o->data, 0x5a, n + 8 ); o->owns = true;
  return o;
}
inline void* PyArray_DATA( PyArrayObject* a ) { return a->data; }
inline int PyArray_NDIM( PyArrayObject* a ) { return int( a->dims.size() ); }
inline npy_intp PyArray_DIM( PyArrayObject* a, int k ) { return a->dims[size_t( k )]; }
inline PyArray_Descr* PyArray_DESCR( PyArrayObject* a ) { return &a->descr; }
#endif
