#ifndef VT_NDARRAYTYPES_H
#define VT_NDARRAYTYPES_H
#include "Python.h"
typedef long npy_intp;
typedef unsigned long npy_uintp;
typedef float npy_float;
typedef double npy_double;
typedef float npy_float32;
typedef double npy_float64;
enum NPY_TYPES { NPY_BOOL = 0, NPY_BYTE, NPY_UBYTE, NPY_SHORT, NPY_USHORT, NPY_INT, NPY_UINT, NPY_LONG, NPY_ULONG, NPY_LONGLONG, NPY_ULONGLONG,
  NPY_FLOAT, NPY_DOUBLE, NPY_LONGDOUBLE, NPY_FLOAT32 = NPY_FLOAT, NPY_FLOAT64 = NPY_DOUBLE };
#define import_array()
#endif
