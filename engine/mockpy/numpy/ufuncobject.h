#ifndef VT_UFUNCOBJECT_H
#define VT_UFUNCOBJECT_H
#include "ndarraytypes.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*PyUFuncGenericFunction)(char** args, npy_intp* dimensions, npy_intp* steps, void* data);
#define PyUFunc_None -1
#define PyUFunc_Zero 0
#define PyUFunc_One 1
PyObject* PyUFunc_FromFuncAndData(PyUFuncGenericFunction* func, void** data, char* types, int ntypes, int nin, int nout, int identity, const char* name, const char* doc, int unused);
#define import_umath()
#define import_ufunc()
#ifdef __cplusplus
}
#endif
#endif
