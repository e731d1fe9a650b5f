/* the part of the Python interface an extension module of functions uses */
#ifndef VT_PYTHON_H
#define VT_PYTHON_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
#ifdef VT_PY2
#define PY_VERSION_HEX 0x02070f00
#define PY_MAJOR_VERSION 2
#define PyMODINIT_FUNC void
#else
#define PY_VERSION_HEX 0x030c0000
#define PY_MAJOR_VERSION 3
#define PyMODINIT_FUNC PyObject*
#endif
typedef struct vt_object { long refs; } PyObject;
typedef long Py_ssize_t;
typedef PyObject* (*PyCFunction)(PyObject*, PyObject*);
typedef struct { const char* ml_name; PyCFunction ml_meth; int ml_flags; const char* ml_doc; } PyMethodDef;
typedef struct PyModuleDef { long base; const char* m_name; const char* m_doc; Py_ssize_t m_size; PyMethodDef* m_methods; void* m_slots; void* m_traverse; void* m_clear; void* m_free; } PyModuleDef;
#define PyModuleDef_HEAD_INIT 0
#define METH_VARARGS 1
#define METH_NOARGS 4
PyObject* PyModule_Create(struct PyModuleDef*);
PyObject* Py_InitModule(const char*, PyMethodDef*);
PyObject* PyModule_GetDict(PyObject*);
int PyDict_SetItemString(PyObject*, const char*, PyObject*);
int PyModule_AddObject(PyObject*, const char*, PyObject*);
int PyModule_AddObjectRef(PyObject*, const char*, PyObject*);
static inline void vt_ref(PyObject* o) { (void)o; }
#define Py_DECREF(o) vt_ref((PyObject*)(o))
#define Py_XDECREF(o) vt_ref((PyObject*)(o))
#define Py_INCREF(o) vt_ref((PyObject*)(o))
#define Py_XINCREF(o) vt_ref((PyObject*)(o))
#ifdef __cplusplus
}
#endif
#endif
