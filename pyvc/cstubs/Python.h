/* Declarations of the parts of the Python C API the extensions use, as plain functions (semantics: pyvc/cfront.py). */
#ifndef STUB_PYTHON_H
#define STUB_PYTHON_H
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include <math.h>
#include <errno.h>
typedef long Py_ssize_t;
typedef struct _object { Py_ssize_t ob_refcnt; struct _typeobject *ob_type; } PyObject;
typedef PyObject PyVarObject;
#define PyObject_HEAD PyObject ob_base;
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef PyObject *(*getter)(PyObject *, void *);
typedef int (*setter)(PyObject *, PyObject *, void *);
typedef void (*destructor)(PyObject *);
typedef int (*initproc)(PyObject *, PyObject *, PyObject *);
typedef struct _typeobject PyTypeObject;
typedef PyObject *(*newfunc)(PyTypeObject *, PyObject *, PyObject *);
typedef PyObject *(*allocfunc)(PyTypeObject *, Py_ssize_t);
typedef void (*freefunc)(void *);
typedef struct { const char *name; int type; Py_ssize_t offset; int flags; const char *doc; } PyMemberDef;
typedef struct { const char *name; getter get; setter set; const char *doc; void *closure; } PyGetSetDef;
typedef struct { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
struct _typeobject {
    PyObject ob_base; Py_ssize_t ob_size; const char *tp_name; Py_ssize_t tp_basicsize; Py_ssize_t tp_itemsize; destructor tp_dealloc; unsigned long tp_flags;
    const char *tp_doc; PyMethodDef *tp_methods; PyMemberDef *tp_members; PyGetSetDef *tp_getset; initproc tp_init; newfunc tp_new; allocfunc tp_alloc;
    freefunc tp_free; PyTypeObject *tp_base;
};
typedef struct { PyObject m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods; } PyModuleDef;
#define PyVarObject_HEAD_INIT(t, n) {1, t}, n,
#define PyModuleDef_HEAD_INIT {1, NULL}
#define PyMODINIT_FUNC PyObject *
#define Py_TPFLAGS_DEFAULT 1UL
#define Py_TPFLAGS_BASETYPE 1024UL
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8
#define T_INT 1
#define T_FLOAT 3
#define T_DOUBLE 4
#define T_BOOL 14
#define T_PYSSIZET 19
#define READONLY 1
int PyArg_ParseTupleAndKeywords(PyObject *, PyObject *, const char *, char **, ...);
int PyArg_ParseTuple(PyObject *, const char *, ...);
int PyArg_Parse(PyObject *, const char *, ...);
void PyErr_SetString(PyObject *, const char *);
PyObject *PyErr_Format(PyObject *, const char *, ...);
PyObject *PyErr_NoMemory(void);
PyObject *PyErr_Occurred(void);
void PyErr_Clear(void);
extern PyObject *PyExc_RuntimeError, *PyExc_ValueError, *PyExc_TypeError, *PyExc_MemoryError, *PyExc_OverflowError, *PyExc_AttributeError, *PyExc_IndexError;
extern PyObject _Py_NoneStruct, _Py_TrueStruct, _Py_FalseStruct;
#define Py_None (&_Py_NoneStruct)
#define Py_True (&_Py_TrueStruct)
#define Py_False (&_Py_FalseStruct)
void Py_INCREF(void *);
void Py_DECREF(void *);
void Py_XINCREF(void *);
void Py_XDECREF(void *);
#define Py_RETURN_NONE return Py_INCREF(Py_None), Py_None
#define Py_RETURN_TRUE return Py_INCREF(Py_True), Py_True
#define Py_RETURN_FALSE return Py_INCREF(Py_False), Py_False
PyTypeObject *Py_TYPE(void *);
PyObject *PyFloat_FromDouble(double);
double PyFloat_AsDouble(PyObject *);
PyObject *PyBool_FromLong(long);
PyObject *PyLong_FromSsize_t(Py_ssize_t);
PyObject *PyLong_FromSize_t(size_t);
PyObject *PyLong_FromLong(long);
PyObject *PyLong_FromUnsignedLong(unsigned long);
size_t PyLong_AsSize_t(PyObject *);
Py_ssize_t PyLong_AsSsize_t(PyObject *);
long PyLong_AsLong(PyObject *);
int PyObject_IsTrue(PyObject *);
void *PyMem_Malloc(size_t);
void *PyMem_Calloc(size_t, size_t);
void PyMem_Free(void *);
int PyType_Ready(PyTypeObject *);
PyObject *PyModule_Create(PyModuleDef *);
int PyModule_AddObject(PyObject *, const char *, PyObject *);
#endif
