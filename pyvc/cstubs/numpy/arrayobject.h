#ifndef STUB_ARRAY_H
#define STUB_ARRAY_H
typedef struct { PyObject ob_base; } PyArrayObject;
typedef long npy_intp;
typedef double npy_double;
enum NPY_TYPES { NPY_BOOL = 0, NPY_INT = 5, NPY_LONG = 7, NPY_FLOAT = 11, NPY_DOUBLE = 12 };
#define NPY_ARRAY_C_CONTIGUOUS 1
#define NPY_ARRAY_F_CONTIGUOUS 2
#define NPY_ARRAY_ENSURECOPY 0x20
#define NPY_ARRAY_FORCECAST 0x10
#define NPY_ARRAY_ALIGNED 0x100
#define NPY_ARRAY_NOTSWAPPED 0x200
#define NPY_ARRAY_WRITEABLE 0x400
#define NPY_ARRAY_BEHAVED (NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE)
#define NPY_ARRAY_CARRAY (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_BEHAVED)
#define NPY_ARRAY_CARRAY_RO (NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED)
#define NPY_ARRAY_IN_ARRAY NPY_ARRAY_CARRAY_RO
#define NPY_ARRAY_DEFAULT NPY_ARRAY_CARRAY
PyObject *PyArray_FROM_OT(void *, int);
PyObject *PyArray_FROM_OTF(void *, int, int);
PyObject *PyArray_ContiguousFromAny(void *, int, int, int);
PyObject *PyArray_SimpleNew(int, const npy_intp *, int);
PyObject *PyArray_ZEROS(int, const npy_intp *, int, int);
PyObject *PyArray_EMPTY(int, const npy_intp *, int, int);
PyObject *PyArray_Return(void *);
int PyArray_NDIM(void *);
npy_intp *PyArray_DIMS(void *);
npy_intp *PyArray_SHAPE(void *);
npy_intp PyArray_DIM(void *, int);
npy_intp PyArray_SIZE(void *);
void *PyArray_DATA(void *);
char *PyArray_BYTES(void *);
void import_array(void);
#endif
