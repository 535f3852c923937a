/* Python.h as the analysis sees it: the reference count macros, which compilers
   inline as arithmetic, are calls that the rules recognise */
#ifndef VERIF_PYTHON_H
#define VERIF_PYTHON_H
#include_next <Python.h>
#ifdef __cplusplus
extern "C" {
#endif
void VERIF_incref(PyObject *);
void VERIF_decref(PyObject *);
void VERIF_xincref(PyObject *);
void VERIF_xdecref(PyObject *);
#ifdef __cplusplus
}
#endif
#undef Py_INCREF
#undef Py_DECREF
#undef Py_XINCREF
#undef Py_XDECREF
#define Py_INCREF(x) VERIF_incref((PyObject *)(x))
#define Py_DECREF(x) VERIF_decref((PyObject *)(x))
#define Py_XINCREF(x) VERIF_xincref((PyObject *)(x))
#define Py_XDECREF(x) VERIF_xdecref((PyObject *)(x))
#endif
