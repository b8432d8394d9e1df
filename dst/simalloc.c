/* numpy data allocator which fills uninitialised and freed memory with
 * reproducible garbage, and refuses absurd requests. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

static uint64_t state = 1;
static int mode = 1;          /* 0: byte fill, 1: small integers, 2: mixture */
static unsigned char fillbyte = 0xA5;
static size_t limit = (size_t)1 << 29;
static unsigned long nalloc = 0;
static int huge = 0;           /* large requests are given as untouched zero pages */

static void garbage(void *p, size_t n)
{
    if (mode == 0) { memset(p, fillbyte, n); return; }
    unsigned char *c = p;
    size_t i;
    for (i = 0; i + 8 <= n; i += 8) {
        state = state * 6364136223846793005ULL + 1442695040888963407ULL;
        uint64_t v = (state >> 33) % 7;
        if (mode == 2 && ((state >> 60) & 3) == 0) v = state;
        memcpy(c + i, &v, 8);
    }
    for (; i < n; i++) c[i] = fillbyte;
}
static void *m_malloc(void *ctx, size_t n) {
    if (n > (huge ? (size_t)1 << 34 : limit)) return NULL;
    void *p = malloc(n ? n : 1);
    nalloc++;
    if (p && !(huge && n > ((size_t)1 << 24))) { if (n <= ((size_t)1 << 24)) garbage(p, n); else memset(p, fillbyte, n); }
    return p;
}
static void *m_calloc(void *ctx, size_t n, size_t s) {
    if (s && n > (huge ? (size_t)1 << 34 : limit) / s) return NULL;
    return calloc(n ? n : 1, s ? s : 1);
}
static void *m_realloc(void *ctx, void *p, size_t n) { if (n > (huge ? (size_t)1 << 34 : limit)) return NULL; return realloc(p, n ? n : 1); }
static void m_free(void *ctx, void *p, size_t n) {
    if (p && n && n <= ((size_t)1 << 24)) memset(p, 0xDD, n);
    free(p);
}
static PyDataMem_Handler handler = { "simalloc", 1, { NULL, m_malloc, m_calloc, m_realloc, m_free } };

static PyObject *enable(PyObject *self, PyObject *noargs)
{
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *disable(PyObject *self, PyObject *noargs)
{
    PyObject *old = PyDataMem_SetHandler(NULL);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *seed(PyObject *self, PyObject *args)
{
    unsigned long long s; int m, f;
    if (!PyArg_ParseTuple(args, "Kii", &s, &m, &f)) return NULL;
    state = s * 2 + 1; mode = m; fillbyte = (unsigned char)f;
    Py_RETURN_NONE;
}
static PyObject *sethuge(PyObject *self, PyObject *args)
{
    if (!PyArg_ParseTuple(args, "p", &huge)) return NULL;
    Py_RETURN_NONE;
}
static PyObject *count(PyObject *self, PyObject *noargs) { return PyLong_FromUnsignedLong(nalloc); }
static PyMethodDef methods[] = {
    {"enable", enable, METH_NOARGS, ""}, {"disable", disable, METH_NOARGS, ""},
    {"seed", seed, METH_VARARGS, ""}, {"huge", sethuge, METH_VARARGS, ""}, {"count", count, METH_NOARGS, ""}, {NULL, NULL, 0, NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "simalloc", NULL, -1, methods};
PyMODINIT_FUNC PyInit_simalloc(void) { import_array(); return PyModule_Create(&mod); }
