/* A small model of the CPython 3.12 and NumPy 1.x C API: objects with reference counts, error indicator and interpreter lock.
   The extension module is compiled against the real headers; only the functions behind them are modelled here. */
#ifndef PYSTUB_H
#define PYSTUB_H
#define PY_SSIZE_T_CLEAN
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define NO_IMPORT_ARRAY
#define PY_ARRAY_UNIQUE_SYMBOL h_pyarr_api
#include <Python.h>
#include "numpy/arrayobject.h"
#include "sym.h"
#include "qpSWIFT.h"
#include <string.h>
#include <stdarg.h>
#define H_REF 5
static int h_gil = 1;
static PyObject *h_err;
static long h_warns, h_warn_raise;
static void h_api(void) { sym_check(h_gil, "the Python API is used without holding the interpreter lock"); }
/* ---- types */
#define HTYPE(name, fl) PyTypeObject name = { .ob_base = {.ob_base = {.ob_refcnt = 1000000}}, .tp_name = #name, .tp_flags = (fl) }
HTYPE(PyBaseObject_Type, 0); HTYPE(PyType_Type, Py_TPFLAGS_TYPE_SUBCLASS); HTYPE(PyLong_Type, Py_TPFLAGS_LONG_SUBCLASS); HTYPE(PyBool_Type, Py_TPFLAGS_LONG_SUBCLASS);
HTYPE(PyFloat_Type, 0); HTYPE(PyDict_Type, Py_TPFLAGS_DICT_SUBCLASS); HTYPE(PyUnicode_Type, Py_TPFLAGS_UNICODE_SUBCLASS); HTYPE(PyTuple_Type, Py_TPFLAGS_TUPLE_SUBCLASS);
HTYPE(PyList_Type, Py_TPFLAGS_LIST_SUBCLASS); HTYPE(PyCapsule_Type, 0); HTYPE(PyModule_Type, 0);
static HTYPE(h_PyArray_Type, 0);
static HTYPE(h_PyDescr_Type, 0);
PyObject _Py_NoneStruct = {.ob_refcnt = 1000000}, _Py_TrueStruct_unused;
struct _longobject _Py_TrueStruct = {.ob_base = {.ob_refcnt = 1000000, .ob_type = &PyBool_Type}}, _Py_FalseStruct = {.ob_base = {.ob_refcnt = 1000000, .ob_type = &PyBool_Type}};
#define HEXC(n) static PyObject h_exc_##n = {.ob_refcnt = 1000000}; PyObject *PyExc_##n = &h_exc_##n
HEXC(TypeError); HEXC(ValueError); HEXC(RuntimeError); HEXC(SystemError); HEXC(OverflowError); HEXC(MemoryError); HEXC(ImportError); HEXC(AttributeError); HEXC(UserWarning); HEXC(RuntimeWarning);
HEXC(DeprecationWarning); HEXC(Exception); HEXC(IndexError); HEXC(KeyError);
int PyType_IsSubtype(PyTypeObject *a, PyTypeObject *b) { return a == b || b == &PyBaseObject_Type || (a == &PyBool_Type && b == &PyLong_Type); }
/* ---- objects */
typedef struct { PyObject ob; long v; int overflow; } h_long;
typedef struct { PyObject ob; long n; const char *key[12]; PyObject *val[12]; } h_dict;
typedef struct { PyArrayObject_fields f; double *lv; long nel; int caller; } h_arr;     /* lv: logical values in C order */
static PyArray_Descr h_descr[NPY_NTYPES];
static const int h_isz[NPY_NTYPES] = {1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 8, 16, 32, 8, 8, 8, 16, 8, 8, 2};
static PyObject *h_mklong(long v, int overflow)
{
    h_long *o = malloc(sizeof(h_long));
    o->ob.ob_refcnt = 1; o->ob.ob_type = &PyLong_Type; o->v = v; o->overflow = overflow;
    return (PyObject *)o;
}
static PyObject *h_mkfloat(double v)
{
    PyFloatObject *o = malloc(sizeof(PyFloatObject));
    o->ob_base.ob_refcnt = 1; o->ob_base.ob_type = &PyFloat_Type; o->ob_fval = v;
    return (PyObject *)o;
}
static PyObject *h_mkother(PyTypeObject *t)
{
    PyObject *o = malloc(sizeof(PyObject));
    o->ob_refcnt = 1; o->ob_type = t;
    return o;
}
static PyObject *h_mkdict(void)
{
    h_dict *d = malloc(sizeof(h_dict));
    d->ob.ob_refcnt = 1; d->ob.ob_type = &PyDict_Type; d->n = 0;
    return (PyObject *)d;
}
/* an array with the given header; its elements are allocated when it is filled */
static h_arr *h_mkarr(int nd, PyArray_Descr *d)
{
    h_arr *a = malloc(sizeof(h_arr));
    a->f.ob_base.ob_refcnt = 1; a->f.ob_base.ob_type = &h_PyArray_Type;
    a->f.nd = nd; a->f.base = 0; a->f.weakreflist = 0; a->f.data = 0;
    a->f.dimensions = nd ? malloc(nd * sizeof(npy_intp)) : 0;
    a->f.strides = nd ? malloc(nd * sizeof(npy_intp)) : 0;
    a->f.descr = d;
    d->ob_base.ob_refcnt++;
    a->f.flags = NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE | NPY_ARRAY_OWNDATA;
    a->lv = 0; a->nel = -1; a->caller = 0;
    return a;
}
static long h_count(h_arr *a)
{
    long i, k = 1;
    for (i = 0; i < a->f.nd; i++) {
        sym_assume((a->f.dimensions[i] >= 0) & (a->f.dimensions[i] <= sym_param("maxdim", 4)));
        a->f.dimensions[i] = sym_conc(a->f.dimensions[i]);
        k *= a->f.dimensions[i];
    }
    return k;
}
/* fill a freshly created C-ordered array: doubles are stored as they are, every other element type as bytes no double can be read from sensibly */
static void h_fill(h_arr *a, const double *v)
{
    long i, k = h_count(a), s = 8;
    a->nel = k;
    for (i = a->f.nd - 1; i >= 0; i--) { a->f.strides[i] = s; s *= a->f.dimensions[i]; }
    a->f.data = malloc((k ? k : 1) * 8);
    a->lv = malloc((k ? k : 1) * 8);
    for (i = 0; i < k; i++) {
        if (v) { a->lv[i] = v[i]; ((double *)a->f.data)[i] = a->f.descr->type_num == NPY_DOUBLE ? v[i] : -7.77e77; }
    }
}
static int h_live(PyObject *o) { return o && o->ob_refcnt > 0; }
void _Py_Dealloc(PyObject *o)
{
    long i;
    h_api();
    sym_check(o->ob_refcnt == 0, "an object is destroyed while it is referenced");
    if (o->ob_type == &h_PyArray_Type) {
        h_arr *a = (h_arr *)o;
        sym_check(!a->caller, "an array of the caller is destroyed");
        a->f.descr->ob_base.ob_refcnt--;
        if (a->f.base) { if (--a->f.base->ob_refcnt == 0) _Py_Dealloc(a->f.base); }
        else if (a->f.flags & NPY_ARRAY_OWNDATA) free(a->f.data);
        free(a->lv); free(a->f.dimensions); free(a->f.strides);
    } else if (o->ob_type == &PyDict_Type) {
        h_dict *d = (h_dict *)o;
        for (i = 0; i < d->n; i++) if (--d->val[i]->ob_refcnt == 0) _Py_Dealloc(d->val[i]);
    }
    free(o);
}
void Py_IncRef(PyObject *o) { if (o) o->ob_refcnt++; }
void Py_DecRef(PyObject *o) { if (o && --o->ob_refcnt == 0) _Py_Dealloc(o); }
void _Py_IncRef(PyObject *o) { Py_IncRef(o); }
void _Py_DecRef(PyObject *o) { Py_DecRef(o); }
/* ---- errors, lock */
void PyErr_SetString(PyObject *e, const char *m) { h_api(); sym_check(m != 0 && *m != 0, "an exception without a message"); h_err = e; }
void PyErr_SetNone(PyObject *e) { h_api(); h_err = e; }
PyObject *PyErr_NoMemory(void) { h_api(); h_err = PyExc_MemoryError; return 0; }
PyObject *PyErr_Format__va(PyObject *e, const char *m, long n, void *s) { h_api(); h_err = e; return 0; }
PyObject *PyErr_Occurred(void) { h_api(); return h_err; }
void PyErr_Clear(void) { h_api(); h_err = 0; }
void PyErr_Print(void) { h_api(); h_err = 0; }
int PyErr_ExceptionMatches(PyObject *e) { h_api(); return h_err == e; }
int PyErr_WarnEx(PyObject *c, const char *m, Py_ssize_t l)
{
    h_api();
    sym_check(h_err == 0, "a warning is issued while an exception is set");
    h_warns++;
    if (h_warn_raise) { h_err = c; return -1; }
    return 0;
}
int PyErr_WarnFormat__va(PyObject *c, Py_ssize_t l, const char *m, long n, void *s) { return PyErr_WarnEx(c, m, l); }
PyThreadState *PyEval_SaveThread(void) { h_api(); h_gil = 0; return (PyThreadState *)&h_gil; }
void PyEval_RestoreThread(PyThreadState *t) { sym_check(!h_gil, "the interpreter lock is taken twice"); sym_check(t == (PyThreadState *)&h_gil, "a foreign thread state is restored"); h_gil = 1; }
/* ---- numbers, dictionaries */
long PyLong_AsLong(PyObject *o)
{
    h_api();
    if (!PyLong_Check(o)) { h_err = PyExc_TypeError; return -1; }
    if (((h_long *)o)->overflow) { h_err = PyExc_OverflowError; return -1; }
    return ((h_long *)o)->v;
}
Py_ssize_t PyLong_AsSsize_t(PyObject *o) { return PyLong_AsLong(o); }
long long PyLong_AsLongLong(PyObject *o) { return PyLong_AsLong(o); }
long PyLong_AsLongAndOverflow(PyObject *o, int *of)
{
    h_api();
    *of = 0;
    if (!PyLong_Check(o)) { h_err = PyExc_TypeError; return -1; }
    if (((h_long *)o)->overflow) { *of = ((h_long *)o)->overflow; return -1; }
    return ((h_long *)o)->v;
}
int _PyLong_Sign(PyObject *o) { h_long *l = (h_long *)o; return l->overflow ? l->overflow : l->v > 0 ? 1 : l->v < 0 ? -1 : 0; }
double PyFloat_AsDouble(PyObject *o)
{
    h_api();
    if (PyFloat_Check(o)) return ((PyFloatObject *)o)->ob_fval;
    if (PyLong_Check(o)) { if (((h_long *)o)->overflow) { h_err = PyExc_OverflowError; return -1.0; } return (double)((h_long *)o)->v; }
    h_err = PyExc_TypeError;
    return -1.0;
}
PyObject *PyLong_FromLong(long v) { h_api(); return h_mklong(v, 0); }
PyObject *PyLong_FromLongLong(long long v) { h_api(); return h_mklong(v, 0); }
PyObject *PyLong_FromSsize_t(Py_ssize_t v) { h_api(); return h_mklong(v, 0); }
PyObject *PyFloat_FromDouble(double v) { h_api(); return h_mkfloat(v); }
PyObject *PyDict_New(void) { h_api(); return h_mkdict(); }
static PyObject *h_get(PyObject *o, const char *k)
{
    h_dict *d = (h_dict *)o;
    long i;
    for (i = 0; i < d->n; i++) if (!strcmp(d->key[i], k)) return d->val[i];
    return 0;
}
static void h_put(PyObject *o, const char *k, PyObject *v)       /* takes over the reference */
{
    h_dict *d = (h_dict *)o;
    long i;
    for (i = 0; i < d->n; i++) if (!strcmp(d->key[i], k)) { PyObject *x = d->val[i]; d->val[i] = v; if (--x->ob_refcnt == 0) _Py_Dealloc(x); return; }
    d->key[d->n] = k; d->val[d->n++] = v;
}
PyObject *PyDict_GetItemString(PyObject *o, const char *k)
{
    h_api();
    if (!PyDict_Check(o)) return 0;
    return h_get(o, k);
}
int PyDict_SetItemString(PyObject *o, const char *k, PyObject *v) { h_api(); v->ob_refcnt++; h_put(o, k, v); return 0; }
Py_ssize_t PyDict_Size(PyObject *o) { return ((h_dict *)o)->n; }
/* ---- building and parsing */
static const char *h_f; static void **h_sl; static int h_bad;
static PyObject *h_build(int top)
{
    PyObject *r = 0;
    char c = *h_f++;
    if (c == '{') {
        r = h_mkdict();
        while (*h_f && *h_f != '}') {
            const char *k;
            if (*h_f == ',' || *h_f == ' ' || *h_f == ':') { h_f++; continue; }
            if (*h_f != 's') sym_unmodelled("a dictionary key"); h_f++;
            k = *(const char **)h_sl++;
            while (*h_f == ':' || *h_f == ' ') h_f++;
            PyObject *v = h_build(0);
            if (!v) { h_bad = 1; continue; }
            h_put(r, k, v);
        }
        if (*h_f == '}') h_f++;
    } else if (c == 'l' || c == 'n' || c == 'L' || c == 'k' || c == 'K') r = h_mklong(*(long *)h_sl++, 0);
    else if (c == 'i' || c == 'h' || c == 'b') r = h_mklong(*(int *)h_sl++, 0);
    else if (c == 'd' || c == 'f') r = h_mkfloat(*(double *)h_sl++);
    else if (c == 'O' || c == 'N' || c == 'S') { r = *(PyObject **)h_sl++; if (r) { sym_check(r->ob_refcnt > 0, "a dead object is put into a result"); if (c != 'N') r->ob_refcnt++; } else h_bad = 1; }
    else sym_unmodelled("a build format");
    return r;
}
PyObject *Py_BuildValue__va(const char *fmt, long n, void *slots)
{
    PyObject *r;
    h_api();
    h_f = fmt; h_sl = slots; h_bad = 0;
    r = h_build(1);
    sym_check((char *)h_sl - (char *)slots <= n * 8, "fewer values than the build format names");
    if (h_bad) { if (r && --r->ob_refcnt == 0) _Py_Dealloc(r); h_err = PyExc_SystemError; return 0; }
    return r;
}
PyObject *_Py_BuildValue_SizeT__va(const char *fmt, long n, void *slots) { return Py_BuildValue__va(fmt, n, slots); }
/* the call: documented parameters in order; h_pos of them given positionally, the others by keyword */
static const char *const h_pname[7] = {"c", "h", "P", "G", "A", "b", "opts"};
static PyObject *h_given[7];
static long h_pos;
static PyObject h_args, h_kwargs;
int PyArg_ParseTupleAndKeywords__va(PyObject *args, PyObject *kw, const char *fmt, char **kwl, long n, void *slots)
{
    void **s = slots;
    long i, k, opt = 0, seen = 0, total = 0;
    h_api();
    sym_check(args == &h_args && (kw == &h_kwargs || !kw), "the call's arguments are not what is parsed");
    for (i = 0; kwl[i]; i++) {
        PyObject *o = 0;
        while (*fmt == '|' || *fmt == '$') { opt = 1; fmt++; }
        if (i < h_pos) o = i < 7 ? h_given[i] : 0;
        else for (k = h_pos; k < 7; k++) if (h_given[k] && !strcmp(h_pname[k], kwl[i])) { o = h_given[k]; seen++; }
        if (*fmt != 'O') { sym_unmodelled("a parse format"); return 0; }
        fmt++;
        if (!o) { if (!opt) { h_err = PyExc_TypeError; return 0; } if (*fmt == '!') { fmt++; s++; } s++; continue; }
        if (*fmt == '!') {
            fmt++;
            if (o->ob_type != (PyTypeObject *)*s && !PyType_IsSubtype(o->ob_type, (PyTypeObject *)*s)) { h_err = PyExc_TypeError; return 0; }
            s++;
        }
        *(PyObject **)*s++ = o;
    }
    for (k = h_pos; k < 7; k++) total += h_given[k] != 0;
    if (seen != total || h_pos > i) { h_err = PyExc_TypeError; return 0; }
    return 1;
}
int _PyArg_ParseTupleAndKeywords_SizeT__va(PyObject *args, PyObject *kw, const char *fmt, char **kwl, long n, void *slots) { return PyArg_ParseTupleAndKeywords__va(args, kw, fmt, kwl, n, slots); }
/* ---- NumPy */
static unsigned int h_npyver(void) { return NPY_VERSION; }
static unsigned int h_npyfeat(void) { return NPY_FEATURE_VERSION; }
static int h_endian(void) { return NPY_CPU_LITTLE; }
static PyArray_Descr *h_DescrFromType(int t) { h_api(); sym_check(t >= 0 && t < NPY_NTYPES, "an unknown element type is requested"); h_descr[t].ob_base.ob_refcnt++; return &h_descr[t]; }
static h_arr *h_like(h_arr *a, PyArray_Descr *d)
{
    long i;
    h_arr *r;
    sym_check(a->f.ob_base.ob_type == &h_PyArray_Type && a->f.ob_base.ob_refcnt > 0, "a dead object is used as an array");
    r = h_mkarr(a->f.nd, d);
    for (i = 0; i < a->f.nd; i++) r->f.dimensions[i] = a->f.dimensions[i];
    h_count(a);
    h_fill(r, a->lv);
    return r;
}
static PyObject *h_NewCopy(PyArrayObject *a, NPY_ORDER o) { h_api(); if (o != NPY_CORDER && ((h_arr *)a)->f.nd > 1) sym_unmodelled("the order of a copy"); return (PyObject *)h_like((h_arr *)a, ((h_arr *)a)->f.descr); }
static PyObject *h_CastToType(PyArrayObject *a, PyArray_Descr *d, int fortran)
{
    PyObject *r;
    long i, j;
    h_api();
    r = (PyObject *)h_like((h_arr *)a, d);
    if (fortran && ((h_arr *)r)->f.nd == 2) {
        h_arr *x = (h_arr *)r;
        long R = x->f.dimensions[0], K = x->f.dimensions[1];
        for (i = 0; i < R; i++) for (j = 0; j < K; j++) ((double *)x->f.data)[j * R + i] = x->lv[i * K + j];
        x->f.flags = NPY_ARRAY_F_CONTIGUOUS | NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE | NPY_ARRAY_OWNDATA;
    }
    d->ob_base.ob_refcnt--;
    return r;
}
static PyObject *h_FromArray(PyArrayObject *a, PyArray_Descr *d, int flags)
{
    h_arr *x = (h_arr *)a;
    h_api();
    if (d) d->ob_base.ob_refcnt--; else d = x->f.descr;
    if (d->type_num == x->f.descr->type_num && !(flags & NPY_ARRAY_ENSURECOPY) && (!(flags & NPY_ARRAY_C_CONTIGUOUS) || (x->f.flags & NPY_ARRAY_C_CONTIGUOUS))) { x->f.ob_base.ob_refcnt++; return (PyObject *)x; }
    return (PyObject *)h_like(x, d);
}
static PyObject *h_FromAny(PyObject *o, PyArray_Descr *d, int mn, int mx, int flags, PyObject *ctx)
{
    if (o->ob_type != &h_PyArray_Type) { h_err = PyExc_TypeError; return 0; }
    return h_FromArray((PyArrayObject *)o, d, flags);
}
static PyObject *h_mknew(int nd, npy_intp const *dims, int type)
{
    h_arr *a = h_mkarr(nd, &h_descr[type]);
    long i;
    for (i = 0; i < nd; i++) a->f.dimensions[i] = dims[i];
    h_fill(a, 0);
    return (PyObject *)a;
}
static PyObject *h_New(PyTypeObject *t, int nd, npy_intp const *dims, int type, npy_intp const *st, void *data, int isz, int flags, PyObject *obj)
{
    h_api();
    if (t != &h_PyArray_Type || st) sym_unmodelled("an array creation");
    if (data) {
        h_arr *a = (h_arr *)h_mknew(nd, dims, type);
        free(a->f.data); a->f.data = data; a->f.base = 0;
        a->f.flags = (flags & ~NPY_ARRAY_OWNDATA) | NPY_ARRAY_C_CONTIGUOUS;
        return (PyObject *)a;
    }
    return h_mknew(nd, dims, type);
}
static PyObject *h_NewFromDescr(PyTypeObject *t, PyArray_Descr *d, int nd, npy_intp const *dims, npy_intp const *st, void *data, int flags, PyObject *obj)
{
    int ty = d->type_num;
    d->ob_base.ob_refcnt--;
    return h_New(t, nd, dims, ty, st, data, 0, flags, obj);
}
static PyObject *h_Zeros(int nd, npy_intp const *dims, PyArray_Descr *d, int f)
{
    long i;
    int ty = d->type_num;
    h_api();
    d->ob_base.ob_refcnt--;
    h_arr *a = (h_arr *)h_mknew(nd, dims, ty);
    for (i = 0; i < a->nel; i++) ((double *)a->f.data)[i] = a->lv[i] = 0.0;
    return (PyObject *)a;
}
static PyObject *h_Empty(int nd, npy_intp const *dims, PyArray_Descr *d, int f)
{
    int ty = d->type_num;
    h_api();
    d->ob_base.ob_refcnt--;
    return h_mknew(nd, dims, ty);
}
static npy_intp h_MultiplyList(npy_intp const *l, int n) { unsigned long r = 1; while (n--) r *= (unsigned long)*l++; return (npy_intp)r; }
static int h_CompareLists(npy_intp const *a, npy_intp const *b, int n) { int i; for (i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
static npy_intp h_Size(PyObject *o) { return o->ob_type == &h_PyArray_Type ? h_MultiplyList(((h_arr *)o)->f.dimensions, ((h_arr *)o)->f.nd) : 0; }
static int h_SetBase(PyArrayObject *a, PyObject *o) { h_api(); ((h_arr *)a)->f.base = o; return 0; }
static int h_CopyInto(PyArrayObject *d, PyArrayObject *s)
{
    long i;
    h_arr *x = (h_arr *)d, *y = (h_arr *)s;
    h_api();
    if (!(x->f.flags & NPY_ARRAY_C_CONTIGUOUS) || x->f.descr->type_num != NPY_DOUBLE || x->nel != y->nel || !y->lv || x->f.nd != y->f.nd) sym_unmodelled("a copy between arrays");
    for (i = 0; i < x->nel; i++) ((double *)x->f.data)[i] = x->lv[i] = y->lv[i];
    return 0;
}
static void *h_un(void) { sym_unmodelled("a NumPy function"); return 0; }
static void *h_table[400];
static PyObject h_np = {.ob_refcnt = 1000000}, h_cap = {.ob_refcnt = 1000000}, h_mod = {.ob_refcnt = 1000000};
PyObject *PyImport_ImportModule(const char *n) { h_np.ob_refcnt++; return &h_np; }
PyObject *PyObject_GetAttrString(PyObject *o, const char *n) { h_cap.ob_refcnt++; h_cap.ob_type = &PyCapsule_Type; return &h_cap; }
void *PyCapsule_GetPointer(PyObject *o, const char *n) { return h_table; }
static PyCFunctionWithKeywords h_run;
static int h_mflags;
static void h_methods(PyMethodDef *m) { for (; m && m->ml_name; m++) if (!strcmp(m->ml_name, "run")) { h_run = (PyCFunctionWithKeywords)(void (*)(void))m->ml_meth; h_mflags = m->ml_flags; } }
PyObject *PyModule_Create2(PyModuleDef *d, int v) { h_methods(d->m_methods); return &h_mod; }
PyObject *PyModuleDef_Init(PyModuleDef *d) { h_methods(d->m_methods); return (PyObject *)d; }
int PyModule_AddObject(PyObject *m, const char *n, PyObject *v) { return 0; }
int PyModule_AddIntConstant(PyObject *m, const char *n, long v) { return 0; }
int PyModule_AddStringConstant(PyObject *m, const char *n, const char *v) { return 0; }
PyObject *PyInit_qpSWIFT(void);
static void h_import(void)
{
    long i;
    for (i = 0; i < NPY_NTYPES; i++) {
        h_descr[i].ob_base.ob_refcnt = 1000; h_descr[i].ob_base.ob_type = &h_PyDescr_Type;
        h_descr[i].type_num = i; h_descr[i].elsize = h_isz[i]; h_descr[i].byteorder = '='; h_descr[i].kind = 'f';
    }
    for (i = 0; i < 400; i++) h_table[i] = h_un;
    h_table[158] = h_MultiplyList; h_table[161] = h_CompareLists; h_table[59] = h_Size; h_table[82] = h_CopyInto; h_table[282] = h_SetBase;
    h_table[0] = h_npyver; h_table[2] = &h_PyArray_Type; h_table[3] = &h_PyDescr_Type; h_table[45] = h_DescrFromType; h_table[49] = h_CastToType; h_table[69] = h_FromAny;
    h_table[85] = h_NewCopy; h_table[93] = h_New; h_table[94] = h_NewFromDescr; h_table[108] = h_FromAny; h_table[109] = h_FromArray; h_table[183] = h_Zeros; h_table[184] = h_Empty;
    h_table[210] = h_endian; h_table[211] = h_npyfeat;
    sym_check(PyInit_qpSWIFT() != 0, "the module cannot be imported");
    sym_check(h_run != 0 && (h_mflags & METH_KEYWORDS) != 0, "the module has no function run taking keywords");
    sym_check(h_err == 0, "importing leaves an exception set");
}
/* call run(...): a result without an exception, or an exception without a result */
static PyObject *h_call(void)
{
    PyObject *r;
    long i, refs[7], dref[NPY_NTYPES], orefs[12];
    h_dict *od = (h_dict *)(h_given[6] && h_given[6]->ob_type == &PyDict_Type ? h_given[6] : 0);
    h_args.ob_refcnt = 10; h_args.ob_type = &PyTuple_Type; h_kwargs.ob_refcnt = 10; h_kwargs.ob_type = &PyDict_Type;
    for (i = 0; i < 7; i++) refs[i] = h_given[i] ? h_given[i]->ob_refcnt : 0;
    for (i = 0; od && i < od->n; i++) orefs[i] = od->val[i]->ob_refcnt;
    h_err = 0; h_gil = 1; h_warns = 0;
    r = h_run(&h_mod, &h_args, h_pos < 7 ? &h_kwargs : 0);
    sym_check(h_gil, "the call returns without the interpreter lock");
    h_gil = 1;
    sym_check(!(r && h_err), "a result is returned while an exception is set");
    sym_check(r || h_err, "no result is returned and no exception is set");
    for (i = 0; i < 7; i++) if (h_given[i]) sym_check(h_given[i]->ob_refcnt == refs[i], "the reference count of an argument changes");
    for (i = 0; od && i < od->n; i++) sym_check(od->val[i]->ob_refcnt == orefs[i], "the reference count of an option value changes");
    sym_check(h_args.ob_refcnt == 10 && h_kwargs.ob_refcnt == 10 && _Py_NoneStruct.ob_refcnt == 1000000, "the reference count of a shared object changes");
    if (r) sym_check(r->ob_refcnt == 1, "the result is not owned by the caller alone");
    return r;
}
#ifdef NATIVE
#undef Py_BuildValue
#undef PyArg_ParseTupleAndKeywords
#define HSLOTS(last, N, T) void *sl[32]; va_list ap; long i_; va_start(ap, last); for (i_ = 0; i_ < (N); i_++) sl[i_] = va_arg(ap, void *); va_end(ap)
PyObject *PyErr_Format(PyObject *e, const char *m, ...) { return PyErr_Format__va(e, m, 0, 0); }
int PyErr_WarnFormat(PyObject *c, Py_ssize_t l, const char *m, ...) { return PyErr_WarnFormat__va(c, l, m, 0, 0); }
static long h_gather(const char *fmt, va_list ap, void **sl)
{
    long k = 0;
    for (; *fmt; fmt++) {
        if (*fmt == 'd' || *fmt == 'f') { double d = va_arg(ap, double); memcpy(&sl[k++], &d, 8); }
        else if (*fmt == 'i' || *fmt == 'h' || *fmt == 'b') { long v = va_arg(ap, int); sl[k++] = (void *)v; }
        else if (strchr("slLnkKONS", *fmt)) sl[k++] = va_arg(ap, void *);
    }
    return k;
}
PyObject *Py_BuildValue(const char *fmt, ...) { void *sl[64]; va_list ap; va_start(ap, fmt); long k = h_gather(fmt, ap, sl); va_end(ap); return Py_BuildValue__va(fmt, k, sl); }
PyObject *_Py_BuildValue_SizeT(const char *fmt, ...) { void *sl[64]; va_list ap; va_start(ap, fmt); long k = h_gather(fmt, ap, sl); va_end(ap); return Py_BuildValue__va(fmt, k, sl); }
#define HPARSE(NAME) int NAME(PyObject *a, PyObject *k, const char *fmt, char **kwl, ...) { void *sl[64]; long n = 0; const char *f; va_list ap; va_start(ap, kwl); \
    for (f = fmt; *f; f++) if (*f == 'O' || *f == '!') sl[n++] = va_arg(ap, void *); va_end(ap); return PyArg_ParseTupleAndKeywords__va(a, k, fmt, kwl, n, sl); }
HPARSE(PyArg_ParseTupleAndKeywords)
HPARSE(_PyArg_ParseTupleAndKeywords_SizeT)
#endif
#endif
