/* A small model of the MATLAB C API: arrays with class, storage, dimensions and fields; an error ends the call and releases what it allocated. */
#ifndef MEXSTUB_H
#define MEXSTUB_H
#include "mex.h"
#include "sym.h"
#include "qpSWIFT.h"
#include <math.h>
#define H_NF 16
struct mxArray_tag { long cls, sparse, complex, nd; mwSize dims[4]; void *pr; mwIndex *ir, *jc; long nf; const char *key[H_NF]; mxArray *val[H_NF]; long caller, dead; };
static long h_errs, h_warned;
static const mxArray *h_ok(const mxArray *a) { sym_check(a != 0, "a null array is used"); if (a) sym_check(!a->dead, "a destroyed array is used"); return a; }
const mwSize *mxGetDimensions(const mxArray *a) { return h_ok(a)->dims; }
mwSize mxGetNumberOfDimensions(const mxArray *a) { return h_ok(a)->nd; }
size_t mxGetM(const mxArray *a) { return h_ok(a)->dims[0]; }
size_t mxGetN(const mxArray *a) { long i; size_t r = 1; for (i = 1; i < h_ok(a)->nd; i++) r *= a->dims[i]; return r; }
size_t mxGetNumberOfElements(const mxArray *a) { return mxGetM(a) * mxGetN(a); }
static long h_esz(long c) { return c == mxDOUBLE_CLASS || c == mxINT64_CLASS || c == mxUINT64_CLASS || c == mxCELL_CLASS || c == mxSTRUCT_CLASS ? 8 : c == mxSINGLE_CLASS || c == mxINT32_CLASS || c == mxUINT32_CLASS ? 4 : c == mxINT16_CLASS || c == mxUINT16_CLASS || c == mxCHAR_CLASS ? 2 : 1; }
size_t mxGetElementSize(const mxArray *a) { return h_esz(h_ok(a)->cls); }
mxClassID mxGetClassID(const mxArray *a) { return (mxClassID)h_ok(a)->cls; }
const char *mxGetClassName(const mxArray *a) { sym_unmodelled("mxGetClassName"); return ""; }
bool mxIsDouble(const mxArray *a) { return h_ok(a)->cls == mxDOUBLE_CLASS; }
bool mxIsSingle(const mxArray *a) { return h_ok(a)->cls == mxSINGLE_CLASS; }
bool mxIsSparse(const mxArray *a) { return h_ok(a)->sparse != 0; }
bool mxIsComplex(const mxArray *a) { return h_ok(a)->complex != 0; }
bool mxIsNumeric(const mxArray *a) { return (h_ok(a)->cls >= mxDOUBLE_CLASS) & (a->cls <= mxUINT64_CLASS); }
bool mxIsLogical(const mxArray *a) { return h_ok(a)->cls == mxLOGICAL_CLASS; }
bool mxIsChar(const mxArray *a) { return h_ok(a)->cls == mxCHAR_CLASS; }
bool mxIsCell(const mxArray *a) { return h_ok(a)->cls == mxCELL_CLASS; }
bool mxIsStruct(const mxArray *a) { return h_ok(a)->cls == mxSTRUCT_CLASS; }
bool mxIsEmpty(const mxArray *a) { long i; bool r = 0; for (i = 0; i < h_ok(a)->nd; i++) r |= a->dims[i] == 0; return r; }
bool mxIsScalar(const mxArray *a) { long i; bool r = 1; for (i = 0; i < h_ok(a)->nd; i++) r &= a->dims[i] == 1; return r; }
bool mxIsNaN(double v) { return v != v; }
bool mxIsInf(double v) { return v == INFINITY || v == -INFINITY; }
bool mxIsFinite(double v) { return v == v && v != INFINITY && v != -INFINITY; }
double mxGetScalar(const mxArray *a)
{
    h_ok(a);
    if (!a->pr || mxIsEmpty(a)) { sym_check(0, "the scalar value of an empty array is used"); return 0; }
    switch (a->cls) {
    case mxDOUBLE_CLASS: return *(double *)a->pr;
    case mxINT32_CLASS: return *(int32_t *)a->pr;
    case mxLOGICAL_CLASS: return *(unsigned char *)a->pr;
    case mxCHAR_CLASS: return *(mxChar *)a->pr;
    }
    sym_unmodelled("the scalar value of an array of this class");
    return 0;
}
double *mxGetPr(const mxArray *a) { return (double *)h_ok(a)->pr; }
double *mxGetDoubles(const mxArray *a) { return (double *)h_ok(a)->pr; }
void *mxGetData(const mxArray *a) { return h_ok(a)->pr; }
mwIndex *mxGetIr(const mxArray *a) { return h_ok(a)->ir; }
mwIndex *mxGetJc(const mxArray *a) { return h_ok(a)->jc; }
mwSize mxGetNzmax(const mxArray *a) { return h_ok(a)->jc ? a->jc[a->dims[1]] : 0; }
int mxGetNumberOfFields(const mxArray *a) { return (int)h_ok(a)->nf; }
const char *mxGetFieldNameByNumber(const mxArray *a, int k) { return k < 0 || k >= h_ok(a)->nf ? 0 : a->key[k]; }
int mxGetFieldNumber(const mxArray *a, const char *n)
{
    long i;
    for (i = 0; i < h_ok(a)->nf; i++) if (!strcmp(a->key[i], n)) return (int)i;
    return -1;
}
mxArray *mxGetFieldByNumber(const mxArray *a, mwIndex i, int k) { return h_ok(a)->cls != mxSTRUCT_CLASS || i || k < 0 || k >= a->nf ? 0 : a->val[k]; }
mxArray *mxGetField(const mxArray *a, mwIndex i, const char *n) { return h_ok(a)->cls != mxSTRUCT_CLASS ? 0 : mxGetFieldByNumber(a, i, mxGetFieldNumber(a, n)); }
void mxSetFieldByNumber(mxArray *a, mwIndex i, int k, mxArray *v)
{
    long j;
    h_ok(a);
    sym_check(a->cls == mxSTRUCT_CLASS && i == 0 && k >= 0 && k < a->nf, "a field that does not exist is set");
    sym_check(!a->caller, "a structure of the caller is changed");
    if (a->cls != mxSTRUCT_CLASS || i || k < 0 || k >= a->nf) return;
    for (j = 0; j < a->nf; j++) sym_check(!v || a->val[j] != v, "one array is stored in two fields");
    a->val[k] = v;
}
void mxSetField(mxArray *a, mwIndex i, const char *n, mxArray *v) { mxSetFieldByNumber(a, i, mxGetFieldNumber(a, n), v); }
static mxArray *h_mx(long cls, long r, long k)
{
    mxArray *a = malloc(sizeof(mxArray));
    a->cls = cls; a->sparse = a->complex = 0; a->nd = 2; a->dims[0] = r; a->dims[1] = k; a->dims[2] = a->dims[3] = 1; a->pr = 0; a->ir = a->jc = 0; a->nf = 0; a->caller = 0; a->dead = 0;
    return a;
}
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity f)
{
    mxArray *a;
    mwSize i;
    m = sym_conc(m); n = sym_conc(n);
    sym_check(m <= 64 && n <= 64, "a result far too large is created");
    a = h_mx(c, m, n);
    a->complex = f != mxREAL;
    a->pr = malloc(m * n * 8 ? m * n * h_esz(c) : 1);
    if (c == mxDOUBLE_CLASS) for (i = 0; i < m * n; i++) ((double *)a->pr)[i] = 0.0;
    else memset(a->pr, 0, m * n * h_esz(c));
    return a;
}
mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity f) { if (nd != 2) sym_unmodelled("an array of more dimensions"); return mxCreateNumericMatrix(d[0], d[1], c, f); }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity f) { return mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, f); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateNumericMatrix(1, 1, mxDOUBLE_CLASS, mxREAL); *(double *)a->pr = v; return a; }
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **names)
{
    mxArray *a = h_mx(mxSTRUCT_CLASS, m, n);
    long i;
    if (nf > H_NF || m != 1 || n != 1) sym_unmodelled("a structure array");
    for (i = 0; i < nf; i++) { a->key[i] = names[i]; a->val[i] = 0; }
    a->nf = nf;
    return a;
}
mxArray *mxCreateStructArray(mwSize nd, const mwSize *d, int nf, const char **names) { if (nd != 2) sym_unmodelled("an array of more dimensions"); return mxCreateStructMatrix(d[0], d[1], nf, names); }
void mxDestroyArray(mxArray *a)
{
    long i;
    if (!a) return;
    h_ok(a);
    sym_check(!a->caller, "an array of the caller is destroyed");
    for (i = 0; i < a->nf; i++) mxDestroyArray(a->val[i]);
    free(a->pr);
    a->dead = 1;
    free(a);
}
void *mxMalloc(size_t n) { return malloc(n); }
void *mxCalloc(size_t k, size_t n) { return calloc(k, n); }
void *mxRealloc(void *p, size_t n) { return realloc(p, n); }
void mxFree(void *p) { free(p); }
void mexMakeMemoryPersistent(void *p) {}
void mexErrMsgTxt(const char *m) { sym_check(m != 0 && *m != 0, "an error without a message"); h_errs++; sym_throw(); }
void mexWarnMsgTxt(const char *m) { h_warned++; }
#ifdef NATIVE
void mexErrMsgIdAndTxt(const char *id, const char *m, ...) { mexErrMsgTxt(m); }
void mexWarnMsgIdAndTxt(const char *id, const char *m, ...) { h_warned++; }
#else
void mexErrMsgIdAndTxt__va(const char *id, const char *m, long n, void *s) { mexErrMsgTxt(m); }
void mexWarnMsgIdAndTxt__va(const char *id, const char *m, long n, void *s) { h_warned++; }
#endif
/* ---- the call */
static int h_nl, h_nr;
static mxArray *h_pl[4];
static const mxArray *h_pr_[10];
static void h_go(void *u) { mexFunction(h_nl, h_pl, h_nr, h_pr_); }
/* 1: an error was raised */
static int h_call(void)
{
    long i;
    h_errs = 0;
    for (i = 0; i < 4; i++) h_pl[i] = 0;
    return sym_catch(h_go, 0);
}
static void h_double(mxArray *a, const double *v, long k)
{
    long i;
    a->pr = malloc(k * 8 + 8);
    for (i = 0; i < k; i++) ((double *)a->pr)[i] = v[i];
}
#endif
