/* valid arguments for the Python entry: arbitrary or concrete elements in a chosen memory layout.
   layout: 0 C-ordered double, 1 Fortran-ordered double, 2 strided double, 3 C-ordered float32, 4 strided float32, 5 long double, 6 half */
#ifndef PYPROB_H
#define PYPROB_H
#include "pystub.h"
static h_arr *h_a[6];
static long h_dref[NPY_NTYPES], h_bump;      /* h_bump: 1 + the argument that gets an inconsistent size */
static h_arr *h_arg(char c, long r, long k, long nd, long layout, int symb)
{
    static const int ty[7] = {NPY_DOUBLE, NPY_DOUBLE, NPY_DOUBLE, NPY_FLOAT, NPY_FLOAT, NPY_LONGDOUBLE, NPY_HALF};
    h_arr *a = h_mkarr(nd, &h_descr[ty[layout]]);
    char nm[8];
    long i, j, N = r * k, isz = h_isz[ty[layout]], strided = layout == 2 || layout == 4;
    a->f.dimensions[0] = r;
    if (nd == 2) a->f.dimensions[1] = k;
    a->nel = N;
    a->lv = malloc(N * 8 + 8);
    a->f.data = malloc(N * 32 + 32);
    a->caller = 1;
    a->f.ob_base.ob_refcnt = H_REF;
    for (i = 0; i < 4 * N + 4; i++) ((double *)a->f.data)[i] = -7.77e77;
    for (i = 0; i < r; i++) for (j = 0; j < k; j++) {
        double v;
        if (symb) { nm[0] = c; nm[1] = '0' + i; nm[2] = '0' + j; nm[3] = 'e'; nm[4] = 0; v = sym_real(nm); }
        else if (c == 'P') v = i == j ? 3.0 + i : 0.5;
        else if (c == 'h') v = 4.0 + i;
        else v = ((i * 7 + j * 3 + c) % 5 - 2) * 0.5 + 0.25;
        a->lv[i * k + j] = v;
        if (layout <= 2) ((double *)a->f.data)[(layout == 1 ? j * r + i : i * k + j) * (strided ? 2 : 1)] = v;
    }
    long s0, s1;
    if (layout == 1) { s0 = 8; s1 = 8 * r; } else { s1 = isz * (strided ? 2 : 1); s0 = s1 * k; }
    a->f.strides[0] = s0;
    if (nd == 2) a->f.strides[1] = s1;
    int cc = layout != 1 && !strided, fc = layout == 1;
    if (nd == 1 || r == 1 || k == 1) { if (layout == 1) cc = 1; if (!strided) fc = 1; }
    a->f.flags = (cc ? NPY_ARRAY_C_CONTIGUOUS : 0) | (fc ? NPY_ARRAY_F_CONTIGUOUS : 0) | NPY_ARRAY_ALIGNED | NPY_ARRAY_WRITEABLE;
    return a;
}
/* all six arguments; which: the one with the given layout, 6: all of them */
static void h_args6(long n, long m, long p, long layout, long which, int symb)
{
    long i;
    static const int nd[6] = {1, 1, 2, 2, 2, 1};
    long R[6] = {n, m, n, m, p, p}, K[6] = {1, 1, n, n, n, 1};
    for (i = 0; i < 6; i++) {
        h_given[i] = 0; h_a[i] = 0;
        if (i >= 4 && p == 0) continue;
        h_a[i] = h_arg("chPGAb"[i], R[i], K[i], nd[i], which == i || which == 6 ? layout : 0, symb);
        h_given[i] = (PyObject *)h_a[i];
        if (h_bump == i + 1) h_a[i]->f.dimensions[0]++;
        sym_protect(h_a[i]->f.data, (R[i] * K[i]) * 32 + 32);
        sym_protect(h_a[i]->f.dimensions, nd[i] * 8);
    }
    h_given[6] = 0;
    h_pos = p ? 6 : 4;
    for (i = 0; i < NPY_NTYPES; i++) h_dref[i] = h_descr[i].ob_base.ob_refcnt;
}
static void h_opts(void) { h_given[6] = h_mkdict(); h_given[6]->ob_refcnt = H_REF; if (h_pos == 6) h_pos = 6 + sym_param("optpos", 0); }
static void h_opt1(const char *k, PyObject *v) { v->ob_refcnt = H_REF; h_put(h_given[6], k, v); }
static void h_after(void)
{
    long i;
    sym_verify_protected("an argument is written to");
    for (i = 0; i < NPY_NTYPES; i++) sym_check(h_descr[i].ob_base.ob_refcnt == h_dref[i], "the reference count of an element type changes");
}
#endif
