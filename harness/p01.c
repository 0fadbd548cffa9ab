#include "pystub.h"
/* P01: arguments are validated before anything is solved. The solver is replaced by a recorder. */
static long h_nsetup, h_nsolve, h_nclean, h_n, h_m, h_p;
static QP h_qp; static settings h_opt; static stats h_st;
static double h_x[8], h_y[8], h_z[8], h_s[8];
QP *__wrap_QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *P, qp_real *A, qp_real *G, qp_real *c, qp_real *h, qp_real *b, qp_int *perm, int order)
{
    h_nsetup++;
    h_n = n; h_m = m; h_p = p;
    h_qp.n = n; h_qp.m = m; h_qp.p = A && b ? p : 0;
    h_qp.options = &h_opt; h_qp.stats = &h_st; h_qp.x = h_x; h_qp.y = h_y; h_qp.z = h_z; h_qp.s = h_s;
    return &h_qp;
}
qp_int __wrap_QP_SOLVE(QP *q) { sym_check(q == &h_qp && h_nsetup == 1 && !h_nclean, "a problem that was not set up is solved"); h_nsolve++; return 0; }
void __wrap_QP_CLEANUP_dense(QP *q) { sym_check(q == &h_qp, "a foreign problem is cleaned up"); h_nclean++; }
static int h_isfloat(int t) { return (t == NPY_HALF) | (t == NPY_FLOAT) | (t == NPY_DOUBLE) | (t == NPY_LONGDOUBLE); }
int harness(void)
{
    static const int want[6] = {1, 1, 2, 2, 2, 1};
    long i, j, which = sym_param("which", -1) < 0 ? sym_choose("which", 6) : sym_param("which", -1), all = sym_param("allnd", 0);
    long nd[6], ty[6], d[6][4];
    h_arr *a[7];
    PyObject *r;
    sym_policy(0, sym_param("merge", 0));
    h_import();
    long miss = sym_choose("miss", 4), notarr = sym_param("notarr", 0) ? sym_choose("notarr", 7) : 9;   /* bit 0: no A, bit 1: no b */
    h_pos = sym_param("kw", 0) ? sym_choose("pos", 7) : 4 + (miss == 0) * 2;
    if (h_pos > 4 && (miss & 1)) h_pos = 4;
    if (h_pos > 5 && (miss & 2)) h_pos = 5;
    for (i = 0; i < 6; i++) {
        char nm[8];
        nm[0] = "chPGAb"[i]; nm[2] = 0;
        nm[1] = 'n';
        nd[i] = all ? 1 + sym_choose(nm, 2) : i == which ? sym_choose(nm, 5) : want[i];
        nm[1] = 't';
        ty[i] = sym_param("anytype", 1) == 2 || (sym_param("anytype", 1) && i == which) ? sym_int(nm, 0, NPY_NTYPES - 1) : NPY_DOUBLE;
        a[i] = h_mkarr(nd[i], &h_descr[NPY_DOUBLE]);
        /* an own descriptor, so that the type can stay symbolic */
        PyArray_Descr *ds = malloc(sizeof(PyArray_Descr));
        *ds = h_descr[NPY_DOUBLE]; ds->type_num = ty[i]; ds->ob_base.ob_refcnt = 7;
        h_descr[NPY_DOUBLE].ob_base.ob_refcnt--;
        a[i]->f.descr = ds;
        for (j = 0; j < nd[i]; j++) { nm[1] = '0' + j; d[i][j] = a[i]->f.dimensions[j] = sym_int(nm, 1, 1099511627776L); }
        a[i]->caller = 1;
        a[i]->f.ob_base.ob_refcnt = H_REF;
        a[i]->lv = malloc(16 * 8);
        a[i]->f.data = malloc(16 * 8);
        for (j = 0; j < 16; j++) a[i]->lv[j] = ((double *)a[i]->f.data)[j] = 0.5 * j + i;
        h_given[i] = (PyObject *)a[i];
    }
    if (miss & 1) h_given[4] = 0;
    if (miss & 2) h_given[5] = 0;
    h_given[6] = 0;
    if (notarr < 6 && h_given[notarr]) h_given[notarr] = h_mkother(&PyUnicode_Type);
    if (notarr == 6) h_given[6] = h_mkother(&PyList_Type);
    /* consistent? (evaluated without branching) */
    long eq = !(miss);
    int ok = 1;
    for (i = 0; i < 6; i++) {
        int need = i < 4 || eq;
        if (!need) continue;
        ok &= (nd[i] == want[i]) & h_isfloat(ty[i]);
    }
    if (nd[0] == 1 && nd[1] == 1) {
        if (nd[2] == 2) ok &= (d[2][0] == d[0][0]) & (d[2][1] == d[0][0]); else ok = 0;
        if (nd[3] == 2) ok &= (d[3][0] == d[1][0]) & (d[3][1] == d[0][0]); else ok = 0;
        if (eq) { if (nd[4] == 2 && nd[5] == 1) ok &= (d[4][0] == d[5][0]) & (d[4][1] == d[0][0]); else ok = 0; }
    } else ok = 0;
    if (notarr < 7 && (notarr == 6 || h_given[notarr])) ok = 0;
    /* on a consistent problem sizes stay small enough to be converted */
    if (sym_param("small", 1)) sym_assume((!ok) | ((nd[0] != 1 || d[0][0] <= 2) & (nd[1] != 1 || d[1][0] <= 2) & (!eq || nd[5] != 1 || d[5][0] <= 2)));
    for (i = 0; i < 6; i++) sym_protect(a[i]->f.data, 16 * 8);
    r = h_call();
    sym_verify_protected("an argument's elements are written to");
    if (h_nsetup) {
        sym_check(ok, "inconsistent arguments reach the solver");
        sym_check(h_nsetup == 1 && h_nsolve == 1 && h_nclean == 1, "a problem is not set up, solved and cleaned up once");
        sym_check(h_n == d[0][0] && h_m == d[1][0] && h_p == (eq ? d[5][0] : 0), "the solver is given other sizes than those of the arguments");
        sym_check(r != 0, "consistent arguments give no result");
        sym_reach("valid");
    } else {
        sym_check(!ok, "consistent arguments are rejected");
        sym_check(h_nsolve == 0, "something is solved although the arguments are inconsistent");
        sym_check(r == 0 && h_err == PyExc_TypeError, "inconsistent arguments do not raise TypeError");
        sym_reach("rejected");
    }
    if (r) Py_DecRef(r);
    for (i = 0; i < 6; i++) sym_check(a[i]->f.descr->ob_base.ob_refcnt == 7, "the reference count of an element type changes");
    sym_reach("end");
    return 0;
}
