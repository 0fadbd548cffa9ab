#include "pyprob.h"
#include "pyfake.h"
/* P03: the problem solved is the one passed and the results are the solver's */
static void h_same(const double *d, long i, h_arr *a, long j, const char *m) { sym_same(d[i], a->lv[j], m); }
static void h_data(void)
{
    long i, j, n = h_a[0]->f.dimensions[0], m = h_a[1]->f.dimensions[0], p = h_a[4] ? h_a[4]->f.dimensions[0] : 0;
    for (i = 0; i < n; i++) h_same(h_cpr, i, h_a[0], i, "the solver's c is not the caller's");
    for (i = 0; i < m; i++) h_same(h_hpr, i, h_a[1], i, "the solver's h is not the caller's");
    for (i = 0; i < p; i++) h_same(h_bpr, i, h_a[5], i, "the solver's b is not the caller's");
}
static void h_mats(void)
{
    long i, j, n = h_a[0]->f.dimensions[0], m = h_a[1]->f.dimensions[0], p = h_a[4] ? h_a[4]->f.dimensions[0] : 0;
    int row = h_order == ROW_MAJOR_ORDERING;
    sym_check(h_n == n && h_m == m && h_p == p, "the solver's sizes are not the caller's");
    sym_check(p == 0 || (h_Apr && h_bpr), "the equalities do not reach the solver");
    sym_check(row || h_order == COLUMN_MAJOR_ORDERING, "the matrices are passed in no known order");
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) h_same(h_Ppr, row ? i * n + j : j * n + i, h_a[2], i * n + j, "the solver's P is not the caller's");
    for (i = 0; i < m; i++) for (j = 0; j < n; j++) h_same(h_Gpr, row ? i * n + j : j * m + i, h_a[3], i * n + j, "the solver's G is not the caller's");
    for (i = 0; i < p; i++) for (j = 0; j < n; j++) h_same(h_Apr, row ? i * n + j : j * p + i, h_a[4], i * n + j, "the solver's A is not the caller's");
    h_data();
}
static void h_vec(PyObject *o, long n, const double *v, const char *msg)
{
    long i;
    h_arr *a = (h_arr *)o;
    sym_check(o != 0, msg);
    if (!o) return;
    sym_check(o->ob_type == &h_PyArray_Type && o->ob_refcnt == 1, msg);
    sym_check(a->f.descr->type_num == NPY_DOUBLE && a->f.nd == 1 && a->f.dimensions[0] == n, msg);
    for (i = 0; i < n; i++) sym_same(((double *)a->f.data)[i], v[i], msg);
}
static void h_num(PyObject *d, const char *k, double v, const char *msg)
{
    PyObject *o = h_get(d, k);
    sym_check(o != 0 && o->ob_type == &PyFloat_Type, msg);
    if (o) sym_same(((PyFloatObject *)o)->ob_fval, v, msg);
}
static void h_int(PyObject *d, const char *k, long v, const char *msg)
{
    PyObject *o = h_get(d, k);
    sym_check(o != 0 && o->ob_type == &PyLong_Type, msg);
    if (o) sym_check(((h_long *)o)->v == v, msg);
}
int harness(void)
{
    long n = sym_param("n", 2), m = sym_param("m", 3), p = sym_param("p", 1), lvl = sym_param("level", -1);   /* 0: no options */
    PyObject *r, *d;
    if (lvl < 0) lvl = sym_choose("level", 4);
    sym_policy(0, 0);
    h_import();
    h_real = sym_param("real", 0);
    h_args6(n, m, p, sym_choose("layout", 7), sym_param("which", -1) < 0 ? sym_choose("which", 7) : sym_param("which", -1), !h_real);
    if (sym_param("kw", 0)) h_pos = sym_choose("pos", h_pos + 1);
    h_atsetup = h_mats; h_atsolve = h_data;
    if (lvl) { h_opts(); h_opt1("OUTPUT", h_mklong(lvl, 0)); }
    if (lvl && h_real) h_opt1("MAXITER", h_mklong(3, 0));
    r = h_call();
    sym_check(h_nsetup == 1 && h_nsolve == 1 && r != 0, "a valid problem is not solved once");
    if (!r) return 0;
    sym_check(r->ob_type == &PyDict_Type, "the result is not a dictionary");
    h_vec(h_get(r, "sol"), n, h_rx_, "sol is not the solver's x");
    d = h_get(r, "basicInfo");
    sym_check((d != 0) == (lvl == 1 || lvl == 2), "basicInfo is not there exactly for OUTPUT 1 and 2");
    if (d) {
        h_int(d, "ExitFlag", h_rflag, "ExitFlag is not the status of the solve");
        h_int(d, "Iterations", h_rst.IterationCount, "Iterations is not the iteration count");
        h_num(d, "Setup_Time", h_rst.tsetup, "Setup_Time is not the setup time");
        h_num(d, "Solve_Time", h_rst.tsolve, "Solve_Time is not the solve time");
        sym_reach("basic");
    }
    d = h_get(r, "advInfo");
    sym_check((d != 0) == (lvl == 2), "advInfo is not there exactly for OUTPUT 2");
    if (d) {
        h_num(d, "fval", h_rst.fval, "fval is not the objective value");
        h_num(d, "kktTime", h_rst.kkt_time, "kktTime is not the KKT time");
        h_num(d, "ldlTime", h_rst.ldl_numeric, "ldlTime is not the factorisation time");
        if (p) h_vec(h_get(d, "y"), p, h_ry_, "y is not the solver's y"); else sym_check(h_get(d, "y") == 0, "there is a y without equalities");
        h_vec(h_get(d, "z"), m, h_rz_, "z is not the solver's z");
        h_vec(h_get(d, "s"), m, h_rs_, "s is not the solver's s");
        sym_reach("adv");
    }
    Py_DecRef(r);
    h_after();
    sym_reach("end");
    return 0;
}
