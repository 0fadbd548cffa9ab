#include "mexprob.h"
/* X03: MATLAB results are the solver's and memory is released */
static void h_vecis(const mxArray *a, long n, const double *v, const char *msg)
{
    long i;
    sym_check(a != 0, msg);
    if (!a) return;
    sym_check(a->cls == mxDOUBLE_CLASS && !a->sparse && !a->complex && a->dims[0] == n && a->dims[1] == 1, msg);
    for (i = 0; i < n; i++) sym_same(((double *)a->pr)[i], v[i], msg);
}
static void h_numis(const mxArray *s, const char *k, double v, const char *msg) { h_vecis(mxGetField(s, 0, k), 1, &v, msg); }
int harness(void)
{
    long i, n = sym_param("n", 2), m = sym_param("m", 3), p = sym_param("p", 1), nr = 4 + h_fix("fnr", "nr", 4), K = sym_param("K", 1), k, mark, r, fail;
    sym_policy(0, 0);
    if (nr < 6) p = 0;
    h_real = sym_param("real", 0);
    for (k = 0; k < K; k++) {
        long perm = 0, N = n + m + p;
        h_nsetup = h_nsolve = h_nclean = 0;
        h_args(n, m, p, nr, 0, !h_real);
        h_nl = 1 + sym_choose("nl", 3);
        if (h_opt_) {
            if (h_real) h_field("MAXITER", h_num(3));
            h_field("verbose", h_num((double)sym_choose("verbose", 2)));
            perm = sym_choose("perm", 2);
            if (perm) {
                mxArray *q = h_mx(mxDOUBLE_CLASS, N, 1);
                q->pr = malloc(N * 8);
                for (i = 0; i < N; i++) ((double *)q->pr)[i] = N - i;
                h_field("PERMUT", q);
            }
        }
        mark = sym_heapmark();
        r = h_call();
        sym_verify_protected("an argument is written to");
        sym_check(!r && h_nsetup == 1 && h_nsolve == 1 && h_nclean == 1, "the problem is not set up, solved and cleaned up once");
        for (i = h_nl; i < 4; i++) sym_check(h_pl[i] == 0, "more outputs than asked for");
        h_vecis(h_pl[0], n, h_rx_, "the first output is not the solver's x");
        mxArray *s = h_pl[1];
        sym_check((s != 0) == (h_nl > 1), "the second output is not there");
        if (s) {
            sym_check(s->cls == mxSTRUCT_CLASS, "the second output is not a structure");
            h_numis(s, "ExitFlag", (double)h_rflag, "ExitFlag is not the status of the solve");
            h_numis(s, "Iterations", (double)h_rst.IterationCount, "Iterations is not the iteration count");
            h_numis(s, "Setup_Time", h_rst.tsetup, "Setup_Time is not the setup time");
            h_numis(s, "Solve_Time", h_rst.tsolve, "Solve_Time is not the solve time");
            sym_reach("basic");
        }
        s = h_pl[2];
        sym_check((s != 0) == (h_nl > 2), "the third output is not there");
        if (s) {
            sym_check(s->cls == mxSTRUCT_CLASS, "the third output is not a structure");
            h_numis(s, "Fval", h_rst.fval, "Fval is not the objective value");
            h_numis(s, "KKT_Time", h_rst.kkt_time, "KKT_Time is not the KKT time");
            h_numis(s, "LDL_Time", h_rst.ldl_numeric, "LDL_Time is not the factorisation time");
            if (p) h_vecis(mxGetField(s, 0, "y"), p, h_ry_, "y is not the solver's y");
            else sym_check(mxGetField(s, 0, "y") == 0 || mxIsEmpty(mxGetField(s, 0, "y")), "there is a y without equalities");
            h_vecis(mxGetField(s, 0, "z"), m, h_rz_, "z is not the solver's z");
            h_vecis(mxGetField(s, 0, "s"), m, h_rs_, "s is not the solver's s");
            sym_reach("adv");
        }
        for (i = 0; i < 3; i++) mxDestroyArray(h_pl[i]);
        sym_noleak(mark, "the call leaves memory allocated");
    }
    sym_reach("end");
    return 0;
}
