#include "mexprob.h"
/* X02: MATLAB options and data reach the solver unchanged */
static const char *const h_up[5] = {"MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE"}, *const h_lo[5] = {"maxiter", "abstol", "reltol", "sigma", "verbose"};
static void h_same(const double *d, mxArray *a, long k, const char *m)
{
    long i;
    for (i = 0; i < k; i++) sym_same(d[i], ((double *)a->pr)[i], m);
}
static void h_sparse(int w, mxArray *a, const char *m)
{
    long i, nz = a->jc[a->dims[1]];
    for (i = 0; i <= a->dims[1]; i++) sym_check(h_jc[w][i] == a->jc[i], m);
    for (i = 0; i < nz; i++) sym_check(h_ir[w][i] == a->ir[i], m);
    h_same(h_px[w], a, nz, m);
}
static void h_data(void)
{
    h_same(h_cpr, h_a[1], h_n, "the solver's c is not the caller's");
    h_same(h_hpr, h_a[5], h_m, "the solver's h is not the caller's");
    if (h_a[3]) h_same(h_bpr, h_a[3], h_p, "the solver's b is not the caller's");
}
static long h_pm[256], h_np;
static void h_all(void)
{
    long i;
    sym_check(h_n == h_a[0]->dims[0] && h_m == h_a[4]->dims[0] && h_p == (h_a[2] ? h_a[2]->dims[0] : 0), "the solver's sizes are not the caller's");
    sym_check(h_sd == 0.0, "the solver is given a lower bound of the centring parameter");
    h_sparse(0, h_a[0], "the solver's P is not the caller's");
    h_sparse(2, h_a[4], "the solver's G is not the caller's");
    if (h_a[2]) h_sparse(1, h_a[2], "the solver's A is not the caller's"); else sym_check(!h_jc[1] || !h_ir[1] || !h_px[1] || !h_bpr, "there are equalities the caller did not pass");
    h_data();
    sym_check((h_perm != 0) == (h_np != 0), "the permutation does not reach the solver");
    if (h_np) for (i = 0; i < h_np; i++) sym_check(h_perm[i] == h_pm[i] - 1, "the permutation is not passed 0-based");
}
int harness(void)
{
    long i, j, n = sym_param("n", 2), m = sym_param("m", 2), p = sym_param("p", 1), nr = 4 + h_fix("fnr", "nr", 4), kind[5], which = -1, rest = 0, up = 0, r, N;
    double v[5];
    int ok = 1, cast = 1;
    sym_policy(0, sym_param("merge", 1));
    if (nr < 6) p = 0;
    h_real = sym_param("real", 0);
    h_args(n, m, p, nr, nr & 1 ? 0 : sym_choose("row", 2), !h_real);
    h_nl = 1;
    N = n + m + p;
    if (h_opt_) { which = h_fix("fwhich", "which", 6); if (!sym_param("few", 0)) { rest = sym_choose("rest", 2); up = sym_choose("upper", 2); } }
    /* kinds: 0 absent, 1 double, 2 NaN, 3 inf, 4 -inf, 5 empty, 6 int32, 7 logical, 8 string, 9 cell */
    for (i = 0; i < 5; i++) {
        char nm[3] = {'k', '0' + i, 0};
        mxArray *a = 0;
        kind[i] = !h_opt_ ? 0 : i == which ? sym_choose(nm, sym_param("kinds", 10)) : rest;
        v[i] = 0;
        nm[0] = 'v';
        if (kind[i] == 1) a = h_num(v[i] = sym_real(nm));
        if (kind[i] >= 2 && kind[i] <= 4) a = h_num(v[i] = kind[i] == 2 ? NAN : kind[i] == 3 ? INFINITY : -INFINITY);
        if (kind[i] == 5) a = h_mx(mxDOUBLE_CLASS, 0, 0);
        if (kind[i] == 6) { a = h_mx(mxINT32_CLASS, 1, 1); a->pr = malloc(4); v[i] = *(int32_t *)a->pr = (int32_t)sym_int(nm, -300, 300); }
        if (kind[i] == 7) { a = h_mx(mxLOGICAL_CLASS, 1, 1); a->pr = malloc(1); v[i] = *(unsigned char *)a->pr = (unsigned char)sym_choose(nm, 2); }
        if (kind[i] == 8) { a = h_mx(mxCHAR_CLASS, 1, 1); a->pr = malloc(2); *(mxChar *)a->pr = 'a'; }
        if (kind[i] == 9) { a = h_mx(mxCELL_CLASS, 1, 1); a->pr = malloc(8); *(long *)a->pr = 0; }
        if (!a) continue;
        h_field((up ? h_up : h_lo)[i], a);
        if (kind[i] == 2 || kind[i] == 4 || kind[i] == 5 || kind[i] >= 8) ok = 0;
        else if (i == 0) ok &= (v[i] >= 0) & (v[i] <= 200);
        else if (i <= 2) ok &= (v[i] >= 0) & (v[i] <= 1);
        else ok &= v[i] >= 0;
        if (i == 4) cast = kind[i] != 3 && v[i] <= 2147483647.0;      /* larger ones need not be accepted */
    }
    h_np = 0;
    if (which == 5 && sym_choose("perm", 2)) {
        long pr = sym_choose("prow", 2);
        mxArray *q = h_mx(mxDOUBLE_CLASS, pr ? 1 : N, pr ? N : 1);
        q->pr = malloc(N * 8);
        static const char *const nm[3] = {"PERMUT", "permut", "Permut"};
        long s = sym_choose("spell", 3), off = sym_choose("off", sym_param("offs", 99) < N ? sym_param("offs", 99) : N), mul = sym_choose("back", 2);
        h_np = N;
        for (i = 0; i < N; i++) { h_pm[i] = 1 + (mul ? N - 1 - (i + off) % N : (i + off) % N); ((double *)q->pr)[i] = h_pm[i]; }
        h_field(nm[s], q);
        sym_protect(q->pr, N * 8);
    }
    h_valid = 1;
    h_atsetup = h_all; h_atsolve = h_data;
    r = h_call();
    sym_verify_protected("an argument is written to");
    if (h_nsolve) {
        sym_check(ok, "a bad option does not keep the problem from being solved");
        sym_check(!r && h_nsetup == 1 && h_nsolve == 1 && h_nclean == 1, "the problem is not set up, solved and cleaned up once");
        if (kind[0]) sym_check((h_seen.maxit <= v[0]) & (h_seen.maxit > v[0] - 1), "MAXITER does not reach the solver"); else sym_check(h_seen.maxit == 100, "the default of MAXITER is not kept");
        if (kind[1]) sym_same(h_seen.abstol, v[1], "ABSTOL does not reach the solver"); else sym_check(h_seen.abstol == 1e-6, "the default of ABSTOL is not kept");
        if (kind[2]) sym_same(h_seen.reltol, v[2], "RELTOL does not reach the solver"); else sym_check(h_seen.reltol == 1e-6, "the default of RELTOL is not kept");
        if (kind[3]) sym_same(h_seen.sigma, v[3], "SIGMA does not reach the solver"); else sym_check(h_seen.sigma == 100, "the default of SIGMA is not kept");
        if (kind[4]) sym_check((!cast) | ((h_seen.verbose <= v[4]) & (h_seen.verbose > v[4] - 1)), "VERBOSE does not reach the solver"); else sym_check(h_seen.verbose == 0, "the default of VERBOSE is not kept");
        if (h_np) sym_reach("perm");
        sym_reach("solved");
    } else {
        sym_check((!ok) | (!cast), "valid options are rejected");
        sym_check(r && h_errs == 1, "a bad option does not raise an error");
        sym_reach("rejected");
    }
    sym_reach("end");
    return 0;
}
