#include "mexprob.h"
/* X01: MATLAB arguments are validated before anything is solved */
/* an array with arbitrary class, storage and dimensions; fixed: a valid one of size 1 by 1 */
static mxArray *h_any(const char *nm, int vec, int fixed)
{
    char s[4];
    mxArray *a = h_mx(0, 0, 0);
    long i;
    s[0] = nm[0]; s[2] = 0;
    s[1] = 'c'; a->cls = !fixed ? sym_int(s, 0, 16) : mxDOUBLE_CLASS;
    s[1] = 's'; a->sparse = !fixed ? sym_int(s, 0, 1) : !vec;
    s[1] = 'i'; a->complex = !fixed ? sym_int(s, 0, 1) : 0;
    for (i = 0; i < 2; i++) { s[1] = '0' + i; a->dims[i] = fixed ? 1 : sym_int(s, 0, 1099511627776L); }
    a->caller = 1;
    a->pr = malloc(64);
    for (i = 0; i < 8; i++) ((double *)a->pr)[i] = 1.0;
    a->ir = malloc(64); a->jc = malloc(64);
    for (i = 0; i < 8; i++) a->ir[i] = a->jc[i] = 0;
    return a;
}
#define MX(a) ((a)->dims[0] > (a)->dims[1] ? (a)->dims[0] : (a)->dims[1])
static int h_isvec(mxArray *a) { return (a->cls == mxDOUBLE_CLASS) & !a->sparse & !a->complex & (((a->dims[0] == 1) & (a->dims[1] >= 1)) | ((a->dims[1] == 1) & (a->dims[0] >= 1))); }
static int h_ismat(mxArray *a) { return (a->cls == mxDOUBLE_CLASS) & (a->sparse != 0) & !a->complex; }
int harness(void)
{
    static const double pv[7] = {1, 2, 3, 0, 4, 1.5, NAN};
    long i, k = 0, nr, nl, eq, perm = 0, r, lim = 2, withperm = sym_param("perm", 0);
    sym_policy(0, sym_param("merge", 1));
    nr = withperm ? 5 + 2 * sym_choose("nr", 2) : sym_choose("nr", 10);
    nl = withperm ? 1 : sym_choose("nl", 5);
    h_nr = nr; h_nl = nl;
    eq = nr >= 6;
    for (i = 0; i < 6; i++) h_a[i] = h_any(&"PcAbGh"[i], i & 1, withperm);
    h_opt_ = h_mx(mxSTRUCT_CLASS, 1, 1); h_opt_->caller = 1;
    for (i = 0; i < 6 && k < nr; i++) if (eq || (i != 2 && i != 3)) h_pr_[k++] = h_a[i];
    for (; k < nr; k++) h_pr_[k] = h_opt_;
    int ok = (nr >= 4) & (nr <= 7) & (nl >= 1) & (nl <= 3);
    mwSize n = MX(h_a[1]), m = MX(h_a[5]), p = eq ? MX(h_a[3]) : 0;
    if (ok) {
        ok &= h_ismat(h_a[0]) & (h_a[0]->dims[0] == n) & (h_a[0]->dims[1] == n) & h_isvec(h_a[1]);
        ok &= h_ismat(h_a[4]) & (h_a[4]->dims[0] == m) & (h_a[4]->dims[1] == n) & h_isvec(h_a[5]);
        if (eq) ok &= h_ismat(h_a[2]) & (h_a[2]->dims[0] == p) & (h_a[2]->dims[1] == n) & h_isvec(h_a[3]);
        if (withperm) perm = 1 + sym_choose("perm", 3);
    }
    if (perm) {
        mxArray *q = h_any("q", 1, 0);
        long seen = 0, good = 1, N;
        lim = 1;
        h_field(perm == 1 ? "PERMUT" : perm == 2 ? "permut" : "Permut", q);
        for (i = 0; i < 2 + eq; i++) {
            char nm[3] = {'v', '0' + i, 0};
            double v = pv[sym_choose(nm, 7)];
            ((double *)q->pr)[i] = v;
            if (v == 1 || v == 2 || v == 3) { if (v > 2 + eq || (seen >> (long)v & 1)) good = 0; seen |= 1L << (long)v; } else good = 0;
        }
        int sz = MX(q) == n + m + p;
        sym_assume((!sz) | (n + m + p <= 2 + eq));
        ok &= h_isvec(q) & sz & (good != 0);
    }
    h_valid = ok;
    sym_assume((!ok) | ((n <= lim) & (m <= lim) & (p <= lim)));
    for (i = 0; i < 6; i++) sym_protect(h_a[i]->pr, 64);
    r = h_call();
    sym_verify_protected("an argument's elements are written to");
    sym_check(h_nsolve == h_nsetup, "a problem is not set up and solved once");
    if (h_nsolve) {
        sym_check(h_n == n && h_m == m && h_p == p, "the solver is given other sizes than those of the arguments");
        sym_check(!r && h_nclean == 1, "consistent arguments raise an error");
        sym_check(h_pgiven == (perm != 0), "the permutation does not reach the solver");
        if (perm) sym_reach("perm");
        sym_reach("valid");
    } else if (nl == 0) {
        sym_check(!r, "asking for help raises an error");
        sym_reach("help");
    } else {
        sym_check(!ok, "consistent arguments are rejected");
        sym_check(r && h_errs == 1, "inconsistent arguments do not raise an error");
        sym_reach("rejected");
    }
    sym_reach("end");
    return 0;
}
