#include "pyprob.h"
#include "pyfake.h"
/* P02: options are range-checked, applied exactly and defaulted */
static const char *const h_key[6] = {"MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE", "OUTPUT"};
static const int h_isint[6] = {1, 0, 0, 0, 1, 1};
int harness(void)
{
    long i, kind[6], iv[6], which = sym_choose("which", 7), rest = sym_choose("rest", 2), lvl = 0;
    double fv[6];
    PyObject *r;
    sym_policy(0, sym_param("merge", 1));
    h_import();
    h_args6(sym_param("n", 1), sym_param("m", 1), sym_param("p", 0), 0, 0, 0);
    h_warn_raise = sym_choose("raise", 2);
    h_opts();
    int ok = 1, okout = 1;
    /* kinds: 0 absent, 1 int, 2 int too large for long, 3 float, 4 NaN, 5 inf, 6 string, 7 -inf, 8 int far below */
    for (i = 0; i < 6; i++) {
        char nm[4];
        nm[0] = 'k'; nm[1] = '0' + i; nm[2] = 0;
        kind[i] = i == which ? sym_choose(nm, 9) : sym_param("all", 0) ? sym_choose(nm, 4) : rest ? (h_isint[i] ? 1 : 3) : 0;
        iv[i] = 0; fv[i] = 0;
        nm[0] = 'v';
        if (kind[i] == 1) { iv[i] = sym_int(nm, -4611686018427387904L, 4611686018427387904L); h_opt1(h_key[i], h_mklong(iv[i], 0)); }
        if (kind[i] == 2) h_opt1(h_key[i], h_mklong(0, 1));
        if (kind[i] == 8) h_opt1(h_key[i], h_mklong(0, -1));
        if (kind[i] == 3) { fv[i] = sym_real(nm); h_opt1(h_key[i], h_mkfloat(fv[i])); }
        if (kind[i] == 4) h_opt1(h_key[i], h_mkfloat(fv[i] = NAN));
        if (kind[i] == 5) h_opt1(h_key[i], h_mkfloat(fv[i] = INFINITY));
        if (kind[i] == 7) h_opt1(h_key[i], h_mkfloat(fv[i] = -INFINITY));
        if (kind[i] == 6) h_opt1(h_key[i], h_mkother(&PyUnicode_Type));
        if (!kind[i]) continue;
        if (h_isint[i]) {
            int o = kind[i] == 1;
            if (o) o = i == 0 ? (iv[i] >= 1) & (iv[i] <= 199) : iv[i] >= 0;
            if (i == 5) okout = o; else ok &= o;
        } else if (kind[i] == 3) ok &= i == 3 ? fv[i] > 0 : (fv[i] > 0) & (fv[i] < 1);
        else if (!(kind[i] == 5 && i == 3)) ok = 0;
    }
    if (kind[5] == 1) lvl = iv[5];
    r = h_call();
    if (h_nsetup | h_nsolve) {
        sym_check(ok, "a bad option does not keep the problem from being solved");
        sym_check(h_nsetup == 1 && h_nsolve == 1 && h_nclean == 1, "the problem is not set up, solved and cleaned up once");
        sym_check(kind[0] ? h_seen.maxit == iv[0] : h_seen.maxit == 100, "MAXITER does not reach the solver");
        if (kind[1]) sym_same(h_seen.abstol, fv[1], "ABSTOL does not reach the solver"); else sym_check(h_seen.abstol == 1e-6, "the default of ABSTOL is not kept");
        if (kind[2]) sym_same(h_seen.reltol, fv[2], "RELTOL does not reach the solver"); else sym_check(h_seen.reltol == 1e-6, "the default of RELTOL is not kept");
        if (kind[3]) sym_same(h_seen.sigma, fv[3], "SIGMA does not reach the solver"); else sym_check(h_seen.sigma == 100, "the default of SIGMA is not kept");
        sym_check(kind[4] ? h_seen.verbose == iv[4] : h_seen.verbose == 0, "VERBOSE does not reach the solver");
        sym_check(okout || h_warns > 0, "a bad OUTPUT does not warn");
        sym_check(r != 0, "a problem is solved but no result is returned");
        if (r) {
            sym_check(h_get(r, "sol") != 0, "the result has no sol");
            int basic = h_get(r, "basicInfo") != 0, adv = h_get(r, "advInfo") != 0;
            if (kind[5] && okout) { sym_check(basic == ((lvl == 1) | (lvl == 2)), "basicInfo is not there exactly for OUTPUT 1 and 2"); sym_check(adv == (lvl == 2), "advInfo is not there exactly for OUTPUT 2"); }
            else sym_check(!basic && !adv, "the default output holds more than sol");
        }
        sym_reach("solved");
    } else {
        sym_check(r == 0, "a result without a solve");
        sym_check((!ok) | ((!okout) & (h_warn_raise != 0)), "valid options are rejected");
        sym_check((!ok && h_err == PyExc_TypeError) || ((!okout) & (h_warn_raise != 0)), "a bad option does not raise TypeError");
        sym_reach("rejected");
    }
    if (okout && ok) sym_check(h_warns == 0, "good options give a warning");
    if (r) Py_DecRef(r);
    h_after();
    sym_reach("end");
    return 0;
}
