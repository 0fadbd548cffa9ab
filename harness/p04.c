#include "pyprob.h"
#include "pyfake.h"
/* P04: nothing is leaked or released twice, whatever the arguments, options and outcome */
int harness(void)
{
    long n = sym_param("n", 2), m = sym_param("m", 2), i, mark, lay, which, K = sym_param("K", 1), k;
    PyObject *r;
    sym_policy(0, 0);
    h_import();
    h_real = sym_param("real", 0);
    for (k = 0; k < K; k++) {
        long q = sym_choose("eq", 4), p = q > 0, bad = sym_param("bad", 0) ? sym_choose("bad", 7) : 0, o = sym_choose("opt", 8);
        h_nsetup = h_nsolve = h_nclean = 0;
        lay = sym_param("layouts", 7) > 1 ? sym_choose("layout", sym_param("layouts", 7)) : 0;
        which = lay ? sym_choose("which", 7) : 6;
        if (bad > 4 && !p) bad = 0;
        if (q > 1) bad = 0;
        h_bump = bad;
        h_args6(n, m, p, lay, which, !h_real);
        h_warn_raise = 0;
        if (q > 1) { h_given[3 + q - 1] = 0; h_pos = q == 2 ? 4 : 5; }      /* only one of A and b */
        if (o) {
            h_opts();
            if (o <= 3) h_opt1("OUTPUT", h_mklong(o, 0));
            if (o == 4) h_opt1("OUTPUT", h_mkother(&PyUnicode_Type));
            if (o == 5) { h_opt1("OUTPUT", h_mklong(-1, 0)); h_warn_raise = 1; }
            if (o == 6) { long w = sym_choose("badopt", 5); h_opt1(w == 0 ? "MAXITER" : w == 1 ? "ABSTOL" : w == 2 ? "RELTOL" : w == 3 ? "SIGMA" : "VERBOSE", sym_choose("badkind", 2) ? h_mkother(&PyList_Type) : h_mklong(0, 1)); }
            if (o == 7) { h_opt1("MAXITER", h_mklong(1, 0)); h_opt1("ABSTOL", h_mkfloat(0.5)); h_opt1("RELTOL", h_mkfloat(0.5)); h_opt1("SIGMA", h_mkfloat(1.0)); h_opt1("VERBOSE", h_mklong(0, 0)); h_opt1("OUTPUT", h_mklong(2, 0)); }
            else if (o != 6 && h_real) h_opt1("MAXITER", h_mklong(2, 0));
        }
        mark = sym_heapmark();
        r = h_call();
        sym_check((r != 0) == (!bad && o != 5 && o != 6), "a result where an exception is due, or the reverse");
        sym_check(h_nclean == h_nsetup, "the solver's memory is not released");
        if (r) { Py_DecRef(r); sym_reach("result"); } else sym_reach("exception");
        h_after();
        sym_noleak(mark, "the call leaves memory allocated");
        for (i = 0; i < 6; i++) if (h_a[i]) sym_check(h_a[i]->f.ob_base.ob_refcnt == H_REF && h_a[i]->f.data != 0, "an argument's reference count changes");
    }
    sym_reach("end");
    return 0;
}
