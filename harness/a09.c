#include "prob.h"
/* A09: what a verbose solve prints is true */
int harness(void)
{
    prob *q = &h_pb;
    long k, i, entry = sym_param("entry", 0), K = sym_param("K", 2), lim = sym_param("lim", 1);
    sym_policy(0, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    double sd = sym_param("centre", 0) ? 0.25 : 0.0;
    QP *w = h_setup(q, entry, sd);
    if (sd > 0) w->sigma_d = sd;
    for (k = 0; k < K; k++) {
        long it0 = w->stats->IterationCount, o = sym_outcount(), n, st;
        w->options->maxit = sym_int(h_name1('m', k), 0, lim);
        if (sym_param("tol", 0)) {
            w->options->reltol = sym_real_w(h_name1('r', k), 1e-2);
            w->options->abstol = sym_real_w(h_name1('t', k), 1e-2);
        }
        w->options->verbose = sym_int(h_name1('v', k), 1, 2147483647);
        if (sym_param("fail", 0) && k == K - 1) w->stats->Flag = QP_KKTFAIL;
        if (sym_param("iter", 0) && k == 0) h_symiter(q, w, 1);
        long f = QP_SOLVE(w);
        st = w->stats->IterationCount - it0;
        /* the line of each iterate */
        n = sym_outnum(o, "It");
        if (f != QP_KKTFAIL) sym_check(n == st + (f == QP_OPTIMAL), "the number of iteration lines is not the number of iterates tested");
        if (n) {
            sym_reach("line");
            for (i = 0; i < n; i++) sym_check(sym_outval(o, "It", i) == (double)(it0 + i), "an iteration line shows another iteration count");
            sym_check(sym_outnum(o, "pcost") == n, "a figure is missing from an iteration line");
             sym_same(sym_outval(o, "pcost", n - 1), w->stats->fval, "the printed objective is not that of the iterate");
            sym_check(sym_outnum(o, "rx") == n, "a figure is missing from an iteration line");
             sym_same(sym_outval(o, "rx", n - 1), w->stats->n_rx, "the printed dual residual is not that of the iterate");
            sym_check(sym_outnum(o, "ry") == n, "a figure is missing from an iteration line");
             sym_same(sym_outval(o, "ry", n - 1), w->p ? w->stats->n_ry : 0.0, "the printed equality residual is not that of the iterate");
            sym_check(sym_outnum(o, "rz") == n, "a figure is missing from an iteration line");
             sym_same(sym_outval(o, "rz", n - 1), w->stats->n_rz, "the printed inequality residual is not that of the iterate");
            sym_check(sym_outnum(o, "mu") == n, "a figure is missing from an iteration line");
             sym_same(sym_outval(o, "mu", n - 1), w->stats->n_mu, "the printed complementarity gap is not that of the iterate");
        }
        n = sym_outnum(o, "PrimalStepSize");
        sym_check(n == st, "the number of step lines is not the number of steps");
        if (n) {
            sym_reach("step");
            sym_same(sym_outval(o, "PrimalStepSize", n - 1), w->stats->alpha_p, "the printed primal step size is not the one taken");
            sym_check(sym_outnum(o, "DualStepSize") == n, "a dual step size is not printed");
            sym_same(sym_outval(o, "DualStepSize", n - 1), w->stats->alpha_d, "the printed dual step size is not the one taken");
        }
        /* the outcome */
        int so = sym_outhas(o, "Optimal Solution Found"), sm = sym_outhas(o, "Maximum Iterations reached"), su = sym_outhas(o, "Unknown Error"), sk = sym_outhas(o, "Factorization fail");
        if (so) { sym_check(f == QP_OPTIMAL, "a solve that is not optimal is reported as optimal on the terminal"); sym_reach("optimal"); }
        if (sm) { sym_check(f == QP_MAXIT, "a solve is reported as out of iterations on the terminal although it is not"); sym_reach("maxit"); }
        if (su) sym_check(f == QP_FATAL, "a solve is reported as an unknown error on the terminal although it is not");
        if (sk) { sym_check(f == QP_KKTFAIL, "a solve is reported as a failed factorisation on the terminal although it is not"); sym_reach("failed"); }
        sym_check(so + sm + su + sk == 1, "not exactly one outcome is reported on the terminal");
        if (f != QP_KKTFAIL) sym_check(sym_outnum(o, "Iterations") == 1, "a closing figure is not printed once");
        if (sym_outnum(o, "Iterations")) sym_check(sym_outval(o, "Iterations", 0) == (double)w->stats->IterationCount, "the printed iteration count is not the recorded one");
        if (f != QP_KKTFAIL) sym_check(sym_outnum(o, "KKT_SolveTime") == 1, "a closing figure is not printed once");
        if (sym_outnum(o, "KKT_SolveTime")) sym_near(sym_outval(o, "KKT_SolveTime", 0), w->stats->kkt_time * 1000, 1e-9, "the printed KKT time is not the recorded one");
        if (f != QP_KKTFAIL) sym_check(sym_outnum(o, "LDLTime") == 1, "a closing figure is not printed once");
        if (sym_outnum(o, "LDLTime")) sym_near(sym_outval(o, "LDLTime", 0), w->stats->ldl_numeric * 1000, 1e-9, "the printed factorisation time is not the recorded one");
        if (f != QP_KKTFAIL) sym_check(sym_outnum(o, "SolveTime") == 1, "a closing figure is not printed once");
        if (sym_outnum(o, "SolveTime")) {
            double t = sym_outval(o, "SolveTime", 0);
double e = f == QP_OPTIMAL ? w->stats->tsolve + w->stats->tsetup : w->stats->tsolve;
            sym_near(t, e * 1000, 1e-9, "the printed solve time is not the recorded one");
        }
    }
    h_cleanup(w, entry);
    sym_reach("end");
    return 0;
}
