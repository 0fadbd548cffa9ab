#include "prob.h"
/* A05: verbosity changes only what is printed */
int harness(void)
{
    prob *q = &h_pb;
    long k, entry = sym_param("entry", 0), K = sym_param("K", 2), lim = sym_param("lim", 3);
    sym_policy(0, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    if (sym_param("vec", 0)) h_symvec(q);
    double sd = sym_param("centre", 0) ? 0.25 : 0.0;
    long o0 = sym_outcount();
    QP *w = h_setup(q, entry, sd), *v = h_setup(q, entry, sd);
    if (sd > 0) w->sigma_d = v->sigma_d = sd;
    h_sameres(w, v, "two setups of the same problem differ");
    sym_check(sym_outcount() == o0, "setup prints");
    if (sym_param("dflt", 0)) sym_check(w->options->verbose == 0, "the default verbosity is not 0");
    for (k = 0; k < K; k++) {
        long mi = sym_int(h_name1('m', k), 0, lim), o1 = sym_outcount();
        w->options->maxit = v->options->maxit = mi;
        if (sym_param("tol", 0)) {
            double rt = sym_real_w(h_name1('r', k), 1e-2), at = sym_real_w(h_name1('t', k), 1e-2);
            w->options->reltol = v->options->reltol = rt;
            w->options->abstol = v->options->abstol = at;
        }
        v->options->verbose = sym_int(h_name1('v', k), 1, 2147483647);
        if (sym_param("fail", 0) && k == K - 1) w->stats->Flag = v->stats->Flag = QP_KKTFAIL;
        if (sym_param("iter", 0) && k == 0) {
            long i;
            h_symiter(q, w, 1);
            for (i = 0; i < q->n; i++) v->x[i] = w->x[i];
            for (i = 0; i < q->p; i++) v->y[i] = w->y[i];
            for (i = 0; i < q->m; i++) { v->s[i] = w->s[i]; v->z[i] = w->z[i]; }
        }
        QP_SOLVE(w);
        sym_check(sym_outcount() == o1, "a solve prints at verbosity 0");
        QP_SOLVE(v);
        if (sym_param("dflt", 0)) sym_check(w->options->verbose == 0, "a solve changes the verbosity");
        h_sameres(w, v, "a verbose solve gives other results than a silent one");
        sym_same(w->stats->alpha_p, v->stats->alpha_p, "a verbose solve takes another primal step size");
        sym_same(w->stats->alpha_d, v->stats->alpha_d, "a verbose solve takes another dual step size");
        sym_same(w->options->sigma, v->options->sigma, "a verbose solve leaves another centring parameter");
        if (w->stats->Flag == QP_OPTIMAL) sym_reach("optimal");
        if (w->stats->Flag == QP_MAXIT) sym_reach("maxit");
    }
    o0 = sym_outcount();
    h_cleanup(w, entry);
    sym_check(sym_outcount() == o0, "cleanup prints");
    h_cleanup(v, entry);
    sym_reach("end");
    return 0;
}
