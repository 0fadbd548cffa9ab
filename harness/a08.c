#include "prob.h"
/* A08: defaults and the state right after setup */
int harness(void)
{
    prob *q = &h_pb;
    long i, entry = sym_param("entry", 0);
    sym_policy(0, 0);
    h_problem(q);
    if (sym_param("anyp", 0)) { long g = sym_choose("hasperm", 2); if (g) h_perm(q, 1); }
    if (sym_param("vec", 0)) h_symvec(q);
    if (sym_param("big", 0)) for (i = 0; i < q->n; i++) q->c[i] *= 1e3;
    double sd = entry == 0 ? sym_real_w("sigma_d", 0.25) : 0.0;
    long miss = sym_param("miss", 0) ? sym_choose("miss", 16) : 0;
    if (sym_param("twice", 0)) {    /* a previous instance whose options were changed has no influence */
        QP *u = h_setup_heap(q, entry, 0.5, 0, q->p);
        u->options->maxit = 3; u->options->reltol = 0.5; u->options->abstol = 0.25; u->options->sigma = 7; u->options->verbose = 1; u->sigma_d = 0.125;
        QP_SOLVE(u);
        h_cleanup(u, entry);
        h_free_heap();
    }
    QP *w = h_setup_heap(q, entry, sd, miss, q->p);
    sym_check(w->options->maxit == 100, "the default iteration limit is not 100");
    sym_check(w->options->reltol == 1e-6, "the default relative tolerance is not 1e-6");
    sym_check(w->options->abstol == 1e-6, "the default absolute tolerance is not 1e-6");
    sym_check(w->options->sigma == 100.0, "the default sigma is not 100");
    sym_check(w->options->verbose == 0, "the default verbosity is not 0");
    sym_check(w->stats->IterationCount == 0, "the iteration count is not 0 after setup");
    sym_check(w->stats->Flag != QP_OPTIMAL, "setup reports an optimal solution");
    sym_check(w->n == q->n && w->m == q->m, "the recorded dimensions are not those given");
    sym_check(w->p == (miss && !(entry && !(miss & 12)) ? 0 : q->p), "the recorded equality count is wrong");
    sym_same(w->sigma_d, sd, "the centring parameter is not the one supplied");
    sym_check(w->options != 0 && w->stats != 0, "no options");
    for (i = 0; i < w->n; i++) sym_check(w->c[i] == q->c[i], "c is not the one supplied");
    for (i = 0; i < w->m; i++) sym_check(w->h[i] == q->h[i], "h is not the one supplied");
    for (i = 0; i < w->p; i++) sym_check(w->b[i] == q->b[i], "b is not the one supplied");
    h_cleanup(w, entry);
    h_free_heap();
    sym_reach("end");
    return 0;
}
