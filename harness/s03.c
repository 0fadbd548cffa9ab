#include "prob.h"
/* S03: one iteration from arbitrary s, z > 0 keeps them strictly positive */
int harness(void)
{
    prob *q = &h_pb;
    long i, entry = sym_param("entry", 0), mode = sym_param("mode", 0);
    sym_policy(1, 0);
    if (mode == 1) {        /* setup with arbitrary vectors */
        long sv = 1;
        (void)sv;
        h_problem(q);
        h_symvec(q);
        for (i = 0; i < q->n; i++) sym_assume(q->c[i] < 1e9 & q->c[i] > -1e9);
        for (i = 0; i < q->m; i++) sym_assume(q->h[i] < 1e9 & q->h[i] > -1e9);
        for (i = 0; i < q->p; i++) sym_assume(q->b[i] < 1e9 & q->b[i] > -1e9);
        sym_policy(0, 0);
        QP *w = h_setup(q, entry, 0.0);
        for (i = 0; i < q->m; i++) sym_check(w->s[i] > 0, "a slack is not positive after setup");
        for (i = 0; i < q->m; i++) sym_check(w->z[i] > 0, "a multiplier is not positive after setup");
        sym_reach("end");
        return 0;
    }
    h_problem(q);
    QP *w = h_setup(q, entry, 0.0);
    sym_policy(0, 0);
    if (sym_param("vec", 1)) h_symvec(q);
    h_symiter(q, w, (int)sym_param("sx", 1));
    w->options->reltol = 0;
    w->options->abstol = 0;
    w->options->maxit = 1;
    if (sym_param("centre", 0)) { w->sigma_d = 0.25; w->options->sigma = 0.25; }
    sym_policy(sym_param("follow", 0), 1);
    QP_SOLVE(w);
    sym_policy(0, 0);
    for (i = 0; i < q->m; i++) sym_check(w->s[i] > 0, "a slack is not positive after an iteration");
    for (i = 0; i < q->m; i++) sym_check(w->z[i] > 0, "a multiplier is not positive after an iteration");
    sym_check((w->stats->alpha_p > 0) & (w->stats->alpha_p <= 1), "primal step outside (0,1]");
    sym_check((w->stats->alpha_d > 0) & (w->stats->alpha_d <= 1), "dual step outside (0,1]");
    sym_reach("end");
    return 0;
}
