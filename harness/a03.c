#include "prob.h"
/* A03: memory safety and absence of leaks over the lifecycle (accesses are checked by the engine) */
int harness(void)
{
    prob *q = &h_pb;
    long k, entry = sym_param("entry", 0), K = sym_param("K", 1), two = sym_param("two", 0);
    sym_policy(0, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    long miss = sym_param("miss", 0) ? sym_choose("miss", 16) : 0;
    long pg = sym_param("p0", 0) && sym_choose("p0", 2) ? 0 : q->p;
    if (miss || !pg) q->Permut = 0;
    long mark = sym_heapmark();
    QP *w = h_setup_heap(q, entry, sym_param("centre", 0) ? 0.25 : 0.0, miss, pg);
    w->options->verbose = sym_param("verbose", 0);
    for (k = 0; k < K; k++) {
        w->options->maxit = sym_param("lim", 3);
        if (sym_param("anylim", 0)) w->options->maxit = sym_int(h_name1('m', k), -1, sym_param("lim", 3));
        if (sym_param("tol", 0)) { w->options->reltol = sym_real_w(h_name1('r', k), 1e-3); w->options->abstol = sym_real_w(h_name1('t', k), 1e-3); }
        QP_SOLVE(w);
        double t = w->stats->fval + w->stats->tsolve + w->stats->tsetup + w->stats->kkt_time + w->stats->ldl_numeric + w->stats->IterationCount + w->stats->Flag;
        sym_check(t == t || 1, "statistics");
        if (two) w->sigma_d = 0.5;
    }
    h_cleanup(w, entry);
    h_free_heap();
    sym_noleak(mark, "a block is not released by cleanup");
    sym_reach("end");
    return 0;
}
