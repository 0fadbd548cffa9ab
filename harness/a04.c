#include "prob.h"
/* A04: absent equality constraints */
int harness(void)
{
    prob *q = &h_pb;
    long k, entry = sym_param("entry", 0), its = sym_param("its", 2);
    sym_policy(0, 0);
    h_problem(q);
    if (sym_param("vec", 0)) h_symvec(q);
    long kind = sym_choose("absent", entry == 0 ? 16 : 4), miss, pg;
    if (entry == 0) { miss = kind; } else miss = (kind & 1 ? 4 : 0) | (kind & 2 ? 8 : 0);
    pg = miss ? sym_choose("pgiven", 2) ? q->p : 0 : 0;
    QP *w = h_setup_heap(q, entry, 0.0, miss, pg);
    long p = q->p;
    q->p = 0;
    QP *v = h_setup(q, entry, 0.0);
    q->p = p;
    sym_check(w->p == 0, "the recorded equality count is not 0");
    h_sameres(w, v, "setup differs from the problem without equalities");
    h_samemat(w->kkt->kktmatrix, v->kkt->kktmatrix, "the KKT matrix differs from that of the problem without equalities");
    for (k = 0; k < w->n + w->m; k++) sym_check(w->kkt->P[k] == v->kkt->P[k], "the ordering differs");
    w->options->maxit = v->options->maxit = its;
    if (sym_param("opt", 0)) {
        double rt = sym_real_w("reltol", 1e-4), at = sym_real_w("abstol", 1e-4);
        w->options->reltol = v->options->reltol = rt;
        w->options->abstol = v->options->abstol = at;
    }
    w->options->verbose = v->options->verbose = sym_param("verbose", 0);
    for (k = 0; k < sym_param("solves", 1); k++) {
        long f = QP_SOLVE(w), g = QP_SOLVE(v);
        sym_check(f == g, "the status differs from the problem without equalities");
        h_sameres(w, v, "a solve differs from the problem without equalities");
        sym_check(w->p == 0, "the recorded equality count is not 0");
    }
    h_cleanup(w, entry);
    h_cleanup(v, entry);
    h_free_heap();
    sym_reach("end");
    return 0;
}
