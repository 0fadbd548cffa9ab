#include "prob.h"
/* A01: the three entry points give the same problem */
int harness(void)
{
    prob *q = &h_pb;
    long i, e, k, sv = sym_param("vec", 0), its = sym_param("its", 2);
    QP *w[3];
    sym_policy(0, 0);
    h_problem(q);
    if (sv) h_symvec(q);
    h_perm(q, sym_param("perm", 0));
    for (e = 0; e < 3; e++) w[e] = h_setup(q, e, 0.0);
    for (e = 1; e < 3; e++) {
        h_samemat(w[0]->P, w[e]->P, "P differs between the entry points");
        h_samemat(w[0]->G, w[e]->G, "G differs between the entry points");
        h_samemat(w[0]->kkt->kktmatrix, w[e]->kkt->kktmatrix, "the KKT matrix differs between the entry points");
        sym_check((w[0]->A != 0) == (w[e]->A != 0), "A is present in one entry point only");
        if (w[0]->A) h_samemat(w[0]->A, w[e]->A, "A differs between the entry points");
        for (i = 0; i < q->n + q->m + w[0]->p; i++) sym_check(w[0]->kkt->P[i] == w[e]->kkt->P[i], "the ordering differs between the entry points");
        sym_check(w[0]->stats->AMD_RESULT == w[e]->stats->AMD_RESULT, "the ordering status differs between the entry points");
        h_sameres(w[0], w[e], "the setup state differs between the entry points");
        sym_same(w[0]->options->reltol, w[e]->options->reltol, "an option differs between the entry points");
        sym_same(w[0]->options->abstol, w[e]->options->abstol, "an option differs between the entry points");
        sym_same(w[0]->options->sigma, w[e]->options->sigma, "an option differs between the entry points");
        sym_same(w[0]->sigma_d, w[e]->sigma_d, "sigma_d differs between the entry points");
        sym_check(w[0]->options->maxit == w[e]->options->maxit && w[0]->options->verbose == w[e]->options->verbose, "an option differs between the entry points");
    }
    if (its && sym_param("opt", 0)) {     /* any option values, the same for the three */
        double rt = sym_real_w("reltol", 1e-4), at = sym_real_w("abstol", 1e-4);
        long mi = sym_int("maxit", 0, its);
        sym_assume((rt > 0) & (rt < 10)); sym_assume((at > 0) & (at < 10));
        for (e = 0; e < 3; e++) { w[e]->options->reltol = rt; w[e]->options->abstol = at; w[e]->options->maxit = mi; }
    } else for (e = 0; e < 3; e++) w[e]->options->maxit = its;
    for (k = 0; k < sym_param("solves", 2) && its; k++) {
        long f[3];
        for (e = 0; e < 3; e++) f[e] = QP_SOLVE(w[e]);
        for (e = 1; e < 3; e++) {
            sym_check(f[0] == f[e], "the status differs between the entry points");
            h_sameres(w[0], w[e], "the results of a solve differ between the entry points");
        }
    }
    for (e = 0; e < 3; e++) h_cleanup(w[e], e);
    sym_reach("end");
    return 0;
}
