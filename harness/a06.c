#include "prob.h"
/* A06: instances are independent, results deterministic, no global state */
static prob h_pa;
static double h_R[4][4 * MX + 4];
static void h_another(prob *q, long k)
{
    long i, j;
    q->n = 2; q->m = 3; q->p = k ? 0 : 1;
    for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) { q->pP[i][j] = i == j || k; q->P[i][j] = i == j ? 3.0 : q->pP[i][j] ? 0.5 : 0.0; }
    for (j = 0; j < 2; j++) { q->pA[0][j] = q->p; q->A[0][j] = q->p ? 1.0 : 0.0; }
    for (i = 0; i < 3; i++) for (j = 0; j < 2; j++) { q->pG[i][j] = (i + j) % 3 != 1; q->G[i][j] = q->pG[i][j] ? h_const(k + 7, i, j) : 0.0; }
    for (i = 0; i < 2; i++) q->c[i] = h_const(k, i, 4);
    for (i = 0; i < 3; i++) q->h[i] = 2 + i;
    q->b[0] = 0.5;
    h_ccs(2, 2, q->pP, q->P, q->Pjc, q->Pir, q->Ppr);
    h_ccs(q->p, 2, q->pA, q->A, q->Ajc, q->Air, q->Apr);
    h_ccs(3, 2, q->pG, q->G, q->Gjc, q->Gir, q->Gpr);
    q->Permut = 0;
}
/* one step of the other instance */
static QP *h_o; static long h_oe, h_ost;
static void h_step(void)
{
    if (h_ost == 0) { h_o = h_setup(&h_pa, h_oe, 0.0); h_o->options->maxit = 2; h_o->options->verbose = 1; }
    else if (h_ost == 1 || h_ost == 2) { if (h_ost == 2) h_o->options->reltol = 0.5; QP_SOLVE(h_o); }
    else h_cleanup(h_o, h_oe);
    h_ost = (h_ost + 1) % 4;
}
static void h_steps(long slot)
{
    long k = sym_choose(h_name1('k', slot), sym_param("max", 3) + 1);
    while (k-- > 0) h_step();
}
int harness(void)
{
    prob *q = &h_pb;
    long k, entry = sym_param("entry", 0), K = sym_param("K", 2), i;
    sym_policy(0, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    if (sym_param("vec", 0)) h_symvec(q);
    h_another(&h_pa, sym_param("other", 0));
    h_oe = sym_param("oentry", 0);
    double sd = sym_param("centre", 0) ? 0.25 : 0.0, rt = 1e-6, at = 1e-6;
    long mi = sym_param("its", 3);
    if (sym_param("opt", 0)) { rt = sym_real_w("reltol", 1e-2); at = sym_real_w("abstol", 1e-2); }

    sym_globals_mark();
    sym_globals_readonly(1);        /* not even for the duration of a call: instances in different threads share nothing */
    /* alone */
    QP *a = h_setup(q, entry, sd);
    for (k = 0; k <= K; k++) {
        long t = 0;
        if (k) { a->options->maxit = mi; a->options->reltol = rt; a->options->abstol = at; QP_SOLVE(a); }
        for (i = 0; i < q->n; i++) h_R[k][t++] = a->x[i];
        for (i = 0; i < q->p; i++) h_R[k][t++] = a->y[i];
        for (i = 0; i < q->m; i++) { h_R[k][t++] = a->z[i]; h_R[k][t++] = a->s[i]; }
        h_R[k][t++] = a->stats->fval; h_R[k][t++] = a->stats->Flag; h_R[k][t++] = a->stats->IterationCount;
    }
    h_cleanup(a, entry);
    /* with another instance being set up, solved and cleaned up in between */
    h_steps(0);
    QP *b = h_setup(q, entry, sd);
    for (k = 0; k <= K; k++) {
        long t = 0;
        h_steps(k + 1);
        if (k) { b->options->maxit = mi; b->options->reltol = rt; b->options->abstol = at; QP_SOLVE(b); }
        for (i = 0; i < q->n; i++) sym_same(h_R[k][t++], b->x[i], "another instance changes x");
        for (i = 0; i < q->p; i++) sym_same(h_R[k][t++], b->y[i], "another instance changes y");
        for (i = 0; i < q->m; i++) { sym_same(h_R[k][t++], b->z[i], "another instance changes z"); sym_same(h_R[k][t++], b->s[i], "another instance changes s"); }
        sym_same(h_R[k][t++], b->stats->fval, "another instance changes the objective");
        sym_check(h_R[k][t++] == b->stats->Flag, "another instance changes the status");
        sym_check(h_R[k][t++] == b->stats->IterationCount, "another instance changes the iteration count");
    }
    h_cleanup(b, entry);
    while (h_ost) h_step();
    sym_globals_readonly(0);
    sym_globals_check("the library writes global state");
    sym_reach("end");
    return 0;
}
