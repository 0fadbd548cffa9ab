#include "prob.h"
#include "amd.h"
/* A07: a user permutation is honoured and does not change the answer */
static long h_amd;
int __real_amd_l_order(long n, const long *Ap, const long *Ai, long *P, double *Control, double *Info);
int __wrap_amd_l_order(long n, const long *Ap, const long *Ai, long *P, double *Control, double *Info)
{
    h_amd++;
    return __real_amd_l_order(n, Ap, Ai, P, Control, Info);
}
static int h_regularised(QP *w)
{
    long i, N = w->n + w->m + w->p;
    for (i = 0; i < N; i++) if (fabs(w->kkt->D[i]) < 1e-5) return 1;
    return 0;
}
static void h_close(QP *a, QP *b, double tol, const char *msg)
{
    long i;
    for (i = 0; i < a->n; i++) sym_near(a->x[i], b->x[i], tol * (1 + fabs(b->x[i])), msg);
    for (i = 0; i < a->p; i++) sym_near(a->y[i], b->y[i], tol * (1 + fabs(b->y[i])), msg);
    for (i = 0; i < a->m; i++) { sym_near(a->z[i], b->z[i], tol * (1 + fabs(b->z[i])), msg); sym_near(a->s[i], b->s[i], tol * (1 + fabs(b->s[i])), msg); }
}
static void h_exact(QP *a, QP *b, const char *msg)
{
    long i;
    for (i = 0; i < a->n; i++) sym_eq(a->x[i], b->x[i], msg);
    for (i = 0; i < a->p; i++) sym_eq(a->y[i], b->y[i], msg);
    for (i = 0; i < a->m; i++) { sym_eq(a->z[i], b->z[i], msg); sym_eq(a->s[i], b->s[i], msg); }
}
int harness(void)
{
    prob *q = &h_pb;
    long i, k, N, entry = sym_param("entry", 0), mode = sym_param("mode", 0), K = sym_param("K", 2), its = sym_param("its", 1);
    double sd = sym_param("centre", 0) ? 0.25 : 0.0;
    static qp_int keep[3 * MX];
    sym_policy(0, 0);
    h_problem(q);
    N = q->n + q->m + q->p;
    if (mode == 1) h_symvec(q);
    if (mode == 2) for (i = 0; i < q->n; i++) q->c[i] = sym_real(h_name1('c', i));
    QP *v = h_setup(q, entry, sd);
    sym_check(h_amd == 1, "the automatic ordering did not run exactly once");
    sym_check(v->stats->AMD_RESULT != -3, "an automatic ordering is reported as user-defined");
    h_perm(q, sym_param("perm", -1));
    for (i = 0; i < N; i++) keep[i] = q->perm[i];
    h_amd = 0;
    QP *w = h_setup(q, entry, sd);
    sym_check(h_amd == 0, "the ordering routine ran although a permutation was given");
    sym_check(w->stats->AMD_RESULT == -3, "a user permutation is not reported");
    for (i = 0; i < N; i++) sym_check(w->kkt->P[i] == keep[i], "the permutation used is not the one given");
    for (i = 0; i < N; i++) sym_check(w->kkt->Pinv[w->kkt->P[i]] == i, "the factorisation does not use the permutation given");
    for (i = 0; i < N; i++) sym_check(q->perm[i] == keep[i], "the permutation given was changed");
    if (mode == 0) {
        int reg = h_regularised(v) || h_regularised(w);
        if (!reg) { sym_reach("compared"); h_close(w, v, 1e-7, "the start differs from that of the automatic ordering"); }
        for (k = 0; k < K; k++) {
            v->options->maxit = w->options->maxit = its;
            v->options->reltol = w->options->reltol = v->options->abstol = w->options->abstol = 0;
            if (sd > 0) v->sigma_d = w->sigma_d = v->options->sigma = w->options->sigma = sd;
            QP_SOLVE(v); QP_SOLVE(w);
            reg |= h_regularised(v) || h_regularised(w);
            if (!reg) h_close(w, v, 1e-6, "an iteration differs from that of the automatic ordering");
            sym_check(w->stats->AMD_RESULT == -3 && h_amd == 0, "the ordering routine ran although a permutation was given");
            for (i = 0; i < N; i++) sym_check(w->kkt->P[i] == keep[i], "the permutation used is not the one given");
        }
    } else if (mode == 1) {
        if (!h_regularised(v) && !h_regularised(w)) { sym_reach("compared"); h_exact(w, v, "the start differs from that of the automatic ordering"); }
    } else {
        for (i = 0; i < q->m; i++) { v->s[i] = w->s[i] = 0.25 * (i + 1); v->z[i] = w->z[i] = 1.0 * (i + 1); }
        for (i = 0; i < q->n; i++) v->x[i] = w->x[i] = 0.5 * i;
        for (i = 0; i < q->p; i++) v->y[i] = w->y[i] = 0.5;
        v->options->maxit = w->options->maxit = 1;
        v->options->reltol = w->options->reltol = v->options->abstol = w->options->abstol = 0;
        if (sd > 0) v->sigma_d = w->sigma_d = v->options->sigma = w->options->sigma = sd;
        QP_SOLVE(v); QP_SOLVE(w);
        if (!h_regularised(v) && !h_regularised(w)) { sym_reach("compared"); h_exact(w, v, "an iteration differs from that of the automatic ordering"); }
    }
    h_cleanup(v, entry);
    for (i = 0; i < N; i++) sym_check(q->perm[i] == keep[i], "the permutation given was changed");
    h_cleanup(w, entry);
    sym_reach("end");
    return 0;
}
