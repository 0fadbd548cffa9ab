#include "prob.h"
/* M03: the KKT matrix for every pattern, after setup and after an iteration */
static void h_checkkkt(prob *q, QP *w, double *s, double *z)
{
    long n = q->n, m = q->m, p = w->p, N = n + m + p, i, j, k = 0, t;
    smat *K = w->kkt->kktmatrix;
    sym_check(K->m == N && K->n == N, "wrong KKT dimensions");
    sym_check(K->jc[0] == 0, "first pointer not 0");
    for (j = 0; j < N; j++) {
        double col[3 * MX]; int has[3 * MX];
        for (i = 0; i < N; i++) { col[i] = 0; has[i] = 0; }
        if (j < n) {
            for (i = 0; i < n; i++) if (q->pP[i][j]) { col[i] = q->P[i][j]; has[i] = 1; }
            for (i = 0; i < p; i++) if (q->pA[i][j]) { col[n + i] = q->A[i][j]; has[n + i] = 1; }
            for (i = 0; i < m; i++) if (q->pG[i][j]) { col[n + p + i] = q->G[i][j]; has[n + p + i] = 1; }
        } else if (j < n + p) {
            for (i = 0; i < n; i++) if (q->pA[j - n][i]) { col[i] = q->A[j - n][i]; has[i] = 1; }
        } else {
            t = j - n - p;
            for (i = 0; i < n; i++) if (q->pG[t][i]) { col[i] = q->G[t][i]; has[i] = 1; }
            col[j] = s ? -s[t] / z[t] : -1.0; has[j] = 1;
        }
        for (; k < K->jc[j + 1]; k++) {
            i = K->ir[k];
            sym_check(i >= 0 && i < N, "row index out of range");
            sym_check(has[i] == 1, "an entry that is not in [P A' G'; A 0 0; G 0 -I], or twice");
            has[i] = 2;
            if (s && j >= n + p && i == j) sym_near(K->pr[k], col[i], 1e-12 * (1 - col[i]), "wrong refreshed diagonal");
            else sym_same(K->pr[k], col[i], "wrong KKT value");
        }
        for (i = 0; i < N; i++) sym_check(has[i] != 1, "a KKT entry is missing");
    }
    sym_check(K->jc[N] == K->nnz, "the entry count differs from the predicted one");
}
int harness(void)
{
    prob *q = &h_pb;
    long i, entry = sym_param("entry", 0), full = sym_param("it", 1);
    double s0[MX], z0[MX];
    sym_policy(0, 0);
    h_problem(q);
    if (sym_param("noA", 0)) q->b[0] = 0.25;
    h_perm(q, sym_param("perm", 3));
    QP *w = h_setup(q, entry, 0.0);
    h_checkkkt(q, w, 0, 0);
    if (full) {
        if (sym_param("centre", 0)) { w->sigma_d = 0.25; w->options->sigma = 0.25; }
        w->options->maxit = 1; w->options->reltol = w->options->abstol = 0;
        for (i = 0; i < q->m; i++) { w->s[i] = s0[i] = 0.5 + i; w->z[i] = z0[i] = 2.0 - 0.25 * i; }
        QP_SOLVE(w);
        h_checkkkt(q, w, s0, z0);
        for (i = 0; i < q->m; i++) { w->s[i] = s0[i] = 3.5 - i; w->z[i] = z0[i] = 1.0 + 0.25 * i; }
        QP_SOLVE(w);
        h_checkkkt(q, w, s0, z0);
    }
    h_cleanup(w, entry);
    sym_reach("end");
    return 0;
}
