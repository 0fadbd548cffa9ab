#include "prob.h"
#include "Auxilary.h"
/* M03: the upper-triangle assembly without equalities, and that factorisation reads nothing else */
int harness(void)
{
    prob *q = &h_pb;
    long i, j, k;
    smat P, G, Gt, K;
    h_problem(q);
    long n = q->n, m = q->m, N = n + m, up = 0;
    SparseMatrixSetup(n, n, q->Pjc[n], q->Pjc, q->Pir, q->Ppr, &P);
    SparseMatrixSetup(m, n, q->Gjc[n], q->Gjc, q->Gir, q->Gpr, &G);
    qp_int *gtj = NEWI(m + 1), *gti = NEWI(G.nnz), *kj = malloc((N + 1) * sizeof(*kj));
    double *gtp = NEWD(G.nnz);
    SparseMatrixSetup(n, m, G.nnz, gtj, gti, gtp, &Gt);
    SparseMatrixTranspose(&G, &Gt);
    for (j = 0; j < n; j++) for (i = 0; i <= j; i++) up += q->pP[i][j];
    long nz = up + G.nnz + m;
    qp_int *ki = malloc(nz * sizeof(*ki));
    double *kp = malloc(nz * sizeof(*kp));
    SparseMatrixSetup(N, N, nz, kj, ki, kp, &K);
    sym_protect(q->Ppr, P.nnz * sizeof(double)); sym_protect(q->Gpr, G.nnz * sizeof(double));
    formkktmatrix_U(&P, &G, &Gt, &K);
    sym_verify_protected("an input of the upper assembly was modified");
    sym_check(kj[0] == 0 && kj[N] == nz, "entry count of the upper triangle");
    for (j = 0, k = 0; j < N; j++) {
        static int has[3 * MX]; static double col[3 * MX];
        for (i = 0; i < N; i++) { has[i] = 0; col[i] = 0; }
        if (j < n) { for (i = 0; i <= j; i++) if (q->pP[i][j]) { has[i] = 1; col[i] = q->P[i][j]; } }
        else { for (i = 0; i < n; i++) if (q->pG[j - n][i]) { has[i] = 1; col[i] = q->G[j - n][i]; } has[j] = 1; col[j] = -1; }
        for (; k < kj[j + 1]; k++) {
            i = ki[k];
            sym_check(i >= 0 && i <= j, "an entry below the diagonal of the upper triangle");
            sym_check(has[i] == 1, "an entry of the upper triangle that is not in [P G'; . -I], or twice");
            has[i] = 2;
            sym_same(kp[k], col[i], "wrong value in the upper triangle");
        }
        for (i = 0; i < N; i++) sym_check(has[i] != 1, "an entry of the upper triangle is missing");
    }
    free(ki); free(kp); free(kj);
    h_endall();
    sym_reach("end");
    return 0;
}
