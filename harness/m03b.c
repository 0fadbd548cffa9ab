#include "prob.h"
#include "Auxilary.h"
/* M03: assembly and refresh with arbitrary values, s, z */
int harness(void)
{
    prob *q = &h_pb;
    long i, j, k;
    double *s, *z, *ds, *dz, ap = sym_real("ap"), ad = sym_real("ad");
    smat P, A, G, At, Gt, K;
    h_problem(q);
    long n = q->n, m = q->m, p = q->p, N = n + m + p;
    s = NEWD(m); z = NEWD(m); ds = NEWD(m); dz = NEWD(m);
    SparseMatrixSetup(n, n, q->Pjc[n], h_exi(q->Pjc, n + 1), h_exi(q->Pir, q->Pjc[n]), h_exd(q->Ppr, q->Pjc[n]), &P);
    SparseMatrixSetup(p, n, q->Ajc[n], h_exi(q->Ajc, n + 1), h_exi(q->Air, q->Ajc[n]), h_exd(q->Apr, q->Ajc[n]), &A);
    SparseMatrixSetup(m, n, q->Gjc[n], h_exi(q->Gjc, n + 1), h_exi(q->Gir, q->Gjc[n]), h_exd(q->Gpr, q->Gjc[n]), &G);
    qp_int *atj = NEWI(p + 1), *ati = NEWI(A.nnz), *gtj = NEWI(m + 1), *gti = NEWI(G.nnz), *kj = NEWI(N + 1);
    double *atp = NEWD(A.nnz), *gtp = NEWD(G.nnz);
    SparseMatrixSetup(n, p, A.nnz, atj, ati, atp, &At);
    SparseMatrixSetup(n, m, G.nnz, gtj, gti, gtp, &Gt);
    if (p) SparseMatrixTranspose(&A, &At);
    SparseMatrixTranspose(&G, &Gt);
    long nz = P.nnz + 2 * A.nnz + 2 * G.nnz + m;
    qp_int *ki = malloc(nz * sizeof(*ki));
    double *kp = malloc(nz * sizeof(*kp)), *old = NEWD(nz);
    SparseMatrixSetup(N, N, nz, kj, ki, kp, &K);
    formkktmatrix_full(&P, &G, p ? &A : 0, &Gt, p ? &At : 0, &K);
    sym_check(kj[N] == nz, "entry count");
    for (int round = 0; round < 3; round++) {
        if (round) {
            for (i = 0; i < m; i++) {
                s[i] = sym_real_w(h_name1('s', i), 0.5 + i); sym_assume(s[i] > 0);
                z[i] = sym_real_w(h_name1('z', i), 1.5 + i); sym_assume(z[i] > 0);
                ds[i] = sym_real(h_nameb('d', 's', i)); dz[i] = sym_real(h_nameb('d', 'z', i));
            }
            for (k = 0; k < nz; k++) old[k] = kp[k];
            updatekktmatrix(&K, s, z, ds, dz, ap, ad, m, n, p, 0);
        }
        for (j = 0, k = 0; j < N; j++) for (; k < kj[j + 1]; k++) {
            i = ki[k];
            sym_check(i >= 0 && i < N, "row index");
            if (i == j && j >= n + p) {
                if (round) sym_eq(kp[k], -s[j - n - p] / z[j - n - p], "refreshed diagonal is not -s/z");
                else sym_same(kp[k], -1.0, "diagonal is not -1");
                continue;
            }
            if (round) { sym_same(kp[k], old[k], "the refresh changed another entry"); continue; }
            double v = 0; int has = 0;
            if (i < n && j < n) { v = q->P[i][j]; has = q->pP[i][j]; }
            else if (j < n && i < n + p) { v = q->A[i - n][j]; has = q->pA[i - n][j]; }
            else if (i < n && j < n + p) { v = q->A[j - n][i]; has = q->pA[j - n][i]; }
            else if (j < n) { v = q->G[i - n - p][j]; has = q->pG[i - n - p][j]; }
            else if (i < n) { v = q->G[j - n - p][i]; has = q->pG[j - n - p][i]; }
            sym_check(has, "an entry outside the pattern");
            sym_same(kp[k], v, "wrong value");
        }
    }
    free(ki); free(kp);
    h_endall();
    sym_reach("end");
    return 0;
}
