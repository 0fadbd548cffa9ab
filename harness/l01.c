#include "prob.h"
#include "ldl.h"
/* L01: LDL' = PKP' and the solves return K\b. pivots not tiny (branch fixed by the witness) */
int harness(void)
{
    long n = sym_param("n", 3), i, j, k, t, up = sym_param("upper", 0), symv = sym_param("symv", 1), pk = sym_param("perm", -1), dup = sym_param("dup", 0);
    long mask = sym_param("mask", -2), sb = sym_param("sb", 1);
    static int pat[MX][MX];
    static double K[MX][MX];
    qp_int *Ap = malloc((n + 1) * sizeof(*Ap)), *Ai, *P = NEWI(n), *Pinv = malloc(n * sizeof(*Pinv));
    double *Ax;
    sym_policy(0, 0);
    for (i = 0, k = 0; i < n; i++) for (j = i; j < n; j++, k++) {
        pat[i][j] = pat[j][i] = (i == j) ? 1 : h_bit(mask, 'p', i, j, k);
        K[i][j] = K[j][i] = pat[i][j] ? h_val(symv, 'K', i, j, i == j ? (i % 2 ? -3.0 - 0.5 * i : 4.0 + i) : h_const(1, i, j)) : 0.0;
    }
    long qd = sym_param("quasi", 0);     /* quasidefinite by assumption: no pivot is tiny, so no branch needs to be fixed */
    if (qd) for (i = 0; i < n; i++) sym_assume(i < qd ? K[i][i] >= 1 : K[i][i] <= -1);
    int hasP = 1;
    if (pk == -1) h_anyperm(P, n);
    else if (pk == 0) hasP = 0;
    else for (i = 0; i < n; i++) P[i] = pk == 1 ? n - 1 - i : (i + 1) % n;
    long nz = 0;
    /* column form: full symmetric or only the part the factorisation reads; unsorted columns; split duplicates */
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (pat[i][j] && !(up && !hasP && i > j)) nz += 1 + (dup && i == j);
    Ai = malloc(nz * sizeof(*Ai)); Ax = malloc(nz * sizeof(*Ax));
    for (j = 0, k = 0; j < n; j++) {
        Ap[j] = k;
        for (i = n - 1; i >= 0; i--) if (pat[i][j]) {
            if (up && !hasP && i > j) continue;
            Ai[k] = i; Ax[k] = K[i][j]; k++;
            if (dup && i == j) { Ax[k - 1] -= 1.0; Ai[k] = i; Ax[k] = 1.0; k++; }
        }
    }
    Ap[n] = k;
    qp_int *Lp = malloc((n + 1) * sizeof(*Lp)), *Par = malloc(n * sizeof(*Par)), *Lnz = malloc(n * sizeof(*Lnz)), *Fl = malloc(n * sizeof(*Fl)), *Li, *Pt = malloc(n * sizeof(*Pt));
    double *Lx, *D = malloc(n * sizeof(*D)), *Y = malloc(n * sizeof(*Y));
    LDL_symbolic(n, Ap, Ai, Lp, Par, Lnz, Fl, hasP ? P : 0, hasP ? Pinv : 0);
    Li = malloc(Lp[n] * sizeof(*Li)); Lx = malloc(Lp[n] * sizeof(*Lx));
    sym_protect(Ax, k * sizeof(*Ax)); sym_protect(Ai, k * sizeof(*Ai)); sym_protect(Ap, (n + 1) * sizeof(*Ap)); sym_protect(P, n * sizeof(*P));
    for (int round = 0; round < 2; round++) {   /* the second numeric factorisation reuses the analysis and workspaces */
        long d = LDL_numeric(n, Ap, Ai, Ax, Lp, Par, Lnz, Li, Lx, D, Y, Pt, Fl, hasP ? P : 0, hasP ? Pinv : 0);
        sym_check(d == n, "the factorisation did not complete");
    }
    sym_verify_protected("an input of the factorisation was modified");
    static double L[MX][MX];
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) L[i][j] = i == j;
    for (j = 0; j < n; j++) for (t = Lp[j]; t < Lp[j + 1]; t++) {
        sym_check(Li[t] > j && Li[t] < n, "L is not strictly lower triangular");
        L[Li[t]][j] = Lx[t];
    }
    for (i = 0; i < n; i++) for (j = 0; j <= i; j++) {
        double s = 0;
        for (t = 0; t <= j; t++) s += L[i][t] * D[t] * L[j][t];
        sym_eq(s, K[hasP ? P[i] : i][hasP ? P[j] : j], "L D L' differs from the permuted matrix");
    }
    if (sym_param("solve", 1)) {
        double *B = NEWD(n), *X = NEWD(n), *R = NEWD(n);
        for (i = 0; i < n; i++) B[i] = sb ? sym_real(h_name1('b', i)) : h_const(3, i, i);
        if (hasP) LDL_perm(n, X, B, P); else for (i = 0; i < n; i++) X[i] = B[i];
        LDL_lsolve(n, X, Lp, Li, Lx);
        LDL_dsolve(n, X, D);
        LDL_ltsolve(n, X, Lp, Li, Lx);
        if (hasP) LDL_permt(n, R, X, P); else for (i = 0; i < n; i++) R[i] = X[i];
        for (i = 0; i < n; i++) {
            double s = 0;
            for (j = 0; j < n; j++) if (pat[i][j]) s += K[i][j] * R[j];
            sym_eq(s, B[i], "the solves do not return the solution of Kx = b");
        }
    }
    free(Ap); free(Ai); free(Ax); free(Pinv); free(Lp); free(Par); free(Lnz); free(Fl); free(Li); free(Pt); free(Lx); free(D); free(Y);
    h_endall();
    sym_reach("end");
    return 0;
}
