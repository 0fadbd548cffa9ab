#include "prob.h"
#include "ldl.h"
/* L02: symbolic analysis against a dense reference, every pattern and permutation */
int harness(void)
{
    long n = sym_param("n", 3), i, j, k, t, pk = sym_param("perm", -1), diag = sym_param("diag", 0), lim = sym_param("lim", -1);
    static int pat[MX][MX], F[MX][MX];
    qp_int *Ap = malloc((n + 1) * sizeof(*Ap)), *Ai, *P = malloc(n * sizeof(*P)), *Pinv = malloc(n * sizeof(*Pinv));
    double *Ax;
    long zero = (long)sym_choose("zeros", 4);     /* some entries are stored zeros */
    for (i = 0, k = 0; i < n; i++) for (j = i; j < n; j++)
        pat[i][j] = pat[j][i] = (i == j && !diag) ? 1 : h_bit(k++ < sym_param("free", 1000) ? -1 : sym_param("mask", -3), 'p', i, j, 0);
    int hasP = 1, mode = (int)sym_choose("store", 2);
    if (pk == -1) h_anyperm(P, n);
    else if (pk == 0) { hasP = 0; for (i = 0; i < n; i++) P[i] = i; }
    else for (i = 0; i < n; i++) P[i] = pk == 1 ? n - 1 - i : (i + 1) % n;
    (void)lim;
    long nz = 0;
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) nz += pat[i][j];
    Ai = malloc(nz * sizeof(*Ai)); Ax = malloc(nz * sizeof(*Ax));
    for (j = 0, k = 0; j < n; j++) {
        Ap[j] = k;
        for (i = 0; i < n; i++) { long r = mode ? n - 1 - i : i; if (pat[r][j]) { Ai[k] = r; Ax[k] = r == j ? 8.0 + j : (r + j) % 3 == zero ? 0.0 : 1.0 + 0.25 * (r + j); k++; } }
    }
    Ap[n] = k;
    qp_int *Lp = malloc((n + 1) * sizeof(*Lp)), *Par = malloc(n * sizeof(*Par)), *Lnz = malloc(n * sizeof(*Lnz)), *Fl = malloc(n * sizeof(*Fl)), *Li, *Pt = malloc(n * sizeof(*Pt));
    double *Lx, *D = malloc(n * sizeof(*D)), *Y = malloc(n * sizeof(*Y));
    sym_protect(Ai, nz * sizeof(*Ai)); sym_protect(Ap, (n + 1) * sizeof(*Ap)); sym_protect(P, n * sizeof(*P));
    LDL_symbolic(n, Ap, Ai, Lp, Par, Lnz, Fl, hasP ? P : 0, hasP ? Pinv : 0);
    /* dense symbolic elimination of the permuted pattern */
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) F[i][j] = pat[P[i]][P[j]];
    for (k = 0; k < n; k++) for (i = k + 1; i < n; i++) if (F[i][k]) for (j = k + 1; j < n; j++) if (F[j][k]) F[i][j] = F[j][i] = 1;
    if (hasP) for (i = 0; i < n; i++) sym_check(Pinv[P[i]] == i, "Pinv does not invert P");
    sym_check(Lp[0] == 0, "first pointer not 0");
    for (j = 0; j < n; j++) {
        long cnt = 0, par = -1;
        for (i = n - 1; i > j; i--) if (F[i][j]) { cnt++; par = i; }
        sym_check(Par[j] == par, "Parent is not the first off-diagonal row of the column");
        sym_check(Lnz[j] == cnt, "column count differs from the fill of the factor");
        sym_check(Lp[j + 1] == Lp[j] + cnt, "column pointers are not the running sums");
    }
    Li = malloc(Lp[n] * sizeof(*Li)); Lx = malloc(Lp[n] * sizeof(*Lx));
    LDL_numeric(n, Ap, Ai, Ax, Lp, Par, Lnz, Li, Lx, D, Y, Pt, Fl, hasP ? P : 0, hasP ? Pinv : 0);
    for (j = 0, t = 0; j < n; j++) {
        for (i = j + 1; i < n; i++) if (F[i][j]) {
            sym_check(t < Lp[j + 1], "a fill position is missing");
            sym_check(Li[t] == i, "the numeric phase filled another position, or out of order");
            t++;
        }
        sym_check(t == Lp[j + 1] && Lnz[j] == Lp[j + 1] - Lp[j], "the numeric phase filled another number of positions");
    }
    sym_verify_protected("an input was modified");
    free(Ap); free(Ai); free(Ax); free(P); free(Pinv); free(Lp); free(Par); free(Lnz); free(Fl); free(Li); free(Pt); free(Lx); free(D); free(Y);
    sym_reach("end");
    return 0;
}
