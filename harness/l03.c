#include "prob.h"
#include "ldl.h"
/* L03: the pivot rule, all values */
int harness(void)
{
    long n = sym_param("n", 2), i, j, k, t, perm = sym_param("perm", 0);
    double tol = 1e-14;
    static double K[MX][MX];
    long at = sym_param("at", -1), band = sym_param("band", 0);
    qp_int *Ap = NEWI(n + 1), *Ai = NEWI(n * n), *Lp = NEWI(n + 1), *Par = NEWI(n), *Lnz = NEWI(n), *Fl = NEWI(n), *Pt = NEWI(n), *Li, *P = NEWI(n), *Pinv = NEWI(n);
    double *Ax = NEWD(n * n), *Lx, *D = NEWD(n), *Y = NEWD(n), s = sym_paramd("scale", 0);
    for (i = 0, k = 0; i < n; i++) for (j = i; j < n; j++, k++) {
        if (at >= 0) K[i][j] = K[j][i] = i == at && j == at ? sym_real("K") : i == j ? (i % 2 ? -3.0 - i % 7 : 4.0 + i % 5) : !band || j == i + 1 || (i == 0 && j % 9 == 0 && j < at) ? h_const(1, i, j) / 4 : 0;
        else if (s != 0) K[i][j] = K[j][i] = i == j && i ? sym_real(h_name2('K', i, j)) : s * (1 + i + j);
        else K[i][j] = K[j][i] = sym_real_w(h_name2('K', i, j), i == j ? 2.0 : 0.5);
    }
    if (sym_param("small", 0)) for (i = 0; i < n; i++) for (j = 0; j < n; j++) { sym_assume(K[i][j] < 1); sym_assume(K[i][j] > -1); }
    for (i = 0; i < n; i++) P[i] = perm ? n - 1 - i : i;
    for (j = 0, k = 0; j < n; j++) { Ap[j] = k; for (i = 0; i < n; i++) if (K[i][j] != 0 || !band) { Ai[k] = i; Ax[k] = K[i][j]; k++; } }
    Ap[n] = k;
    LDL_symbolic(n, Ap, Ai, Lp, Par, Lnz, Fl, P, Pinv);
    Li = malloc(Lp[n] * sizeof(*Li)); Lx = malloc(Lp[n] * sizeof(*Lx));
    long d = LDL_numeric(n, Ap, Ai, Ax, Lp, Par, Lnz, Li, Lx, D, Y, Pt, Fl, P, Pinv);
    sym_check(d == n, "the factorisation did not complete");
    for (i = 0; i < n; i++) {
        double v = K[P[i]][P[i]];
        for (j = 0; j < i; j++) for (t = Lp[j]; t < Lp[j + 1]; t++) if (Li[t] == i) v -= Lx[t] * Lx[t] * D[j];
        sym_check((D[i] > tol) | (D[i] < -tol), "a stored pivot is not above 1e-14 in magnitude");
        if (i == 0) {   /* no rounding in the first pivot: the exact boundary */
            if (v > tol || v < -tol) sym_same(D[0], v, "a first pivot that is not tiny was changed");
            else sym_near(D[0], v > 0 ? 1e-7 : -1e-7, 1e-20, "a tiny first pivot was not replaced by 1e-7 of its sign");
        }
        if (v > tol * 1.0001 || v < -tol * 1.0001) { sym_reach("plain"); sym_near(D[i], v, at < 0 || i == 0 ? 1e-25 : 1e-10, "a pivot that is not tiny was changed"); }
        else if (v > 1e-16 && v < tol * 0.9999) { sym_reach("tiny+"); sym_near(D[i], 1e-7, 1e-14, "a tiny positive pivot was not replaced by 1e-7"); }
        else if (v <= 0 && v > -tol * 0.9999) { if (i == 0 || v < -1e-16) { sym_reach("tiny-"); sym_near(D[i], -1e-7, 1e-14, "a tiny pivot of sign zero or below was not replaced by -1e-7"); } }
    }
    free(Li); free(Lx);
    h_endall();
    sym_reach("end");
    return 0;
}
