#include "prob.h"
#include "ldl.h"
/* L05: after a change of the last m diagonal entries, the partial refactorisations give the factor a full one gives */
int harness(void)
{
    long n = sym_param("n", 2), m = sym_param("m", 2), p = sym_param("p", 0), N = n + m + p, i, j, k, t, symv = sym_param("symv", 1), pk = sym_param("perm", -1), mask = sym_param("mask", -2);
    int nat = pk == 3;          /* no permutation arrays at all */
    static int pat[MX][MX];
    static double K[MX][MX];
    qp_int *Ap = malloc((N + 1) * sizeof(*Ap)), *Ai, *P = NEWI(N), *Pinv = malloc(N * sizeof(*Pinv)), *dp = NEWI(N);
    double *Ax;
    sym_policy(0, 0);
    for (i = 0, k = 0; i < N; i++) for (j = i; j < N; j++, k++) {
        pat[i][j] = pat[j][i] = (i == j) ? 1 : h_bit(mask, 'p', i, j, k);
        K[i][j] = K[j][i] = pat[i][j] ? h_val(symv, 'K', i, j, i == j ? (i % 2 ? -3.0 - 0.5 * i : 4.0 + i) : h_const(1, i, j)) : 0.0;
    }
    int qd = sym_param("quasi", 0);       /* quasidefinite by assumption: no branch needs to be fixed */
    if (qd) for (i = 0; i < N; i++) sym_assume(i < n ? K[i][i] >= 1 : K[i][i] <= -1);
    for (i = 0, t = 0; i < N; i++) for (j = 0; j < N; j++) t += pat[i][j];
    Ai = malloc(t * sizeof(*Ai)); Ax = malloc(t * sizeof(*Ax));
    if (pk == -1) h_anyperm(P, N);
    else for (i = 0; i < N; i++) P[i] = pk == 0 || pk == 3 ? i : pk == 1 ? N - 1 - i : (i + 1) % N;
    for (j = 0, k = 0; j < N; j++) {
        Ap[j] = k;
        for (i = N - 1; i >= 0; i--) if (pat[i][j]) { if (i == j) dp[j] = k; Ai[k] = i; Ax[k] = K[i][j]; k++; }
    }
    Ap[N] = k;
    qp_int *Lp = malloc((N + 1) * sizeof(*Lp)), *Par = malloc(N * sizeof(*Par)), *Lnz = malloc(N * sizeof(*Lnz)), *Fl = malloc(N * sizeof(*Fl)), *Pt = malloc(N * sizeof(*Pt)), *U = malloc(N * sizeof(*U));
    double *D = malloc(N * sizeof(*D)), *Y = malloc(N * sizeof(*Y)), *Df = malloc(N * sizeof(*D)), *Yf = malloc(N * sizeof(*Y));
    LDL_symbolic(N, Ap, Ai, Lp, Par, Lnz, Fl, nat ? 0 : P, nat ? 0 : Pinv);
    if (nat) for (i = 0; i < N; i++) Pinv[i] = i;
    qp_int lnz = Lp[N], *Li = malloc(lnz * sizeof(*Li)), *Lif = malloc(lnz * sizeof(*Li)), *Lti = malloc(lnz * sizeof(*Lti)), *Ltp = malloc((N + 1) * sizeof(*Ltp));
    double *Lx = malloc(lnz * sizeof(*Lx)), *Lxf = malloc(lnz * sizeof(*Lx));
    LDL_numeric(N, Ap, Ai, Ax, Lp, Par, Lnz, Li, Lx, D, Y, Pt, Fl, nat ? 0 : P, nat ? 0 : Pinv);
    Transpose_Row_Count(N, N, Li, Lp, Lti, Ltp);
    /* who changes */
    int all = sym_choose("all", 2), row = sym_choose("row", 2);
    for (i = 0; i < N; i++) U[i] = all ? N : 0;
    test_reach(Par, Pinv, U, n, m, p);
    for (i = 0; i < N; i++) sym_check(U[i] == 0 || U[i] == N, "the reach holds something other than marks");
    for (i = n + p; i < N; i++) for (j = Pinv[i]; j != -1; j = Par[j]) sym_check(U[j] == N, "an ancestor of a changed column is not marked");
    if (!all) for (j = 0; j < N - 1; j++) {
        int anc = 0;
        for (i = n + p; i < N; i++) for (t = Pinv[i]; t != -1; t = Par[t]) anc |= t == j;
        if (!anc) { sym_check(U[j] == 0, "a column no change reaches is marked"); sym_reach("kept"); }
    }
    for (int round = 0; round < sym_param("rounds", 1); round++) {
        for (i = n + p; i < N; i++) Ax[dp[i]] = symv ? sym_real(h_name2('d', round, i)) : -1.5 - 0.25 * i - round;
        if (qd) for (i = n + p; i < N; i++) sym_assume(Ax[dp[i]] <= -1);
        sym_protect(Ax, k * sizeof(*Ax)); sym_protect(Ai, k * sizeof(*Ai)); sym_protect(Ap, (N + 1) * sizeof(*Ap)); sym_protect(Lp, (N + 1) * sizeof(*Lp)); sym_protect(U, N * sizeof(*U));
        sym_protect(Lti, lnz * sizeof(*Lti)); sym_protect(Ltp, (N + 1) * sizeof(*Ltp)); sym_protect(Pinv, N * sizeof(*Pinv)); sym_protect(Li, lnz * sizeof(*Li));
        long r = row ? LDL_row_cache_numeric(N, Ap, Ai, Ax, Ltp, Lti, Li, Lp, Lx, D, Y, nat ? 0 : P, nat ? 0 : Pinv, U) : LDL_cache_numeric(N, Ap, Ai, Ax, Ltp, Lti, Li, Lp, Lx, D, Y, nat ? 0 : P, nat ? 0 : Pinv, U);
        sym_verify_protected("an input of the partial refactorisation was modified");
        sym_check(r == N, "the partial refactorisation did not complete");
        LDL_numeric(N, Ap, Ai, Ax, Lp, Par, Lnz, Lif, Lxf, Df, Yf, Pt, Fl, nat ? 0 : P, nat ? 0 : Pinv);
        for (i = 0; i < N; i++) { sym_eq(D[i], Df[i], "a pivot differs from that of the full factorisation"); sym_eq(Y[i], 0, "the workspace is not left zero"); }
        for (t = 0; t < lnz; t++) { sym_check(Li[t] == Lif[t], "a row index differs"); sym_eq(Lx[t], Lxf[t], "an entry of L differs from that of the full factorisation"); }
    }
    free(Ap); free(Ai); free(Ax); free(Pinv); free(Lp); free(Par); free(Lnz); free(Fl); free(Pt); free(U); free(D); free(Y); free(Df); free(Yf); free(Li); free(Lif); free(Lti); free(Ltp); free(Lx); free(Lxf);
    h_endall();
    sym_reach("end");
    return 0;
}
