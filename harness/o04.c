#include "amdpat.h"
#include "amd.h"
/* O04: what the ordering reports about the pattern is exact, about the factor an upper bound; a forest is ordered without fill */
int harness(void)
{
    long n, i, j, k, nz = 0, off = 0, both = 0, diag = 0, aat = 0, c, lnz = 0, dmax = 0, ldl = 0, lu = 0, nd, ndef = 0, jumb, edges, comp, dd = sym_param("dense", 0);
    static char F[PATMAX][PATMAX]; static long deg[PATMAX], cc[PATMAX], lab[PATMAX];
    int ac;
    n = h_pattern();
    jumb = sym_param("jumble", 0) ? sym_choose("jumble", 2) : 0;
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) {
        nz += pat[i][j];
        if (i == j) diag += pat[i][j]; else { off += pat[i][j]; both += pat[i][j] & pat[j][i]; aat += pat[i][j] | pat[j][i]; }
    }
    qp_int *Ap = malloc((n + 1) * sizeof(*Ap)), *Ai = malloc(2 * nz * sizeof(*Ai)), *P = malloc(n * sizeof(*P));
    int disorder = 0;
    for (j = 0, k = 0; j < n; j++) {
        Ap[j] = k;
        if (!jumb) { for (i = 0; i < n; i++) if (pat[i][j]) Ai[k++] = i; }
        else {
            for (i = n - 1; i >= 0; i--) if (pat[i][j]) { Ai[k++] = i; if (j % 2) Ai[k++] = i; }
            if (k - Ap[j] > 1) disorder = 1;
        }
    }
    Ap[n] = k;
    double Control[AMD_CONTROL], Info[AMD_INFO];
    amd_l_defaults(Control);
    if (dd) { long d = sym_choose("dense", 3); Control[AMD_DENSE] = d == 0 ? 10.0 : d == 1 ? 0.0 : 1.0; }
    if (sym_param("agg", 1)) Control[AMD_AGGRESSIVE] = sym_choose("aggressive", 2);
    for (i = 0; i < n; i++) P[i] = -7;
    for (i = 0; i < AMD_INFO; i++) Info[i] = -7;
    long r = amd_l_order(n, Ap, Ai, P, Control, Info);
    sym_check(r == (disorder ? AMD_OK_BUT_JUMBLED : AMD_OK), "the ordering of a well-formed pattern did not return the documented status");
    sym_check(Info[AMD_STATUS] == r, "the reported status is not the returned one");
    sym_check(Info[AMD_N] == n, "the reported size is not n");
    sym_check(Info[AMD_NZ] == (disorder ? nz : Ap[n]), "the reported number of entries is wrong");
    sym_check(Info[AMD_NZDIAG] == diag, "the reported number of diagonal entries is wrong");
    sym_check(Info[AMD_NZ_A_PLUS_AT] == aat, "the reported number of off-diagonal entries of A+A' is wrong");
    sym_near(Info[AMD_SYMMETRY], off ? (double)both / off : 1.0, 1e-12, "the reported symmetry is not matched off-diagonal entries over off-diagonal entries");
    sym_check(Info[AMD_NCMPA] >= 0 && Info[AMD_MEMORY] > 0, "the reported memory or compactions make no sense");
    /* dense rows */
    double al = Control[AMD_DENSE] * sqrt((double)n);
    nd = al < 16 ? 16 : al > n ? n : (long)al;
    for (i = 0; i < n; i++) { for (deg[i] = 0, j = 0; j < n; j++) if (i != j && (pat[i][j] | pat[j][i])) deg[i]++; if (deg[i] > nd) ndef++; }
    sym_check(Info[AMD_NDENSE] == ndef, "the reported number of dense rows is wrong");
    for (k = 0; k < ndef; k++) sym_check(deg[P[n - 1 - k]] > nd, "the dense rows are not placed last");
    /* factor of the permuted pattern */
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) F[i][j] = pat[P[i]][P[j]] | pat[P[j]][P[i]];
    for (k = 0; k < n; k++) {
        for (c = 0, i = k + 1; i < n; i++) if (F[i][k]) { c++; for (j = k + 1; j < n; j++) if (F[j][k]) F[i][j] = 1; }
        cc[k] = c; lnz += c; ldl += c * (c + 1) / 2; lu += c * c;
        if (c + 1 > dmax) dmax = c + 1;
    }
    sym_check(Info[AMD_LNZ] >= lnz, "the reported number of nonzeros of L is below the true one");
    sym_check(Info[AMD_LNZ] <= n * (n - 1) / 2, "the reported number of nonzeros of L exceeds the dense triangle");
    sym_check(Info[AMD_NDIV] >= lnz, "the reported number of divisions is below the true one");
    sym_check(Info[AMD_NMULTSUBS_LDL] >= ldl, "the reported operations of LDL' are below the true ones");
    sym_check(Info[AMD_NMULTSUBS_LU] >= lu, "the reported operations of LU are below the true ones");
    sym_check(Info[AMD_DMAX] >= dmax, "the reported longest column is below the true one");
    /* forest: edges + components = n */
    for (i = 0; i < n; i++) lab[i] = i;
    for (ac = 1, edges = 0, i = 0; i < n; i++) for (j = 0; j < i; j++) if (pat[i][j] | pat[j][i]) {
        edges++;
        if (lab[i] == lab[j]) ac = 0;
        else { comp = lab[i]; for (k = 0; k < n; k++) if (lab[k] == comp) lab[k] = lab[j]; }
    }
    if (ac && !ndef) {
        sym_reach("forest");
        sym_check(lnz == edges, "a forest is ordered with fill");
    }
    /* without statistics: the same ordering */
    if (sym_param("noinfo", 1)) {
        qp_int *Q = malloc(n * sizeof(*Q));
        sym_check(amd_l_order(n, Ap, Ai, Q, Control, 0) == r, "the status depends on whether statistics are wanted");
        for (i = 0; i < n; i++) sym_check(Q[i] == P[i], "the ordering depends on whether statistics are wanted");
        free(Q);
    }
    free(Ap); free(Ai); free(P);
    sym_reach("end");
    return 0;
}
