#include "prob.h"
#include "amd.h"
/* O02: malformed and jumbled input of the ordering */
int harness(void)
{
    long what = sym_param("what", 0), nmax = sym_param("nmax", 2), cap = sym_param("cap", 3), i, j, k, r;
    double Control[AMD_CONTROL], Info[AMD_INFO];
    amd_l_defaults(Control);
    if (what == 0) {
        long big = 1000000000000L, n = sym_choose("n", nmax + 2) - 1, sz = n > 0 ? n : 0, miss = sym_choose("missing", 4), noinfo = sym_choose("noinfo", 2);
        qp_int *Ap = malloc((sz + 1) * sizeof(*Ap)), *Ai, *P = malloc((sz ? sz : 1) * sizeof(*P));
        for (i = 0; i <= sz; i++) Ap[i] = sym_int(h_name1('A', i), -big, big);
        for (i = 0; i < sz; i++) P[i] = 77 + i;
        sym_assume(Ap[sz] <= cap);
        long nz = sym_conc(Ap[sz] > 0 ? Ap[sz] : 0);
        Ai = malloc(nz * sizeof(*Ai));
        for (k = 0; k < nz; k++) Ai[k] = sym_int(h_name1('I', k), -big, big);
        int ok = n >= 0 && miss == 0;
        if (n > 0 && !miss) {
            ok &= Ap[0] == 0;
            for (j = 0; j < n; j++) ok &= Ap[j] <= Ap[j + 1];
            for (k = 0; k < nz; k++) ok &= (Ai[k] >= 0) & (Ai[k] < n);
        }
        if (n == 0) { sym_assume(miss == 0); ok = 1; } else sym_assume(!ok);
        long mark = sym_heapmark();
        sym_protect(Ap, (sz + 1) * sizeof(*Ap)); sym_protect(Ai, nz * sizeof(*Ai)); sym_protect(P, sz * sizeof(*P));
        r = amd_l_order(n, miss == 1 ? 0 : Ap, miss == 2 ? 0 : Ai, miss == 3 ? 0 : P, noinfo ? 0 : Control, noinfo ? 0 : Info);
        if (n == 0) sym_check(r == AMD_OK, "an empty matrix is not accepted");
        else { sym_check(r == AMD_INVALID, "malformed input is not rejected as invalid"); if (!noinfo) sym_check(Info[AMD_STATUS] == AMD_INVALID, "the statistics do not report the invalid status"); sym_reach("invalid"); }
        sym_verify_protected("an argument was written although the input was rejected");
        sym_noleak(mark, "leak on rejected input");
        free(Ap); free(Ai); free(P);
        sym_reach("end");
        return 0;
    }
    /* unsorted columns and duplicates */
    long n = sym_param("n", 3), nz = 0, symm = sym_param("symm", 1);
    static char pat[MX][MX];
    for (i = 0; i < n; i++) for (j = symm ? i : 0; j < n; j++) {
        pat[i][j] = i == j && symm ? 1 : sym_choose(h_name2('p', i, j), 2);
        if (symm) pat[j][i] = pat[i][j];
    }
    qp_int Ap[MX + 1], Ai[2 * MX * MX], Sp[MX + 1], Si[MX * MX], *P = malloc(n * sizeof(*P)), *Q = malloc(n * sizeof(*Q)), *R = malloc(n * sizeof(*R)), seen[MX];
    long sn = 0, jum = 0;
    for (j = 0; j < n; j++) {
        long how = sym_choose(h_name1('h', j), 4), first = nz;
        Ap[j] = nz; Sp[j] = sn;
        for (i = 0; i < n; i++) if (pat[i][j]) Si[sn++] = i;
        for (i = 0; i < n; i++) { long q = how & 1 ? n - 1 - i : i; if (pat[q][j]) Ai[nz++] = q; }
        if ((how & 2) && nz > first) Ai[nz] = Ai[first], nz++;
        for (k = first + 1; k < nz; k++) jum |= Ai[k] <= Ai[k - 1];
    }
    Ap[n] = nz; Sp[n] = sn;
    qp_int *Hi = malloc(nz * sizeof(*Hi));
    for (k = 0; k < nz; k++) Hi[k] = Ai[k];
    sym_protect(Ap, (n + 1) * sizeof(*Ap)); sym_protect(Hi, nz * sizeof(*Hi));
    long mark = sym_heapmark();
    r = amd_l_order(n, Ap, Hi, P, Control, Info);
    sym_noleak(mark, "the ordering leaks memory");
    sym_check(r == (jum ? AMD_OK_BUT_JUMBLED : AMD_OK), "jumbled input is not reported as such");
    sym_check(Info[AMD_STATUS] == r, "the statistics report another status");
    for (i = 0; i < n; i++) seen[i] = 0;
    for (i = 0; i < n; i++) {
        sym_check(P[i] >= 0 && P[i] < n && !seen[P[i]], "not a permutation for jumbled input");
        seen[P[i]] = 1;
    }
    long r2 = amd_l_order(n, Ap, Hi, R, 0, 0);
    sym_check(r2 == r, "another status without control and statistics arrays");
    for (i = 0; i < n; i++) sym_check(R[i] == P[i], "another permutation without control and statistics arrays");
    if (symm) {
        r2 = amd_l_order(n, Sp, Si, Q, Control, Info);
        sym_check(r2 == AMD_OK, "the sorted form is not accepted");
        for (i = 0; i < n; i++) sym_check(Q[i] == P[i], "another permutation than for the sorted form");
    }
    sym_verify_protected("the input was modified");
    free(P); free(Q); free(R); free(Hi);
    if (jum) sym_reach("jumbled");
    sym_reach("end");
    return 0;
}
