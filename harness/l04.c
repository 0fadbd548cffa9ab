#include "prob.h"
#include "ldl.h"
#include "amd.h"
/* L04: the validators, all index contents */
int harness(void)
{
    long what = sym_param("what", 0), nmax = sym_param("nmax", 3), cap = sym_param("cap", 4), i, j, k;
    long n = sym_param("n", -9) >= 0 ? sym_param("n", -9) : sym_choose("n", nmax + 2) - 1, big = 1000000000000L;
    long sz = n > 0 ? n : 0, miss = sym_choose("missing", 3);
    long r;
    if (what == 0) {
        qp_int *P = malloc(sz * sizeof(*P)), *Fl = malloc(sz * sizeof(*Fl));
        for (i = 0; i < sz; i++) P[i] = i < sz - sym_param("free", 1000) ? (i * 3 + 1) % sz : sym_int(h_name1('P', i), -big, big);
        sym_protect(P, sz * sizeof(*P));
        r = LDL_valid_perm(n, miss == 1 ? 0 : P, miss == 2 ? 0 : Fl);
        int ok = 1;
        for (i = 0; i < sz; i++) {
            ok &= (P[i] >= 0) & (P[i] < n);
            for (j = 0; j < i; j++) ok &= P[i] != P[j];
        }
        if (n < 0 || miss == 2) ok = 0;
        else if (miss == 1) ok = 1;
        sym_check((r == 0) | (r == 1), "the permutation check returned neither 0 nor 1");
        sym_check((r == 1) == ok, "the permutation check is wrong");
        if (r == 1 && n > 1) sym_reach("valid");
        if (r == 0 && n > 1) sym_reach("invalid");
        sym_verify_protected("the permutation was modified");
        free(P); free(Fl);
    } else {
        long nr = what == 2 ? sym_choose("nrow", nmax + 2) - 1 : n;
        qp_int *Ap = malloc((sz + 1) * sizeof(*Ap)), *Ai;
        for (i = 0; i <= sz; i++) Ap[i] = sym_int(h_name1('A', i), -big, big);
        sym_assume(Ap[sz] <= cap);
        long nz = sym_conc(Ap[sz] > 0 ? Ap[sz] : 0);      /* the caller's index array has exactly Ap[n] entries */
        Ai = malloc(nz * sizeof(*Ai));
        for (k = 0; k < nz; k++) Ai[k] = sym_int(h_name1('I', k), -big, big);
        sym_protect(Ap, (sz + 1) * sizeof(*Ap)); sym_protect(Ai, nz * sizeof(*Ai));
        qp_int *a = miss == 1 ? 0 : Ap, *b = miss == 2 ? 0 : Ai;
        r = what == 1 ? LDL_valid_matrix(n, a, b) : amd_l_valid(nr, n, a, b);
        int ok = 1, jum = 0;
        if (n < 0 || nr < 0 || miss) ok = 0;
        else {
            ok &= Ap[0] == 0;
            for (j = 0; j < n; j++) ok &= Ap[j] <= Ap[j + 1];
            for (k = 0; k < nz; k++) ok &= (Ai[k] >= 0) & (Ai[k] < nr);
            for (k = 1; k < nz; k++) {
                int same = 1;
                for (j = 1; j < n; j++) same &= Ap[j] != k;     /* no column starts at k */
                jum |= same & (Ai[k] <= Ai[k - 1]);
            }
        }
        if (what == 1) {
            sym_check((r == 0) | (r == 1), "the matrix check returned neither 0 nor 1");
            sym_check((r == 1) == ok, "the matrix check is wrong");
            if (r == 1) sym_reach("valid");
        } else {
            sym_check((r == AMD_INVALID) == !ok, "the ordering check: invalid exactly for malformed forms");
            if (ok) sym_check((r == AMD_OK_BUT_JUMBLED) == jum && (r == AMD_OK) == !jum, "the ordering check: jumbled exactly for unsorted or duplicate rows");
            if (r == AMD_OK_BUT_JUMBLED) sym_reach("jumbled");
            if (r == AMD_OK) sym_reach("valid");
        }
        sym_verify_protected("the matrix was modified");
        free(Ap); free(Ai);
    }
    sym_reach("end");
    return 0;
}
