#include "amdpat.h"
#include "amd.h"
/* O01: any well-formed pattern gives a permutation */
int harness(void)
{
    long n, i, j, nz = 0;
    n = h_pattern();
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) nz += pat[i][j];
    qp_int *Ap = malloc((n + 1) * sizeof(*Ap)), *Ai = malloc(nz * sizeof(*Ai)), *P = malloc(n * sizeof(*P)), *seen = malloc(n * sizeof(*seen));
    for (j = 0, nz = 0; j < n; j++) {
        Ap[j] = nz;
        for (i = 0; i < n; i++) if (pat[i][j]) Ai[nz++] = i;
    }
    Ap[n] = nz;
    double Control[AMD_CONTROL], Info[AMD_INFO];
    long cs = sym_param("control", 0);
    amd_l_defaults(Control);
    if (cs == 1) {              /* any aggressive flag and a choice of dense settings */
        Control[AMD_AGGRESSIVE] = sym_choose("aggressive", 2);
        long d = sym_choose("dense", 4);
        Control[AMD_DENSE] = d == 0 ? 10.0 : d == 1 ? -1.0 : d == 2 ? 0.0 : 1.0;
    } else if (cs == 2) {       /* any real dense parameter */
        Control[AMD_DENSE] = sym_real("alpha");
        sym_assume(Control[AMD_DENSE] > -1e6 & Control[AMD_DENSE] < 1e6);
        Control[AMD_AGGRESSIVE] = sym_choose("aggressive", 2);
    } else if (cs == 3) { Control[AMD_DENSE] = sym_param("dense10", 0) / 10.0; }
    sym_protect(Ap, (n + 1) * sizeof(*Ap)); sym_protect(Ai, nz * sizeof(*Ai));
    long mark = sym_heapmark();
    for (i = 0; i < n; i++) P[i] = -7;
    long r = amd_l_order(n, Ap, Ai, P, Control, Info);
    if (Info[AMD_NCMPA] > 0) sym_reach("compaction");
    sym_check(r == AMD_OK, "the ordering of a well-formed pattern did not succeed");
    for (i = 0; i < n; i++) seen[i] = 0;
    for (i = 0; i < n; i++) {
        sym_check(P[i] >= 0 && P[i] < n, "an entry of the ordering is out of range");
        sym_check(!seen[P[i]], "an index appears twice in the ordering");
        seen[P[i]] = 1;
    }
    sym_verify_protected("the input pattern was modified");
    sym_noleak(mark, "the ordering leaks memory");
    free(Ap); free(Ai); free(P); free(seen);
    sym_reach("end");
    return 0;
}
