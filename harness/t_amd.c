#include "sym.h"
#include "qpSWIFT.h"
/* AMD: symbolic symmetric pattern */
int harness(void)
{
    long n = sym_param("n", 3), Ap[10], Ai[100], P[10], seen[10], nz = 0;
    char pat[10][10];
    char nm[3] = "ab";
    for (long i = 0; i < n; i++) for (long j = i; j < n; j++) {
        nm[0] = 'a' + i; nm[1] = 'a' + j;
        pat[i][j] = pat[j][i] = i == j ? 1 : sym_choose(nm, 2);
    }
    for (long j = 0; j < n; j++) {
        Ap[j] = nz;
        for (long i = 0; i < n; i++) if (pat[i][j]) Ai[nz++] = i;
    }
    Ap[n] = nz;
    double Control[AMD_CONTROL], Info[AMD_INFO];
    amd_l_defaults(Control);
    long r = amd_l_order(n, Ap, Ai, P, Control, Info);
    sym_check(r == AMD_OK, "status");
    for (long i = 0; i < n; i++) seen[i] = 0;
    for (long i = 0; i < n; i++) { sym_check(P[i] >= 0 && P[i] < n, "range"); sym_check(!seen[P[i]], "dup"); seen[P[i]] = 1; }
    sym_reach("end");
    return 0;
}
