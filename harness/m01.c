#include "prob.h"
#include "Auxilary.h"
/* M01: dense to compressed column, both orders */
static int h_nz(double v) { return v != v || v > 0 || v < 0; }
int harness(void)
{
    long mm = sym_param("mmax", 3), nn = sym_param("nmax", 3), cap = sym_param("cap", 6), spec = sym_param("spec", 0);
    long fx = sym_param("fix", 0), m = fx ? mm : 1 + sym_choose("m", mm), n = fx ? nn : 1 + sym_choose("n", nn), rm = sym_choose("rowmajor", 2), i, j, k;
    sym_assume(m * n <= cap);
    double *h_D = NEWD(m * n);
    for (k = 0; k < m * n; k++) {     /* the last `free` entries (and a few before) are arbitrary, the others fixed, about a third of them zero */
        if (k >= m * n - sym_param("free", 1000)) h_D[k] = sym_real_w(h_name1('v', k), 1.5 + k);
        else h_D[k] = (k * 7 + k / 3) % 3 == 0 ? 0.0 : (k % 2 ? -1.5 : 0.25) - k;
    }
    if (spec) {
        long at = sym_choose("at", m * n), what = sym_choose("what", 4);
        h_D[at] = what == 0 ? NAN : what == 1 ? INFINITY : what == 2 ? -INFINITY : -0.0;
    }
    sym_protect(h_D, m * n * sizeof(double));
    long mark = sym_heapmark();
    smat A;
    if (rm) densetosparse_ROWMAJOR(m, n, h_D, &A); else densetosparse(m, n, h_D, &A);
    sym_verify_protected("the dense input was modified");
    sym_check(A.m == m && A.n == n, "wrong dimensions");
    sym_check(A.jc[0] == 0, "first pointer not 0");
    sym_check(A.jc[n] == A.nnz, "last pointer is not the entry count");
    k = 0;
    for (j = 0; j < n; j++) {
        for (i = 0; i < m; i++) {
            double v = rm ? h_D[i * n + j] : h_D[j * m + i];
            if (h_nz(v)) {
                sym_check(k < A.jc[j + 1], "a nonzero entry is missing");
                sym_check(A.ir[k] == i, "wrong row index");
                sym_same(A.pr[k], v, "wrong value");
                k++;
            }
        }
        sym_check(A.jc[j + 1] == k, "column pointer does not match the stored nonzeros");
    }
    sym_check(A.nnz == k, "wrong entry count");
    free(A.ir); free(A.jc); free(A.pr);
    sym_noleak(mark, "conversion keeps a block beyond its three arrays");
    h_endall();
    sym_reach("end");
    return 0;
}
