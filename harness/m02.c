#include "prob.h"
#include "Auxilary.h"
/* M02: transposition */
int harness(void)
{
    long mm = sym_param("mmax", 3), nn = sym_param("nmax", 3), cap = sym_param("cap", 6);
    long fx = sym_param("fix", 0), m = fx ? mm : 1 + sym_choose("m", mm), n = fx ? nn : 1 + sym_choose("n", nn), i, j, k, idx = sym_param("idx", 0), wide = sym_param("wide", 0);
    sym_assume(m * n <= cap);
    long ord = sym_choose("order", 2), cnt = 0;
    static int pat[MX][MX];
    qp_int *jc = NEWI(n + 1), *ir, *tjc, *tir;
    double *pr, *tpr, val[MX][MX];
    for (i = 0; i < m; i++) for (j = 0; j < n; j++) { pat[i][j] = i * n + j >= m * n - sym_param("free", 1000) ? (int)sym_choose(h_name2('p', i, j), 2) : (i * 3 + j * 5 + i * j) % 3 == 0 || (wide && (i == 1 || j == 1)); cnt += pat[i][j]; }
    ir = malloc(cnt * sizeof(*ir)); pr = malloc(cnt * sizeof(*pr));
    tjc = malloc((m + 1) * sizeof(*tjc)); tir = malloc(cnt * sizeof(*tir)); tpr = malloc(cnt * sizeof(*tpr));
    for (j = 0, k = 0; j < n; j++) {
        jc[j] = k;
        for (i = 0; i < m; i++) {
            long r = ord ? m - 1 - i : i;
            if (pat[r][j]) { ir[k] = r; val[r][j] = pr[k] = sym_real_w(h_name2('v', r, j), 1 + r * 10 + j); k++; }
        }
    }
    jc[n] = k;
    smat A, T;
    SparseMatrixSetup(m, n, cnt, jc, ir, pr, &A);
    SparseMatrixSetup(n, m, cnt, tjc, tir, tpr, &T);
    sym_check(A.m == m && A.n == n && A.nnz == cnt && A.jc == jc && A.ir == ir && A.pr == pr, "the matrix record does not hold its arguments");
    sym_protect(ir, cnt * sizeof(*ir)); sym_protect(pr, cnt * sizeof(*pr)); sym_protect(jc, (n + 1) * sizeof(*jc));
    long mark = sym_heapmark();
    if (idx) Transpose_Row_Count(m, n, ir, jc, tir, tjc); else SparseMatrixTranspose(&A, &T);
    sym_noleak(mark, "transposition leaks");
    sym_verify_protected("the input matrix was modified");
    sym_check(tjc[0] == 0, "first pointer not 0");
    k = 0;
    for (i = 0; i < m; i++) {
        for (j = 0; j < n; j++) if (pat[i][j]) {
            sym_check(k < tjc[i + 1], "an entry is missing");
            sym_check(tir[k] == j, "wrong index in the transpose");
            if (!idx) sym_same(tpr[k], val[i][j], "wrong value in the transpose");
            k++;
        }
        sym_check(tjc[i + 1] == k, "wrong column pointer in the transpose");
    }
    free(ir); free(pr); free(tjc); free(tir); free(tpr);
    h_endall();
    sym_reach("end");
    return 0;
}
