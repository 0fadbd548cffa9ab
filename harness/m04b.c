#include "prob.h"
#include "Auxilary.h"
/* M04: matrix-vector kernels and the objective, every pattern and value */
int harness(void)
{
    long m = sym_param("m", 2), n = sym_param("n", 3), i, j, k, tr = sym_choose("transposed", 2), start = sym_choose("start", 3), obj = sym_param("obj", 0);
    static int pat[MX][MX];
    static double v[MX][MX];
    qp_int *jc = NEWI(n + 1), *ir;
    double *pr;
    long uns = sym_choose("unsorted", 2);
    for (i = 0; i < m; i++) for (j = 0; j < n; j++) {
        pat[i][j] = i * n + j >= m * n - sym_param("free", 1000) ? (int)sym_choose(h_name2('p', i, j), 2) : i == j || (i * 3 + j * 5 + i * j) % 3 == 0;
        v[i][j] = pat[i][j] ? sym_real(h_name2('v', i, j)) : 0.0;
    }
    for (i = 0, k = 0; i < m; i++) for (j = 0; j < n; j++) k += pat[i][j];
    ir = NEWI(k); pr = NEWD(k);
    for (j = 0, k = 0; j < n; j++) {
        jc[j] = k;
        for (i = 0; i < m; i++) { long r = uns ? m - 1 - i : i; if (pat[r][j]) { ir[k] = r; pr[k] = v[r][j]; k++; } }
    }
    jc[n] = k;
    smat A;
    SparseMatrixSetup(m, n, k, jc, ir, pr, &A);
    long nx = tr ? m : n, ny = tr ? n : m;
    double *x = malloc(nx * sizeof(double)), *y = malloc(ny * sizeof(double)), old[MX];
    for (i = 0; i < nx; i++) x[i] = sym_real(h_name1('x', i));
    for (i = 0; i < ny; i++) y[i] = old[i] = sym_real(h_name1('y', i));
    sym_protect(x, nx * sizeof(double)); sym_protect(pr, k * sizeof(double));
    if (obj) {
        double *c = NEWD(n), e = 0;
        for (i = 0; i < n; i++) c[i] = sym_real(h_name1('c', i));
        double f = obj_value(&A, c, x, y);
        for (i = 0; i < n; i++) { e += c[i] * x[i]; for (j = 0; j < n; j++) if (pat[i][j]) e += 0.5 * v[i][j] * x[i] * x[j]; }
        sym_eq(f, e, "obj_value is not x'Px/2 + c'x");
    } else {
        if (tr) SparseMatrixTransMultiply(&A, x, y, start); else SparseMatrixMultiply(&A, x, y, start);
        for (i = 0; i < ny; i++) {
            double e = start ? 0 : old[i];
            for (j = 0; j < nx; j++) { long r = tr ? j : i, c = tr ? i : j; if (pat[r][c]) e -= v[r][c] * x[j]; }
            sym_eq(y[i], e, "y - Ax (or y - A'x) wrong");
        }
    }
    sym_verify_protected("an argument was modified");
    free(x); free(y);
    h_endall();
    sym_reach("end");
    return 0;
}
