#include "prob.h"
#include "Auxilary.h"
/* M04: vector kernels on exact-size blocks with arbitrary values */
static double *h_vec(char a, long n, double w)
{
    double *v = malloc(n * sizeof(double));
    for (long i = 0; i < n; i++) v[i] = sym_real_w(h_name1(a, i), w + 0.25 * i);
    return v;
}
static void h_copy(double *d, const double *s, long n) { for (long i = 0; i < n; i++) d[i] = s[i]; }
int harness(void)
{
    long what = sym_param("what", 0), nmin = sym_param("nmin", 1), nmax = sym_param("nmax", 3), i;
    long n = nmin + sym_choose("n", nmax - nmin + 1);
    double old[128];
    sym_policy(0, sym_param("merge", 0));
    if (what == 0) {                /* x + alpha d */
        double *x = h_vec('x', n, 1), *d = h_vec('d', n, -1), a = sym_real("alpha");
        h_copy(old, x, n);
        sym_protect(d, n * sizeof(double));
        updatevariables(x, d, a, n);
        for (i = 0; i < n; i++) sym_eq(x[i], old[i] + a * d[i], "updatevariables: not x + alpha d");
        sym_verify_protected("updatevariables changed the direction");
        free(x); free(d);
    } else if (what == 1) {         /* inner product */
        double *x = h_vec('x', n, 1), *y = h_vec('y', n, -1), s = 0;
        sym_protect(x, n * sizeof(double)); sym_protect(y, n * sizeof(double));
        for (i = 0; i < n; i++) { s += x[i] * y[i]; }
        sym_eq(innerproduct(x, y, n), s, "innerproduct is not sum x_i y_i");
        sym_verify_protected("an argument was modified");
        free(x); free(y);
    } else if (what == 3) {         /* lambda */
        double *s = h_vec('s', n, 1), *z = h_vec('z', n, 2), *l = malloc(n * sizeof(double));
        for (i = 0; i < n; i++) { sym_assume(s[i] > 0); sym_assume(z[i] > 0); }
        sym_protect(s, n * sizeof(double)); sym_protect(z, n * sizeof(double));
        formlambda(l, s, z, n);
        for (i = 0; i < n; i++) { sym_check(l[i] >= 0, "lambda is negative"); sym_eq(l[i] * l[i], s[i] * z[i], "lambda is not sqrt(s z)"); }
        sym_verify_protected("formlambda changed an argument");
        free(s); free(z); free(l);
    } else if (what == 4) {         /* ds */
        double *l = h_vec('l', n, 1), *a = h_vec('a', n, 2), *b = h_vec('b', n, -2), *ds = malloc(n * sizeof(double));
        double sg = sym_real("sigma"), mu = sym_real("mu");
        long sel = sym_choose("selector", 3);
        qp_int k = sel == 0 ? QP_PURE_NEWTON_STEP : sel == 1 ? QP_CENTERING_CORRECTOR_STEP : QP_CENTERING_STEP;
        sym_protect(l, n * sizeof(double)); sym_protect(a, n * sizeof(double)); sym_protect(b, n * sizeof(double));
        form_ds(ds, l, a, b, sg, mu, n, k);
        for (i = 0; i < n; i++) {
            double v = -(l[i] * l[i]);
            if (sel == 1) v = v - a[i] * b[i] + sg * mu;
            if (sel == 2) v = v + sg * mu;
            sym_eq(ds[i], v, "form_ds: wrong right-hand side");
        }
        sym_verify_protected("form_ds changed an argument");
        free(l); free(a); free(b); free(ds);
    } else if (what == 5) {         /* reduced right-hand side */
        long m = 1 + sym_choose("m", 2), p = sym_choose("p", 3);
        double *rx = h_vec('x', n, 1), *ry = h_vec('y', p, 1), *rz = h_vec('r', m, 1), *ds = h_vec('d', m, 1), *z = h_vec('z', m, 1);
        double *b = malloc((n + m + p) * sizeof(double));
        for (i = 0; i < m; i++) sym_assume(z[i] > 0);
        sym_protect(rx, n * sizeof(double)); sym_protect(rz, m * sizeof(double)); sym_protect(ds, m * sizeof(double)); sym_protect(z, m * sizeof(double));
        updatekktmatrix_b(b, rx, ry, rz, ds, z, n, m, p);
        for (i = 0; i < n; i++) sym_eq(b[i], rx[i], "right-hand side: rx block");
        for (i = 0; i < p; i++) sym_eq(b[n + i], ry[i], "right-hand side: ry block");
        for (i = 0; i < m; i++) sym_eq(b[n + p + i], rz[i] - ds[i] / z[i], "right-hand side: rz - ds/z block");
        sym_verify_protected("updatekktmatrix_b changed an argument");
        free(rx); free(ry); free(rz); free(ds); free(z); free(b);
    } else if (what == 6) {         /* rho */
        double *s = h_vec('s', n, 1), *z = h_vec('z', n, 2), *a = h_vec('a', n, -1), *b = h_vec('b', n, -2), u = 0, v = 0;
        double ap = sym_real("ap"), ad = sym_real("ad");
        for (i = 0; i < n; i++) { sym_assume(s[i] > 0); sym_assume(z[i] > 0); }
        sym_protect(s, n * sizeof(double)); sym_protect(z, n * sizeof(double)); sym_protect(a, n * sizeof(double)); sym_protect(b, n * sizeof(double));
        double r = formrho(s, a, z, b, ap, ad, n);
        for (i = 0; i < n; i++) { u += (s[i] + ap * a[i]) * (z[i] + ad * b[i]); v += s[i] * z[i]; }
        sym_eq(r * v, u, "rho is not the complementarity ratio");
        sym_verify_protected("formrho changed an argument");
        free(s); free(z); free(a); free(b);
    } else if (what == 7) {         /* boundary sign test: does some x + alpha d < 0 */
        double *x = h_vec('x', n, 1), *d = h_vec('d', n, -1), a = sym_real("alpha");
        sym_protect(x, n * sizeof(double)); sym_protect(d, n * sizeof(double));
        long r = checksign(x, d, a, n);
        int neg = 0;
        for (i = 0; i < n; i++) neg |= x[i] + a * d[i] < 0;
        sym_check(r == 0 || r == 1, "checksign is neither 0 nor 1");
        sym_check((r == 1) == neg, "checksign does not tell whether some x + alpha d is negative");
        sym_verify_protected("checksign changed an argument");
        free(x); free(d);
    }
    sym_reach("end");
    return 0;
}
