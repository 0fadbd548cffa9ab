#ifndef MX
#define MX 32
#endif
#include "prob.h"
/* Whole solves of larger concrete problems: iterate k+1 against a reference iteration from iterate k.
   what: 1 positivity, 2 residual contraction, 4 directions, centring and steps, 8 objective, 16 status and count, 32 start point,
   64 only the shifts of the start point, with the extreme slack at any row */
#define MN (3 * MX)
static double h_K[MN][MN], h_r[MN], h_M[MN][MN];
static double h_bound(const double *s, const double *d, long m)
{
    double a = 0; int hit = 0; long i;
    for (i = 0; i < m; i++) if (d[i] < 0) {
        double r = -(s[i] / d[i]);
        if (!hit || r < a) a = r;
        hit = 1;
    }
    return hit ? a : 1.0;
}
static void h_lu(long N)        /* K x = r, x in r */
{
    long i, j, k, b;
    double t;
    for (k = 0; k < N; k++) {
        b = k;
        for (i = k + 1; i < N; i++) if (fabs(h_M[i][k]) > fabs(h_M[b][k])) b = i;
        if (b != k) {
            for (j = k; j < N; j++) { t = h_M[k][j]; h_M[k][j] = h_M[b][j]; h_M[b][j] = t; }
            t = h_r[k]; h_r[k] = h_r[b]; h_r[b] = t;
        }
        for (i = k + 1; i < N; i++) if (h_M[i][k] != 0) {
            t = h_M[i][k] / h_M[k][k];
            for (j = k + 1; j < N; j++) if (h_M[k][j] != 0) h_M[i][j] -= t * h_M[k][j];
            h_r[i] -= t * h_r[k];
        }
    }
    for (k = N - 1; k >= 0; k--) {
        for (j = k + 1; j < N; j++) h_r[k] -= h_M[k][j] * h_r[j];
        h_r[k] /= h_M[k][k];
    }
}
static void h_kkt(prob *q, const double *d)     /* [P A' G'; A 0 0; G 0 -diag d] */
{
    long n = q->n, m = q->m, p = q->p, i, j, N = n + m + p;
    for (i = 0; i < N; i++) for (j = 0; j < N; j++) h_M[i][j] = 0;
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) h_M[i][j] = q->P[i][j];
    for (i = 0; i < p; i++) for (j = 0; j < n; j++) h_M[n + i][j] = h_M[j][n + i] = q->A[i][j];
    for (i = 0; i < m; i++) for (j = 0; j < n; j++) h_M[n + p + i][j] = h_M[j][n + p + i] = q->G[i][j];
    for (i = 0; i < m; i++) h_M[n + p + i][n + p + i] = -d[i];
}
/* direction for rhs (rx,ry,rz) and s dz + z ds = r */
static void h_dir(prob *q, const double *s, const double *z, const double *rx, const double *ry, const double *rz, const double *r, double *dx, double *dy, double *dz, double *ds)
{
    long n = q->n, m = q->m, p = q->p, i;
    double d[MX];
    for (i = 0; i < m; i++) d[i] = s[i] / z[i];
    h_kkt(q, d);
    for (i = 0; i < n; i++) h_r[i] = -rx[i];
    for (i = 0; i < p; i++) h_r[n + i] = -ry[i];
    for (i = 0; i < m; i++) h_r[n + p + i] = -rz[i] - r[i] / z[i];
    h_lu(n + m + p);
    for (i = 0; i < n; i++) dx[i] = h_r[i];
    for (i = 0; i < p; i++) dy[i] = h_r[n + i];
    for (i = 0; i < m; i++) { dz[i] = h_r[n + p + i]; ds[i] = (r[i] - s[i] * dz[i]) / z[i]; }
}
#define NEAR(a, b, msg) do { double b_ = (b); sym_near(a, b_, tol * (1 + fabs(b_)), msg); } while (0)
int harness(void)
{
    prob *q = &h_pb;
    long i, k, entry = sym_param("entry", 0), what = sym_param("what", 63), kmax = sym_param("kmax", 6), centre = sym_param("centre", 0);
    double x0[MX], y0[MX], z0[MX], s0[MX], rx[MX], ry[MX], rz[MX], r[MX], dx[MX], dy[MX], dz[MX], ds[MX], dsa[MX], dza[MX], mu, t, sg, ap, ad, tol = sym_paramd("tol", 1e-6);
    double sd = centre ? sym_paramd("sd", 0.25) : 0.0;
    h_problem(q);
    if (!sym_param("feas", 0)) h_feasible(q, sym_param("kk", 1));
    h_perm(q, sym_param("perm", 0));
    k = sym_param("kfix", -1);
    if (k < 0) k = sym_choose("k", kmax + 1);
    if (sym_param("late", 0)) { static const int at[] = {17, 25, 31, 32, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 199, 200, 254, 255, 256}; k = at[k]; }     /* kmax <= 19 */
    if (what == 64) {
        static const int at[] = {0, 1, 2, 15, 16, 31, 32, 33};
        long e = q->m > 33 ? at[sym_choose("e", 8)] : sym_choose("e", q->m);
        double d = sym_real_w("d", 1);
        double lo = 0, hi = 0, a[MX];
        sym_assume(d > -1e4); sym_assume(d < 1e4);
        q->h[e] += d;
        QP *w = h_setup(q, entry, 0.0);
        for (i = 0; i < q->m; i++) {
            a[i] = q->h[i];
            for (k = 0; k < q->n; k++) a[i] -= q->G[i][k] * w->x[k];
            if (!i || a[i] < lo) lo = a[i];
            if (!i || a[i] > hi) hi = a[i];
        }
        for (i = 0; i < q->m; i++) {
            sym_near(w->s[i], lo > 0 ? a[i] : a[i] + 1 - lo, 1e-6, "s is not the shifted start");
            sym_near(w->z[i], hi < 0 ? -a[i] : -a[i] + 1 + hi, 1e-6, "z is not the shifted start");
        }
        sym_reach("end");
        return 0;
    }
    QP *w = h_setup(q, entry, entry ? 0.0 : sd), *v = h_setup(q, entry, entry ? 0.0 : sd);
    if (centre) { w->sigma_d = v->sigma_d = sd; w->options->sigma = v->options->sigma = sd; }
    w->options->reltol = w->options->abstol = v->options->reltol = v->options->abstol = 0;
    w->options->maxit = k; v->options->maxit = k + 1;
    if (what & 32 && k == 0) {
        for (i = 0; i < q->m; i++) r[i] = 1;
        h_kkt(q, r);
        for (i = 0; i < q->n; i++) h_r[i] = -q->c[i];
        for (i = 0; i < q->p; i++) h_r[q->n + i] = q->b[i];
        for (i = 0; i < q->m; i++) h_r[q->n + q->p + i] = q->h[i];
        h_lu(q->n + q->m + q->p);
        double lo = 0, hi = 0;
        for (i = 0; i < q->n; i++) NEAR(w->x[i], h_r[i], "x is not the least-squares start");
        for (i = 0; i < q->p; i++) NEAR(w->y[i], h_r[q->n + i], "y is not the least-squares start");
        for (i = 0; i < q->m; i++) {
            t = -h_r[q->n + q->p + i];      /* h - Gx */
            if (!i || t < lo) lo = t;
            if (!i || t > hi) hi = t;
        }
        for (i = 0; i < q->m; i++) {
            t = -h_r[q->n + q->p + i];
            NEAR(w->s[i], lo > 0 ? t : t + 1 - lo, "s is not the shifted start");
            NEAR(w->z[i], hi < 0 ? -t : -t + 1 + hi, "z is not the shifted start");
        }
    }
    long f = QP_SOLVE(w);
    if (k && what & 16) {
        sym_check(f == QP_MAXIT, "a solve that met no test did not report the iteration limit");
        sym_check(w->stats->IterationCount == k, "the iteration count is not the number of steps");
    }
    mu = h_mu(q, w);
    if (mu < sym_paramd("mumin", 1e-5)) { sym_reach("late"); return 0; }
    sg = w->options->sigma;
    for (i = 0; i < q->n; i++) { x0[i] = w->x[i]; }
    for (i = 0; i < q->p; i++) { y0[i] = w->y[i]; }
    for (i = 0; i < q->m; i++) { z0[i] = w->z[i]; s0[i] = w->s[i]; }
    for (i = 0; i < q->n; i++) rx[i] = h_rx(q, x0, y0, z0, i);
    for (i = 0; i < q->p; i++) ry[i] = h_ry(q, x0, i);
    for (i = 0; i < q->m; i++) rz[i] = h_rz(q, x0, s0, i);
    QP_SOLVE(v);
    ap = v->stats->alpha_p; ad = v->stats->alpha_d;
    if (what & 1) for (i = 0; i < q->m; i++) {
        sym_check(s0[i] > 0 && v->s[i] > 0, "a slack is not strictly positive");
        sym_check(z0[i] > 0 && v->z[i] > 0, "an inequality multiplier is not strictly positive");
    }
    if (what & 2) {
        for (i = 0; i < q->m; i++) NEAR(h_rz(q, v->x, v->s, i), (1 - ap) * rz[i], "Gx+s-h is not scaled by 1-ap");
        for (i = 0; i < q->p; i++) NEAR(h_ry(q, v->x, i), (1 - ap) * ry[i], "Ax-b is not scaled by 1-ap");
        for (i = 0; i < q->n; i++) {
            double a = 0, b = 0; long j;
            for (j = 0; j < q->n; j++) a += q->P[i][j] * (v->x[j] - x0[j]);
            for (j = 0; j < q->p; j++) b += q->A[j][i] * (v->y[j] - y0[j]);
            for (j = 0; j < q->m; j++) b += q->G[j][i] * (v->z[j] - z0[j]);
            NEAR(ad * a + ap * b, -ap * ad * rx[i], "the dual residual is not contracted like a Newton step");
        }
    }
    if (what & 4) {
        for (i = 0; i < q->m; i++) r[i] = -(s0[i] * z0[i]);
        if (!centre) {
            h_dir(q, s0, z0, rx, ry, rz, r, dx, dy, dza, dsa);
            ap = h_bound(s0, dsa, q->m); ad = h_bound(z0, dza, q->m);
            for (t = 0, i = 0; i < q->m; i++) t += (s0[i] + ap * dsa[i]) * (z0[i] + ad * dza[i]);
            t = t / (mu * q->m);
            if (t > 1) t = 1;
            sg = t * t * t;
            if (sg < sd) sg = sd;
            for (i = 0; i < q->m; i++) r[i] -= dsa[i] * dza[i];
        } else sg = sd;
        for (i = 0; i < q->m; i++) r[i] += sg * mu;
        h_dir(q, s0, z0, rx, ry, rz, r, dx, dy, dz, ds);
        ap = 0.99 * h_bound(s0, ds, q->m); ad = 0.99 * h_bound(z0, dz, q->m);
        if (ap > 1) ap = 1;
        if (ad > 1) ad = 1;
        NEAR(v->options->sigma, sg, "sigma is not max(sigma_d, min(1,rho)^3)");
        NEAR(v->stats->alpha_p, ap, "the primal step is not min(1, 0.99 of the step to the boundary)");
        NEAR(v->stats->alpha_d, ad, "the dual step is not min(1, 0.99 of the step to the boundary)");
        for (i = 0; i < q->n; i++) NEAR(v->x[i], x0[i] + ap * dx[i], "x is not the next iterate");
        for (i = 0; i < q->p; i++) NEAR(v->y[i], y0[i] + ad * dy[i], "y is not the next iterate");
        for (i = 0; i < q->m; i++) NEAR(v->s[i], s0[i] + ap * ds[i], "s is not the next iterate");
        for (i = 0; i < q->m; i++) NEAR(v->z[i], z0[i] + ad * dz[i], "z is not the next iterate");
    }
    if (what & 8) {     /* stop exactly at iterate k+1: the objective refers to it */
        v->options->maxit = 1;
        v->options->reltol = v->options->abstol = 1e6;
        f = QP_SOLVE(v);
        sym_check(f == QP_OPTIMAL, "an iterate that meets the tests was not accepted");
        NEAR(v->stats->fval, h_obj(q, v->x), "the reported objective is not the objective of the returned point");
    }
    sym_reach("end");
    return 0;
}
