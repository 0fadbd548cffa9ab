#include "prob.h"
#include "Auxilary.h"
/* S05: the step rule for every search direction (the two linear solves are replaced by arbitrary directions) */
static double h_dsa[MX], h_dza[MX], h_ds[MX];
static long h_base, h_p1, h_p2, h_skip;       /* the first h_skip iterations get zero directions: nothing moves */
extern qp_int __real_kktsolve_1(QP *w);
extern void __real_kktsolve_2(QP *w);
static void h_dir(QP *w, char a, int conc)
{
    long i;
    if (conc) { for (i = 0; i < w->m; i++) { w->delta_s[i] = 0.25 - 0.5 * i; w->delta_z[i] = 0.5 * i - 0.25; } return; }
    long nf = sym_param("nf", MX);
    for (i = 0; i < w->m; i++) {
        if (i >= h_base && i < h_base + nf) { w->delta_s[i] = sym_real(h_nameb(a, 's', i)); w->delta_z[i] = sym_real(h_nameb(a, 'z', i)); }
        else { w->delta_s[i] = i % 2 ? -1.5 : 0.75; w->delta_z[i] = i % 2 ? 0.5 : -0.25; }
    }
}
qp_int __wrap_kktsolve_1(QP *w)
{
    long i;
    h_p1++;
    if (h_p1 <= h_skip) { for (i = 0; i < w->m; i++) w->delta_s[i] = w->delta_z[i] = 0; return 1; }
    h_dir(w, 'a', sym_param("what", 0) >= 2);
    for (i = 0; i < w->m; i++) { h_dsa[i] = w->delta_s[i]; h_dza[i] = w->delta_z[i]; }
    return 1;
}
void __wrap_kktsolve_2(QP *w)
{
    long i;
    h_p2++;
    if (h_p2 <= h_skip) {
        for (i = 0; i < w->m; i++) w->delta_s[i] = w->delta_z[i] = 0;
        for (i = 0; i < w->n; i++) w->delta_x[i] = 0;
        for (i = 0; i < w->p; i++) w->delta_y[i] = 0;
        return;
    }
    for (i = 0; i < w->m; i++) h_ds[i] = w->ds[i];
    for (i = 0; i < w->n; i++) w->delta_x[i] = sym_real(h_nameb('d', 'x', i));
    for (i = 0; i < w->p; i++) w->delta_y[i] = sym_real(h_nameb('d', 'y', i));
    h_dir(w, 'd', sym_param("what", 0) < 2);
}
static double h_bound(const double *s, const double *d, long m)   /* largest step keeping s >= 0; 1 when nothing blocks */
{
    double a = 0; int hit = 0; long i;
    for (i = 0; i < m; i++) if (d[i] < 0) {
        double r = -(s[i] / d[i]);
        if (!hit || r < a) a = r;
        hit = 1;
    }
    return hit ? a : 1.0;
}
#define FAR 1e9
int harness(void)
{
    prob *q = &h_pb;
    long i, entry = sym_param("entry", 0), sz = sym_param("sz", 1), what = sym_param("what", 0), centre = sym_param("centre", 0);
    double s0[MX], z0[MX], x0[MX], y0[MX], mu = 0;
    sym_policy(1, 0);
    h_problem(q);
    QP *w = h_setup(q, entry, 0.0);
    sym_policy(0, 0);
    if (sz) h_symiter(q, w, 0);
    else {      /* products with exact roots */
        static const double S[4] = {0.5, 1.125, 2.0, 0.75}, Z[4] = {2.0, 0.5, 0.125, 3.0};
        for (i = 0; i < q->m; i++) { w->s[i] = S[i % 4]; w->z[i] = Z[i % 4]; }
    }
    for (i = 0; i < q->n; i++) x0[i] = w->x[i];
    for (i = 0; i < q->p; i++) y0[i] = w->y[i];
    double sd = sym_param("sdc", 0) ? 0.0625 : sym_real_w("sigma_d", 0.0625), so = sym_real_w("sigma", 2);
    sym_assume(sd >= 0); sym_assume(sd < 100);
    if (sym_param("slide", 0)) h_base = sym_choose("base", q->m);
    h_skip = sym_param("skip", 0);
    if (h_skip && !centre) sym_assume(sd < 1);
    if (centre) sym_assume(so <= sd); else sym_assume(so > sd);
    for (i = 0; i < q->m; i++) { s0[i] = w->s[i]; z0[i] = w->z[i]; mu += s0[i] * z0[i]; }
    mu = mu / q->m;
    w->sigma_d = sd; w->options->sigma = so;
    w->options->maxit = h_skip + 1;
    w->options->reltol = w->options->abstol = 0;
    sym_policy(0, sym_param("merge", 0));
    QP_SOLVE(w);
    sym_policy(0, 0);
    if (!h_p2) { sym_reach("none"); return 0; }
    sym_check(h_p1 == (centre ? 0 : h_skip + 1) && h_p2 == h_skip + 1, "the predictor is taken exactly when sigma > sigma_d");
    double sg = w->options->sigma, ap = w->stats->alpha_p, ad = w->stats->alpha_d;
    if (what == 0) {        /* the rule for sigma */
        if (centre) sym_same(sg, sd, "the centring mode does not use sigma_d");
        else {
            double a = h_bound(s0, h_dsa, q->m), b = h_bound(z0, h_dza, q->m), t = 0;
            if (a > FAR || b > FAR) { sym_reach("far"); return 0; }
            for (i = 0; i < q->m; i++) t += (s0[i] + a * h_dsa[i]) * (z0[i] + b * h_dza[i]);
            /* rho = t / (m mu) */
            double T = q->m * mu;
            if (t >= T) { sym_reach("cap"); sym_eq(sg, sd > 1 ? sd : 1.0, "sigma is not max(sigma_d, 1) when the predictor does not reduce s'z"); }
            else {
                double r = t / T;
                if (r * r * r > sd) { sym_reach("rho"); sym_eq(sg, r * r * r, "sigma is not rho^3"); }
                else { sym_reach("floor"); sym_eq(sg, sd, "sigma is not sigma_d although rho^3 is below it"); }
            }
        }
    } else if (what == 1) { /* the right-hand side handed to the second solve */
        for (i = 0; i < q->m; i++) {
            double e = -(s0[i] * z0[i]) + sg * mu;
            if (!centre) e = e - h_dsa[i] * h_dza[i];
            sym_eq(h_ds[i], e, "the complementarity right-hand side is not -s z (- dsa dza) + sigma mu");
        }
    } else if (what == 3) { /* S03 */
        for (i = 0; i < q->m; i++) sym_check(w->s[i] > 0, "a slack is not positive after an iteration");
        for (i = 0; i < q->m; i++) sym_check(w->z[i] > 0, "a multiplier is not positive after an iteration");
        sym_check((ap > 0) & (ap <= 1) & (ad > 0) & (ad <= 1), "a step outside (0,1]");
    } else {                /* lengths and updates */
        double a = h_bound(s0, w->delta_s, q->m), b = h_bound(z0, w->delta_z, q->m);
        if (a > FAR || b > FAR) { sym_reach("far"); return 0; }
        a = 0.99 * a; b = 0.99 * b;
        sym_eq(ap, a < 1 ? a : 1.0, "the primal step is not min(1, 0.99 of the step to the boundary)");
        sym_eq(ad, b < 1 ? b : 1.0, "the dual step is not min(1, 0.99 of the step to the boundary)");
        for (i = 0; i < q->n; i++) sym_eq(w->x[i], x0[i] + ap * w->delta_x[i], "x is not updated by the primal step");
        for (i = 0; i < q->p; i++) sym_eq(w->y[i], y0[i] + ad * w->delta_y[i], "y is not updated by the dual step");
        for (i = 0; i < q->m; i++) sym_eq(w->s[i], s0[i] + ap * w->delta_s[i], "s is not updated by the primal step");
        for (i = 0; i < q->m; i++) sym_eq(w->z[i], z0[i] + ad * w->delta_z[i], "z is not updated by the dual step");
    }
    sym_reach("end");
    return 0;
}
