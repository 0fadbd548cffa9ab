#include "prob.h"
/* S05: centring, corrector and step lengths of one iteration */
static double h_max(double a, double b) { return a > b ? a : b; }
static double h_bound(const double *s, const double *d, long m)   /* largest step keeping s >= 0; 1 when nothing blocks */
{
    double a = 0; int hit = 0; long i;
    for (i = 0; i < m; i++) if (d[i] < 0) {
        double r = -(s[i] / d[i]);
        if (!hit || r < a) a = r;
        hit = 1;
    }
    return hit ? a : 1.0;
}
#define FAR 1e9
int harness(void)
{
    prob *q = &h_pb;
    long i, entry = sym_param("entry", 0), sz = sym_param("sz", 0), sx = sym_param("sx", 0), vec = sym_param("vec", 1);
    double s0[MX], z0[MX], dsa[MX], dza[MX];
    sym_policy(1, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    QP *w = h_setup(q, entry, 0.0), *v = h_setup(q, entry, 0.0);
    sym_policy(0, 0);
    if (vec == 1) h_symvec(q);
    else if (vec == 2) q->h[0] = sym_real("h0");
    else if (vec == 3) { q->h[0] = sym_real("h0"); q->c[0] = sym_real("c0"); }
    if (sz) h_symiter(q, w, 0);
    else {      /* products with exact roots */
        static const double S[4] = {0.5, 1.125, 2.0, 0.75}, Z[4] = {2.0, 0.5, 0.125, 3.0};
        for (i = 0; i < q->m; i++) { w->s[i] = S[i % 4]; w->z[i] = Z[i % 4]; }
    }
    for (i = 0; i < q->n; i++) w->x[i] = sx ? sym_real(h_name1('x', i)) : 0.5 - 0.25 * i;
    for (i = 0; i < q->p; i++) w->y[i] = sx ? sym_real(h_name1('y', i)) : 0.25 + 0.5 * i;
    double sd = sym_real_w("sigma_d", 0.0625), mu = 0;
    sym_assume(sd >= 0); sym_assume(sd < 100);
    long centre = sym_param("centre", 0);
    double s00 = centre ? sd : 100.0;
    for (i = 0; i < q->m; i++) { s0[i] = w->s[i]; z0[i] = w->z[i]; mu += s0[i] * z0[i]; }
    mu = mu / q->m;
    w->sigma_d = sd; w->options->sigma = s00;
    for (i = 0; i < q->n; i++) v->x[i] = w->x[i];
    for (i = 0; i < q->p; i++) v->y[i] = w->y[i];
    for (i = 0; i < q->m; i++) { v->s[i] = w->s[i]; v->z[i] = w->z[i]; }
    w->options->maxit = v->options->maxit = 1;
    w->options->reltol = w->options->abstol = v->options->reltol = v->options->abstol = 0;
    if (!centre) {          /* the predictor is the centring step with sigma 0 */
        v->sigma_d = 0; v->options->sigma = 0;
        sym_policy(0, 1);
        QP_SOLVE(v);
        for (i = 0; i < q->m; i++) { dsa[i] = v->delta_s[i]; dza[i] = v->delta_z[i]; }
        for (i = 0; i < q->m; i++) sym_eq(s0[i] * dza[i] + z0[i] * dsa[i], -(s0[i] * z0[i]), "centring step with sigma 0 is not a pure Newton step");
    }
    sym_policy(0, sym_param("merge", 0));
    QP_SOLVE(w);
    double sg = w->options->sigma;
    for (i = 0; i < q->m; i++) {
        double t = s0[i] * w->delta_z[i] + z0[i] * w->delta_s[i];
        double e = -(s0[i] * z0[i]) + sg * mu;
        if (!centre) e = e - dsa[i] * dza[i];
        sym_eq(t, e, "s dz + z ds is not the centred (and corrected) right-hand side");
    }
    if (centre) sym_same(sg, sd, "the centring mode does not use sigma_d");
    else if (sym_param("rho", 1)) {
        double ap = h_bound(s0, dsa, q->m), ad = h_bound(z0, dza, q->m), t = 0;
        if (ap > FAR || ad > FAR) { sym_reach("far"); return 0; }
        for (i = 0; i < q->m; i++) t += (s0[i] + ap * dsa[i]) * (z0[i] + ad * dza[i]);
        double rho = t / (mu * q->m);
        double r = rho < 1 ? rho : 1.0;
        r = r * r * r;
        sym_eq(sg, h_max(sd, r), "sigma is not max(sigma_d, min(1,rho)^3)");
    }
    if (sym_param("len", 1)) {
        double ap = h_bound(s0, w->delta_s, q->m), ad = h_bound(z0, w->delta_z, q->m);
        if (ap > FAR || ad > FAR) { sym_reach("far"); return 0; }
        ap = 0.99 * ap; ad = 0.99 * ad;
        sym_eq(w->stats->alpha_p, ap < 1 ? ap : 1.0, "the primal step is not min(1, 0.99 of the step to the boundary)");
        sym_eq(w->stats->alpha_d, ad < 1 ? ad : 1.0, "the dual step is not min(1, 0.99 of the step to the boundary)");
        for (i = 0; i < q->m; i++) sym_eq(w->s[i], s0[i] + w->stats->alpha_p * w->delta_s[i], "s is not updated by the primal step");
        for (i = 0; i < q->m; i++) sym_eq(w->z[i], z0[i] + w->stats->alpha_d * w->delta_z[i], "z is not updated by the dual step");
    }
    sym_reach("end");
    return 0;
}
