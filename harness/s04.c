#include "prob.h"
/* S04: one iteration contracts the caller's residuals like a Newton step (pivots not regularised) */
int harness(void)
{
    prob *q = &h_pb;
    long i, j, entry = sym_param("entry", 0), box = sym_param("box", 0), warm = sym_param("warm", 0);
    double x0[MX], y0[MX], z0[MX], s0[MX], rx[MX], ry[MX], rz[MX];
    sym_policy(1, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    QP *w = h_setup(q, entry, 0.0);
    double sd = sym_param("centre", 0) ? 0.25 : 0.0;
    if (sd > 0) { w->sigma_d = sd; w->options->sigma = sd; }
    if (warm) { w->options->maxit = warm; w->options->reltol = w->options->abstol = 0; QP_SOLVE(w); }
    h_symvec(q);
    if (box) {      /* concrete s, z; everything else arbitrary in a box */
        for (i = 0; i < q->n; i++) { w->x[i] = sym_real(h_name1('x', i)); sym_assume(w->x[i] <= 8); sym_assume(w->x[i] >= -8); }
        for (i = 0; i < q->p; i++) { w->y[i] = sym_real(h_name1('y', i)); sym_assume(w->y[i] <= 8); sym_assume(w->y[i] >= -8); }
        for (i = 0; i < q->n; i++) { sym_assume(q->c[i] <= 8); sym_assume(q->c[i] >= -8); }
        for (i = 0; i < q->m; i++) { sym_assume(q->h[i] <= 8); sym_assume(q->h[i] >= -8); }
        for (i = 0; i < q->p; i++) { sym_assume(q->b[i] <= 8); sym_assume(q->b[i] >= -8); }
        if (!warm) for (i = 0; i < q->m; i++) { w->s[i] = 0.75 + 0.5 * i; w->z[i] = 1.25 - 0.125 * i; }
    } else h_symiter(q, w, 1);
    w->options->reltol = 0;
    w->options->abstol = 0;
    w->options->maxit = 1;
    for (i = 0; i < q->n; i++) x0[i] = w->x[i];
    for (i = 0; i < q->p; i++) y0[i] = w->y[i];
    for (i = 0; i < q->m; i++) { z0[i] = w->z[i]; s0[i] = w->s[i]; }
    for (i = 0; i < q->n; i++) rx[i] = h_rx(q, x0, y0, z0, i);
    for (i = 0; i < q->p; i++) ry[i] = h_ry(q, x0, i);
    for (i = 0; i < q->m; i++) rz[i] = h_rz(q, x0, s0, i);
    sym_policy(0, 1);
    long f = QP_SOLVE(w);
    sym_policy(0, 0);
    sym_check(f == QP_MAXIT, "the iteration did not run");
    double ap = w->stats->alpha_p, ad = w->stats->alpha_d;
    for (i = 0; i < q->m; i++) {
        double r = h_rz(q, w->x, w->s, i);
        if (box) sym_near(r, (1 - ap) * rz[i], 1e-6, "Gx+s-h is not scaled by 1-ap");
        else sym_eq(r, (1 - ap) * rz[i], "Gx+s-h is not scaled by 1-ap");
    }
    for (i = 0; i < q->p; i++) {
        double r = h_ry(q, w->x, i);
        if (box) sym_near(r, (1 - ap) * ry[i], 1e-6, "Ax-b is not scaled by 1-ap");
        else sym_eq(r, (1 - ap) * ry[i], "Ax-b is not scaled by 1-ap");
    }
    for (i = 0; i < q->n; i++) {
        double a = 0, b = 0;
        for (j = 0; j < q->n; j++) if (q->pP[i][j]) a += q->P[i][j] * (w->x[j] - x0[j]);
        for (j = 0; j < q->p; j++) if (q->pA[j][i]) b += q->A[j][i] * (w->y[j] - y0[j]);
        for (j = 0; j < q->m; j++) if (q->pG[j][i]) b += q->G[j][i] * (w->z[j] - z0[j]);
        if (box) sym_near(ad * a + ap * b, -ap * ad * rx[i], 1e-6, "the dual residual is not contracted like a Newton step");
        else sym_eq(ad * a + ap * b, -ap * ad * rx[i], "the dual residual is not contracted like a Newton step");
    }
    sym_reach("end");
    return 0;
}
