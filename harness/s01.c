#include "prob.h"
/* S01: optimal <=> the four tests on the caller's data */
int harness(void)
{
    prob *q = &h_pb;
    long i, entry = sym_param("entry", 0), maxit = sym_param("maxit", 1);
    double x0[MX], y0[MX], z0[MX], s0[MX];
    sym_policy(1, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    QP *w = h_setup(q, entry, 0.0);
    sym_policy(0, 0);
    h_symvec(q);
    h_symiter(q, w, 1);
    double rt = sym_real_w("reltol", 0.75), at = sym_real_w("abstol", 0.5);
    sym_assume(rt > 0);
    sym_assume(at > 0);
    w->options->reltol = rt;
    w->options->abstol = at;
    w->options->maxit = maxit;
    if (sym_param("centre", 0)) { w->sigma_d = 0.25; w->options->sigma = 0.25; }
    w->options->verbose = sym_param("verbose", 0);
    long k0 = sym_int("count", 2, 1000);    /* iterations done before */
    w->stats->IterationCount = k0;
    for (i = 0; i < q->n; i++) x0[i] = w->x[i];
    for (i = 0; i < q->p; i++) y0[i] = w->y[i];
    for (i = 0; i < q->m; i++) { z0[i] = w->z[i]; s0[i] = w->s[i]; }
    double nx = h_norm_rx(q, w), ny = q->p ? h_norm_ry(q, w) : 0.0, nz = h_norm_rz(q, w), mu = h_mu(q, w);
    double tol = rt / sqrt(3.0);
    sym_policy(0, 1);
    long f = QP_SOLVE(w);
    sym_policy(0, 0);
    if (f == QP_OPTIMAL) {
        if (w->stats->IterationCount == k0) {
            sym_reach("optimal");
            for (i = 0; i < q->n; i++) sym_same(w->x[i], x0[i], "x changed although accepted as optimal");
            for (i = 0; i < q->p; i++) sym_same(w->y[i], y0[i], "y changed although accepted as optimal");
            for (i = 0; i < q->m; i++) sym_same(w->z[i], z0[i], "z changed although accepted as optimal");
            for (i = 0; i < q->m; i++) sym_same(w->s[i], s0[i], "s changed although accepted as optimal");
        } else {
            sym_reach("optimal-later");
            nx = h_norm_rx(q, w), ny = q->p ? h_norm_ry(q, w) : 0.0, nz = h_norm_rz(q, w), mu = h_mu(q, w);
        }
        sym_check(nx < tol * (1 + 1e-9), "optimal but ||Px+c+A'y+G'z|| is not below reltol/sqrt(3)");
        if (q->p) sym_check(ny < tol * (1 + 1e-9), "optimal but ||Ax-b|| is not below reltol/sqrt(3)");
        sym_check(nz < tol * (1 + 1e-9), "optimal but ||Gx+s-h|| is not below reltol/sqrt(3)");
        sym_check(mu < at * (1 + 1e-9), "optimal but s'z/m is not below abstol");
    }
    if (f != QP_OPTIMAL || w->stats->IterationCount > k0) {
        sym_reach("not-optimal");
        int a = nx < tol * (1 - 1e-9), b = q->p ? ny < tol * (1 - 1e-9) : 1, c = nz < tol * (1 - 1e-9), d = mu < at * (1 - 1e-9);
        if (f != QP_OPTIMAL || maxit == 1)
            sym_check(!(a & b & c & d), "the iterate meets all optimality tests but was not accepted");
    }
    sym_reach("end");
    return 0;
}
