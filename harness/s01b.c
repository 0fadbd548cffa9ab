#include "prob.h"
/* S01 along whole solves: concrete problem, symbolic tolerances and iteration limit. A second instance, advanced one
   iteration at a time with tolerances nothing meets, supplies the iterates to test. */
int harness(void)
{
    prob *q = &h_pb;
    long i, k, entry = sym_param("entry", 0), kmax = sym_param("kmax", 6), kfrom = sym_param("kfrom", 0);
    sym_policy(0, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    double sd = sym_param("centre", 0) ? sym_paramd("sd", 0.125) : 0.0;
    QP *w = h_setup(q, entry, sd), *r = h_setup(q, entry, sd);
    if (sd > 0) { w->sigma_d = r->sigma_d = sd; w->options->sigma = r->options->sigma = sd; }
    double rt = sym_real_w("reltol", 1e-3), at = sym_real_w("abstol", 1e-3);
    sym_assume(rt > 0 );
    sym_assume(at > 0 );
    sym_assume(rt < 1000);
    sym_assume(at < sym_paramd("atmax", 1000));
    w->options->reltol = rt;
    w->options->abstol = at;
    w->options->maxit = kmax;
    w->options->verbose = sym_param("verbose", 0);
    double tol = rt / sqrt(3.0);
    long f = QP_SOLVE(w), it = w->stats->IterationCount, first = -1;
    double nx, ny, nz, mu;
    if (kfrom) {        /* the earlier iterates cannot meet the tests: skip them */
        if (kfrom > it) kfrom = it;
        r->options->maxit = kfrom;
        r->options->reltol = r->options->abstol = 0;
        QP_SOLVE(r);
        r->stats->Flag = QP_FATAL;
    }
    for (k = kfrom; k <= it; k++) {
        if (k == it) {
            for (i = 0; i < q->n; i++) sym_eq(w->x[i], r->x[i], "x is not the iterate at the reported count");
            for (i = 0; i < q->m; i++) sym_eq(w->s[i], r->s[i], "s is not the iterate at the reported count");
            for (i = 0; i < q->m; i++) sym_eq(w->z[i], r->z[i], "z is not the iterate at the reported count");
            for (i = 0; i < q->p; i++) sym_eq(w->y[i], r->y[i], "y is not the iterate at the reported count");
            if (f != QP_OPTIMAL) break;
        }
        nx = h_norm_rx(q, r), ny = q->p ? h_norm_ry(q, r) : 0.0, nz = h_norm_rz(q, r), mu = h_mu(q, r);
        if (k < it) {
            sym_check(!((nx < tol * (1 - 1e-6) - 1e-12) & (ny < tol * (1 - 1e-6) - 1e-12) & (nz < tol * (1 - 1e-6) - 1e-12) & (mu < at * (1 - 1e-6))),
                      "an earlier iterate meets all optimality tests but the solve went on");
        } else {
            sym_check(nx < tol * (1 + 1e-6) + 1e-12, "optimal but ||Px+c+A'y+G'z|| is not below reltol/sqrt(3)");
            sym_check(ny < tol * (1 + 1e-6) + 1e-12, "optimal but ||Ax-b|| is not below reltol/sqrt(3)");
            sym_check(nz < tol * (1 + 1e-6) + 1e-12, "optimal but ||Gx+s-h|| is not below reltol/sqrt(3)");
            sym_check(mu < at * (1 + 1e-6), "optimal but s'z/m is not below abstol");
            sym_reach("optimal");
        }
        if (k < it) {
            r->options->maxit = 1;
            r->options->reltol = 0;
            r->options->abstol = 0;
            r->stats->IterationCount = k;
            QP_SOLVE(r);
        }
    }
    sym_reach("end");
    return 0;
}
