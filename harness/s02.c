#include "prob.h"
/* S02: truthful status and iteration count over sequences of solves */
int harness(void)
{
    prob *q = &h_pb;
    long i, k, entry = sym_param("entry", 0), K = sym_param("K", 2), lim = sym_param("lim", 4), bad = sym_param("bad", 0);
    double sd = sym_param("centre", 0) ? sym_paramd("sd", 0.125) : 0.0, tmax = sym_paramd("tmax", 100);
    sym_policy(0, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    if (bad == 2) {     /* a non-finite number somewhere in the data given to setup */
        double v = sym_choose("badval", 3) == 0 ? NAN : INFINITY;
        long w = sym_choose("badwhere", 3 + (q->p > 0));
        if (w == 0) q->c[0] = v; else if (w == 1) q->h[q->m - 1] = v; else if (w == 2) q->Gpr[0] = q->G[0][0] = v; else q->b[0] = v;
    }
    QP *w = h_setup(q, entry, sd);
    if (sd > 0) { w->sigma_d = sd; w->options->sigma = sd; }
    w->options->verbose = sym_param("verbose", 0);
    int ever_bad = bad == 2;
    for (k = 0; k < K; k++) {
        long mi = sym_param("lbase", 0) + sym_choose("maxit", lim + 1);
        double rt = sym_real_w("reltol", tmax * 1e-4), at = sym_real_w("abstol", tmax * 1e-4);
        sym_assume(rt > 0); sym_assume(at > 0);
        sym_assume(rt < tmax); sym_assume(at < tmax);
        w->options->maxit = mi;
        w->options->reltol = rt;
        w->options->abstol = at;
        if (bad == 1 && k == K - 1) {   /* or in the data or iterate before a later solve */
            double v = sym_choose("badval", 3) == 0 ? NAN : INFINITY;
            long wh = sym_choose("badwhere", 5);
            if (wh == 0) q->c[q->n - 1] = v; else if (wh == 1) q->h[0] = v; else if (wh == 2) w->x[0] = v;
            else if (wh == 3) w->z[q->m - 1] = v; else w->s[0] = v;
            ever_bad = 1;
        }
        long c0 = w->stats->IterationCount;
        double z0[MX], x0[MX];
        for (i = 0; i < q->m; i++) z0[i] = w->z[i];
        for (i = 0; i < q->n; i++) x0[i] = w->x[i];
        long f = QP_SOLVE(w);
        long st = w->stats->IterationCount - c0;
        sym_check(f == w->stats->Flag, "the returned status differs from the recorded one");
        sym_check(st >= 0 && st <= mi, "more iterations than maxit, or a count going back");
        sym_check(f == QP_OPTIMAL || f == QP_MAXIT || f == QP_KKTFAIL, "a solve ended without a final status");
        sym_check((f == QP_MAXIT) == (f != QP_OPTIMAL && f != QP_KKTFAIL && st == mi), "status MAXIT does not mean all iterations were used");
        if (f == QP_MAXIT) { sym_check(st == mi, "status MAXIT but fewer iterations were recorded"); sym_reach("maxit"); }
        if (f == QP_OPTIMAL) {
            sym_check(st < mi, "optimal although the limit left no room for the test");
            sym_check(!ever_bad, "optimal for an iterate with non-finite data");
            double tol = rt / sqrt(3.0);
            double nx = h_norm_rx(q, w), ny = q->p ? h_norm_ry(q, w) : 0.0, nz = h_norm_rz(q, w), mu = h_mu(q, w);
            sym_check(nx < tol * (1 + 1e-6) + 1e-12, "optimal but the dual residual fails the test in force");
            sym_check(ny < tol * (1 + 1e-6) + 1e-12, "optimal but the equality residual fails the test in force");
            sym_check(nz < tol * (1 + 1e-6) + 1e-12, "optimal but the inequality residual fails the test in force");
            sym_check(mu < at * (1 + 1e-6), "optimal but s'z/m fails the test in force");
            sym_reach("optimal");
        }
        if (st == 0) for (i = 0; i < q->n; i++) sym_same(w->x[i], x0[i], "x moved although no iteration was counted");
        if (st == 0) for (i = 0; i < q->m; i++) sym_same(w->z[i], z0[i], "z moved although no iteration was counted");
        if (st > 0 && !ever_bad) {
            int mv = 0;
            for (i = 0; i < q->m; i++) mv |= w->z[i] != z0[i];
            for (i = 0; i < q->n; i++) mv |= w->x[i] != x0[i];
            sym_check(mv, "iterations were counted but nothing moved");
        }
    }
    if (sym_param("fail", 0)) {     /* a failed factorisation at setup is final and reported */
        w->stats->Flag = QP_KKTFAIL;
        long c0 = w->stats->IterationCount, f;
        f = QP_SOLVE(w);
        sym_check(f == QP_KKTFAIL && w->stats->Flag == QP_KKTFAIL, "a failed setup is not reported by the solve");
        sym_check(w->stats->IterationCount == c0, "iterations after a failed setup");
    }
    sym_reach("end");
    h_cleanup(w, entry);
    return 0;
}
