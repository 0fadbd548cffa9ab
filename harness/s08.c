#include "prob.h"
/* S08: solving again, and after the caller changed c, h, b in place */
static double h_ox[MX], h_oy[MX], h_oz[MX], h_os[MX];
static void h_save(prob *q, QP *w)
{
    long i;
    for (i = 0; i < q->n; i++) h_ox[i] = w->x[i];
    for (i = 0; i < q->p; i++) h_oy[i] = w->y[i];
    for (i = 0; i < q->m; i++) { h_oz[i] = w->z[i]; h_os[i] = w->s[i]; }
}
static void h_unchanged(prob *q, QP *w)
{
    long i;
    for (i = 0; i < q->n; i++) sym_same(w->x[i], h_ox[i], "re-solving changed x");
    for (i = 0; i < q->p; i++) sym_same(w->y[i], h_oy[i], "re-solving changed y");
    for (i = 0; i < q->m; i++) sym_same(w->z[i], h_oz[i], "re-solving changed z");
    for (i = 0; i < q->m; i++) sym_same(w->s[i], h_os[i], "re-solving changed s");
}
static void h_truth(prob *q, QP *w, long f, double rt, double at, double mar)
{
    double tol = rt / sqrt(3.0), nx = h_norm_rx(q, w), ny = q->p ? h_norm_ry(q, w) : 0.0, nz = h_norm_rz(q, w), mu = h_mu(q, w);
    if (f == QP_OPTIMAL) {
        sym_check(nx < tol * (1 + mar) + 1e-9, "optimal, but not for the current c (dual residual)");
        if (q->p) sym_check(ny < tol * (1 + mar) + 1e-9, "optimal, but not for the current b");
        sym_check(nz < tol * (1 + mar) + 1e-9, "optimal, but not for the current h");
        sym_check(mu < at * (1 + mar) + 1e-9, "optimal, but s'z/m is not below abstol");
    }
}
int harness(void)
{
    prob *q = &h_pb;
    long i, k, entry = sym_param("entry", 0), mode = sym_param("mode", 0);
    sym_policy(1, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    QP *w = h_setup(q, entry, sym_param("centre", 0) ? 0.25 : 0.0);
    long f = QP_SOLVE(w), it;
    sym_check(f == QP_OPTIMAL, "the sample problem is not solved");
    sym_policy(0, 0);
    if (mode == 0) {        /* then arbitrary vectors and tolerances */
        long which = sym_choose("which", q->p ? 3 : 2);
        long one = sym_choose("one", which == 0 ? q->n : which == 1 ? q->m : q->p);
        if (which == 0) q->c[one % q->n] = sym_real("c");
        if (which == 1) q->h[one % q->m] = sym_real("h");
        if (which == 2) q->b[one % q->p] = sym_real("b");
        for (i = 0; i < q->n; i++) sym_assume((q->c[i] < 100) & (q->c[i] > -100));
        for (i = 0; i < q->m; i++) sym_assume((q->h[i] < 100) & (q->h[i] > -100));
        for (i = 0; i < q->p; i++) sym_assume((q->b[i] < 100) & (q->b[i] > -100));
        double rt = sym_real_w("reltol", 0.75), at = sym_real_w("abstol", 0.5);
        sym_assume(rt > 0); sym_assume(at > 0);
        w->options->reltol = rt; w->options->abstol = at; w->options->maxit = 1;
        h_save(q, w);
        it = w->stats->IterationCount;
        double tol = rt / sqrt(3.0), nx = h_norm_rx(q, w), ny = q->p ? h_norm_ry(q, w) : 0.0, nz = h_norm_rz(q, w), mu = h_mu(q, w);
        sym_policy(0, 1);
        f = QP_SOLVE(w);
        sym_policy(0, 0);
        if (f == QP_OPTIMAL) { sym_reach("optimal"); h_unchanged(q, w); sym_check(w->stats->IterationCount == it, "an accepted point counts as an iteration"); h_truth(q, w, f, rt, at, 1e-6); }
        else {
            sym_reach("stepped");
            int a = nx < tol * (1 - 1e-6) - 1e-9, b = q->p ? ny < tol * (1 - 1e-6) - 1e-9 : 1, c = nz < tol * (1 - 1e-6) - 1e-9, d = mu < at * (1 - 1e-6) - 1e-9;
            sym_check(!(a & b & c & d), "the point is optimal for the changed data but was not accepted");
        }
    } else if (mode == 2) { /* a long history: every vector changed in turn, each solve repeated */
        double rt = sym_real_w("reltol", 1e-6), at = sym_real_w("abstol", 1e-6);
        sym_assume((rt > 1e-7) & (rt < 1e-5)); sym_assume((at > 1e-7) & (at < 1e-5));
        long K = sym_param("K", 12);
        w->options->reltol = rt; w->options->abstol = at;
        for (k = 0; k < K; k++) {
            double sg = k & 1 ? -1 : 1;
            if (k % 3 == 0) for (i = 0; i < q->n; i++) q->c[i] += sg * 0.125 * (1 + i % 4);
            else if (k % 3 == 1) for (i = 0; i < q->m; i++) q->h[i] += 0.125 * (1 + i % 3);
            else for (i = 0; i < q->p; i++) q->b[i] += sg * 0.03125;
            f = QP_SOLVE(w);
            h_truth(q, w, f, rt, at, 1e-6);
            if (f == QP_OPTIMAL) {
                sym_reach("optimal");
                h_save(q, w);
                it = w->stats->IterationCount;
                f = QP_SOLVE(w);
                sym_check(f == QP_OPTIMAL && w->stats->IterationCount == it, "re-solving an optimal problem is not optimal at once");
                h_unchanged(q, w);
            }
        }
    } else {                /* histories of solves, changes and restored vectors, any tolerance at each solve */
        long K = sym_param("K", 3);
        double rt = w->options->reltol, at = w->options->abstol;
        int fresh = 1;
        for (k = 0; k < K; k++) {
            long op = sym_choose(h_name1('o', k), q->p ? 5 : 4);
            if (op == 0) {          /* solve */
                h_save(q, w);
                it = w->stats->IterationCount;
                f = QP_SOLVE(w);
                if (fresh) {
                    sym_reach("idem");
                    sym_check(f == QP_OPTIMAL, "re-solving an optimal problem is not optimal");
                    sym_check(w->stats->IterationCount == it, "re-solving an optimal problem iterates");
                    h_unchanged(q, w);
                }
                if (f == QP_OPTIMAL) sym_reach("optimal");
                h_truth(q, w, f, rt, at, 1e-6);
                fresh = f == QP_OPTIMAL;
            } else if (op == 1) { q->c[k % q->n] += 0.375; fresh = 0; }
            else if (op == 2) { q->h[k % q->m] -= 0.0625; fresh = 0; }
            else if (op == 3) {     /* any tolerance within (0, 0.1) */
                rt = sym_real_w(h_name1('r', k), 1e-5); at = sym_real_w(h_name1('t', k), 1e-5);
                sym_assume((rt > 0) & (rt < 0.1)); sym_assume((at > 0) & (at < 0.1));
                w->options->reltol = rt; w->options->abstol = at; fresh = 0;
                w->options->maxit = sym_param("maxit", 6);
            } else { q->b[0] += 0.125; fresh = 0; }
        }
        h_save(q, w);
        f = QP_SOLVE(w);
        h_truth(q, w, f, rt, at, 1e-6);
        if (f == QP_OPTIMAL) {
            sym_reach("optimal");
            h_save(q, w);
            it = w->stats->IterationCount;
            f = QP_SOLVE(w);
            sym_check(f == QP_OPTIMAL && w->stats->IterationCount == it, "re-solving an optimal problem is not optimal at once");
            h_unchanged(q, w);
        }
    }
    h_cleanup(w, entry);
    sym_reach("end");
    return 0;
}
