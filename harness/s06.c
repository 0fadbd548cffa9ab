#include "prob.h"
/* S06: the reported objective is that of the returned point */
int harness(void)
{
    prob *q = &h_pb;
    long i, entry = sym_param("entry", 0), mode = sym_param("mode", 0);
    sym_policy(1, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    QP *w = h_setup(q, entry, sym_param("centre", 0) ? 0.25 : 0.0);
    sym_policy(0, 0);
    w->options->verbose = sym_param("verbose", 0);
    if (mode == 0) {        /* accept any iterate */
        for (i = 0; i < q->n; i++) { q->c[i] = sym_real(h_name1('c', i)); w->x[i] = sym_real(h_name1('x', i)); }
        for (i = 0; i < q->p; i++) w->y[i] = 0.5;
        w->options->reltol = w->options->abstol = INFINITY;
        if (sym_param("symP", 0)) {    /* the sparse entry holds the caller's values by reference */
            long j, k = 0;
            for (j = 0; j < q->n; j++) for (i = 0; i < q->n; i++) if (q->pP[i][j]) {
                q->P[i][j] = i <= j ? sym_real(h_name2('P', i, j)) : 0;
                q->Ppr[k++] = 0;
            }
            for (j = 0; j < q->n; j++) for (i = 0; i < j; i++) q->P[j][i] = q->P[i][j];
            for (j = 0, k = 0; j < q->n; j++) for (i = 0; i < q->n; i++) if (q->pP[i][j]) q->Ppr[k++] = q->P[i][j];
        }
        for (i = 0; i < q->n; i++) { sym_assume((w->x[i] < 100) & (w->x[i] > -100)); sym_assume((q->c[i] < 100) & (q->c[i] > -100)); }
        sym_policy(0, 1);
        long f = QP_SOLVE(w);
        sym_policy(0, 0);
        sym_check(f == QP_OPTIMAL, "any iterate is optimal with such tolerances");
        sym_eq(w->stats->fval, h_obj(q, w->x), "the reported objective is not x'Px/2 + c'x at the returned x");
    } else {                /* whole solves, any tolerances, changed vectors */
        double r = sym_real_w("reltol", 1e-6), a = sym_real_w("abstol", 1e-6);
        sym_assume(r > 0); sym_assume(a > 0); sym_assume(r < 1000); sym_assume(a < 1000);
        w->options->reltol = r; w->options->abstol = a;
        w->options->maxit = sym_param("maxit", 8);
        for (long k = 0; k < 2; k++) {
            long f = QP_SOLVE(w);
            if (f == QP_OPTIMAL) { sym_reach("optimal"); sym_near(w->stats->fval, h_obj(q, w->x), 1e-9 * (1 + fabs(h_obj(q, w->x))), "the reported objective is not x'Px/2 + c'x at the returned x"); }
            for (i = 0; i < q->n; i++) q->c[i] += 0.5 - 0.25 * i;
        }
    }
    h_cleanup(w, entry);
    sym_reach("end");
    return 0;
}
