#include "prob.h"
/* S07: the least-squares start (exact arithmetic over the rationals) */
int harness(void)
{
    prob *q = &h_pb;
    long i, j, entry = sym_param("entry", 0);
    sym_policy(1, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    if (sym_param("vec", 1) == 1) h_symvec(q);
    else q->h[0] = sym_real("h0"), q->h[q->m - 1] = sym_real("h9");
    sym_policy(0, sym_param("merge", 0));
    QP *w = h_setup(q, entry, 0.0);
    sym_policy(0, 0);
    double v[MX];
    for (i = 0; i < q->m; i++) { v[i] = q->h[i]; for (j = 0; j < q->n; j++) if (q->pG[i][j]) v[i] -= q->G[i][j] * w->x[j]; }
    for (i = 0; i < q->n; i++) {
        double r = q->c[i];
        for (j = 0; j < q->n; j++) if (q->pP[i][j]) r += q->P[i][j] * w->x[j];
        for (j = 0; j < q->p; j++) if (q->pA[j][i]) r += q->A[j][i] * w->y[j];
        for (j = 0; j < q->m; j++) if (q->pG[j][i]) r -= q->G[j][i] * v[j];
        sym_eq(r, 0.0, "x, y do not solve the start system (first block)");
    }
    for (i = 0; i < q->p; i++) sym_eq(h_ry(q, w->x, i), 0.0, "the start does not satisfy Ax = b");
    if (sym_param("shift", 1)) {
        double lo = v[0], hi = v[0];
        for (i = 1; i < q->m; i++) { if (v[i] < lo) lo = v[i]; if (v[i] > hi) hi = v[i]; }
        if (lo > 0) { sym_reach("s-plain"); for (i = 0; i < q->m; i++) sym_eq(w->s[i], v[i], "s is not h - Gx although that is positive"); }
        else if (lo < 0) { sym_reach("s-shift"); for (i = 0; i < q->m; i++) sym_eq(w->s[i], v[i] + 1 - lo, "s is not h - Gx + 1 - min"); }
        if (hi < 0) { sym_reach("z-plain"); for (i = 0; i < q->m; i++) sym_eq(w->z[i], -v[i], "z is not Gx - h although that is positive"); }
        else if (hi > 0) { sym_reach("z-shift"); for (i = 0; i < q->m; i++) sym_eq(w->z[i], -v[i] + 1 + hi, "z is not Gx - h + 1 + max"); }
    }
    h_cleanup(w, entry);
    sym_reach("end");
    return 0;
}
