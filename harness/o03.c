#include "prob.h"
#include "amd.h"
/* O03: every allocation of the ordering may fail */
extern void *(*amd_malloc)(size_t);
static long h_left, h_calls, h_failed;
static void *h_malloc(size_t n) { h_calls++; if (h_left >= 0 && h_left-- == 0) { h_failed = 1; return 0; } return malloc(n); }
int harness(void)
{
    prob *q = &h_pb;
    long i, j, k, what = sym_param("what", 0), entry = sym_param("entry", 0);
    amd_malloc = h_malloc;
    if (what == 0) {
        long n = sym_param("n", 3), nz = 0, jum = sym_choose("jumbled", 2);
        qp_int *Ap = malloc((n + 1) * sizeof(*Ap)), *Ai, *P = malloc(n * sizeof(*P));
        char pat[MX][MX];
        for (i = 0; i < n; i++) for (j = i; j < n; j++) { pat[i][j] = pat[j][i] = sym_choose(h_name2('p', i, j), 2); nz += pat[i][j] * (i == j ? 1 : 2); }
        Ai = malloc(nz * sizeof(*Ai));
        for (j = 0, k = 0; j < n; j++) { Ap[j] = k; for (i = 0; i < n; i++) { long r = jum ? n - 1 - i : i; if (pat[r][j]) Ai[k++] = r; } }
        Ap[n] = k;
        double Info[AMD_INFO];
        sym_protect(Ap, (n + 1) * sizeof(*Ap)); sym_protect(Ai, nz * sizeof(*Ai));
        long mark = sym_heapmark();
        h_left = sym_choose("fail", 6);
        long two = sym_choose("info", 2);
        long r = amd_l_order(n, Ap, Ai, P, 0, two ? Info : 0);
        if (h_failed) {
            sym_check(r == AMD_OUT_OF_MEMORY, "a failed allocation is not reported as out of memory");
            if (two) sym_check(Info[AMD_STATUS] == AMD_OUT_OF_MEMORY, "the statistics do not report out of memory");
            sym_reach("failed");
        } else sym_check(r == AMD_OK || r == AMD_OK_BUT_JUMBLED, "failure without a failed allocation");
        sym_noleak(mark, "a failed ordering leaks memory");
        sym_verify_protected("the input was modified");
        free(Ap); free(Ai); free(P);
        sym_reach("end");
        return 0;
    }
    /* setup falls back to the natural order */
    h_problem(q);
    long drop = sym_param("drop", 0);   /* p given but b missing: the stored p is 0 */
    long N = q->n + q->m + (drop ? 0 : q->p), mark = sym_heapmark();
    h_left = sym_choose("fail", 3);
    QP *w;
    if (drop && entry == 0) w = QP_SETUP(q->n, q->m, q->p, q->Pjc, q->Pir, q->Ppr, q->Ajc, q->Air, q->Apr, q->Gjc, q->Gir, q->Gpr, q->c, q->h, 0, 0.0, 0);
    else if (drop) {
        h_dense(q->n, q->n, entry == 1, q->pP, q->P, q->dP);
        h_dense(q->p, q->n, entry == 1, q->pA, q->A, q->dA);
        h_dense(q->m, q->n, entry == 1, q->pG, q->G, q->dG);
        w = QP_SETUP_dense(q->n, q->m, q->p, q->dP, q->dA, q->dG, q->c, q->h, 0, 0, entry == 1 ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING);
    } else w = h_setup(q, entry, 0.0);
    sym_check(h_failed, "the fault was not injected");
    sym_check(w->stats->AMD_RESULT == AMD_OUT_OF_MEMORY, "setup does not report the failed ordering");
    for (i = 0; i < N; i++) sym_check(w->kkt->P[i] == i, "the fallback is not the natural order");
    w->options->maxit = sym_param("maxit", 20);
    long f = QP_SOLVE(w);
    /* the same problem with the ordering working */
    h_left = -1;
    long pp = q->p;
    if (drop) q->p = 0;
    QP *v = h_setup(q, entry, 0.0);
    q->p = pp;
    v->options->maxit = w->options->maxit;
    long g = QP_SOLVE(v);
    sym_check(v->stats->AMD_RESULT == AMD_OK, "ordering");
    sym_check(f == g && w->stats->IterationCount == v->stats->IterationCount, "another status or iteration count after the fallback");
    for (i = 0; i < q->n; i++) sym_near(w->x[i], v->x[i], 1e-5 * (1 + fabs(v->x[i])), "another x after the fallback");
    for (i = 0; i < w->p; i++) sym_near(w->y[i], v->y[i], 1e-5 * (1 + fabs(v->y[i])), "another y after the fallback");
    for (i = 0; i < q->m; i++) sym_near(w->z[i], v->z[i], 1e-5 * (1 + fabs(v->z[i])), "another z after the fallback");
    for (i = 0; i < q->m; i++) sym_near(w->s[i], v->s[i], 1e-5 * (1 + fabs(v->s[i])), "another s after the fallback");
    h_cleanup(w, entry);
    h_cleanup(v, entry);
    sym_noleak(mark, "leak after the fallback");
    sym_reach("end");
    return 0;
}
