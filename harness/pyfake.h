/* The solver behind the Python and MATLAB entries: a stand-in with arbitrary results (real = 0) or the real one, observed (real = 1) */
#ifndef PYFAKE_H
#define PYFAKE_H
#include "sym.h"
#include "qpSWIFT.h"
static long h_real, h_nsetup, h_nsolve, h_nclean, h_order, h_pgiven;
static qp_int h_n, h_m, h_p;
static const qp_real *h_Ppr, *h_Apr, *h_Gpr, *h_cpr, *h_hpr, *h_bpr;
static settings h_seen;                       /* options in force when the solve starts */
static QP *h_qp;
static double h_rx_[96], h_ry_[96], h_rz_[96], h_rs_[96];    /* results at the end of the solve */
static stats h_rst; static qp_int h_rflag;
static void (*h_atsetup)(void), (*h_atsolve)(void);
static QP *h_fake(qp_int n, qp_int m, qp_int p)
{
    QP *q = malloc(sizeof(QP));
    n = sym_conc(n); m = sym_conc(m); p = sym_conc(p);
    q->n = n; q->m = m; q->p = p;
    q->options = malloc(sizeof(settings)); q->stats = malloc(sizeof(stats));
    q->options->maxit = MAXIT; q->options->reltol = RELTOL; q->options->abstol = ABSTOL; q->options->sigma = SIGMA; q->options->verbose = VERBOSE;
    q->stats->Flag = QP_FATAL; q->stats->IterationCount = 0; q->stats->fval = 0; q->stats->AMD_RESULT = 0;
    q->stats->tsetup = sym_real("tsetup"); q->stats->tsolve = 0; q->stats->kkt_time = 0; q->stats->ldl_numeric = 0;
    q->x = malloc(n * 8); q->y = p ? malloc(p * 8) : 0; q->z = malloc(m * 8); q->s = malloc(m * 8);
    return q;
}
static void h_fakesolve(QP *q)
{
    char nm[3];
    long i;
    nm[2] = 0;
    for (i = 0; i < q->n; i++) { nm[0] = 'x'; nm[1] = '0' + i; q->x[i] = sym_real(nm); }
    for (i = 0; i < q->p; i++) { nm[0] = 'y'; nm[1] = '0' + i; q->y[i] = sym_real(nm); }
    for (i = 0; i < q->m; i++) { nm[0] = 'z'; nm[1] = '0' + i; q->z[i] = sym_real(nm); nm[0] = 's'; q->s[i] = sym_real(nm); }
    q->stats->Flag = sym_int("flag", 0, 3); q->stats->IterationCount = sym_int("iters", 0, 1L << 40);
    q->stats->fval = sym_real("fval"); q->stats->tsolve = sym_real("tsolve"); q->stats->kkt_time = sym_real("kkt"); q->stats->ldl_numeric = sym_real("ldl");
}
static void h_fakefree(QP *q) { free(q->x); free(q->y); free(q->z); free(q->s); free(q->options); free(q->stats); free(q); }
static void h_record(QP *q, qp_int flag)
{
    long i;
    for (i = 0; i < q->n; i++) h_rx_[i] = q->x[i];
    for (i = 0; i < q->p; i++) h_ry_[i] = q->y[i];
    for (i = 0; i < q->m; i++) { h_rz_[i] = q->z[i]; h_rs_[i] = q->s[i]; }
    h_rst = *q->stats;
    h_rflag = flag;
}
QP *__real_QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *P, qp_real *A, qp_real *G, qp_real *c, qp_real *h, qp_real *b, qp_int *perm, int order);
qp_int __real_QP_SOLVE(QP *q);
void __real_QP_CLEANUP_dense(QP *q);
#ifndef H_NO_DENSE
QP *__wrap_QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *P, qp_real *A, qp_real *G, qp_real *c, qp_real *h, qp_real *b, qp_int *perm, int order)
{
    h_nsetup++;
    h_n = n; h_m = m; h_p = p; h_order = order; h_pgiven = perm != 0;
    h_Ppr = P; h_Apr = A; h_Gpr = G; h_cpr = c; h_hpr = h; h_bpr = b;
    if (h_atsetup) h_atsetup();
    return h_qp = h_real ? __real_QP_SETUP_dense(n, m, p, P, A, G, c, h, b, perm, order) : h_fake(n, m, A && b ? p : 0);
}
void __wrap_QP_CLEANUP_dense(QP *q)
{
    sym_check(q == h_qp && h_nclean == 0, "something else than the problem set up is cleaned up");
    h_nclean++;
    if (h_real) __real_QP_CLEANUP_dense(q); else h_fakefree(q);
}
#endif
qp_int __wrap_QP_SOLVE(QP *q)
{
    qp_int f;
    sym_check(q == h_qp && h_nclean == 0, "something else than the problem set up is solved");
    h_nsolve++;
    h_seen = *q->options;
    if (h_atsolve) h_atsolve();
    if (h_real) f = __real_QP_SOLVE(q); else { h_fakesolve(q); f = q->stats->Flag; }
    h_record(q, f);
    return f;
}
#endif
