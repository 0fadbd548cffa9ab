/* Problem builder shared by the harnesses. Everything h_* is harness state. */
#ifndef PROB_H
#define PROB_H
#include "sym.h"
#include "qpSWIFT.h"
#include <math.h>
#ifndef MX
#define MX 16
#endif
typedef struct {
    long n, m, p;
    double P[MX][MX], A[MX][MX], G[MX][MX];     /* values, row/col */
    int pP[MX][MX], pA[MX][MX], pG[MX][MX];     /* pattern */
    qp_int Pjc[MX + 1], Pir[MX * MX], Ajc[MX + 1], Air[MX * MX], Gjc[MX + 1], Gir[MX * MX];
    double Ppr[MX * MX], Apr[MX * MX], Gpr[MX * MX];
    double dP[MX * MX], dA[MX * MX], dG[MX * MX]; /* dense form */
    double c[MX], h[MX], b[MX];
    qp_int perm[3 * MX];
    qp_int *Permut;
} prob;
static prob h_pb;
static char h_nm[32];
/* exactly sized blocks for kernel arguments, so that an access past them is seen; all freed by h_endall */
static void *h_blk[64]; static long h_nblk;
static void *h_new(long bytes) { return h_blk[h_nblk++] = malloc(bytes); }
static void h_endall(void) { while (h_nblk > 0) free(h_blk[--h_nblk]); }
#define NEWI(c) ((qp_int *)h_new((c) * sizeof(qp_int)))
#define NEWD(c) ((double *)h_new((c) * sizeof(double)))
static qp_int *h_exi(const qp_int *p, long c) { qp_int *r = NEWI(c); long i; for (i = 0; i < c; i++) r[i] = p[i]; return r; }
static double *h_exd(const double *p, long c) { double *r = NEWD(c); long i; for (i = 0; i < c; i++) r[i] = p[i]; return r; }
static int h_dig(int k, long i)     /* one character below 70, else decimal digits */
{
    if (i < 70) { h_nm[k++] = '0' + i; return k; }
    h_nm[k++] = '0' + i / 100; h_nm[k++] = '0' + i / 10 % 10; h_nm[k++] = '0' + i % 10;
    return k;
}
static const char *h_name2(char a, long i, long j)
{
    int k;
    h_nm[0] = a; k = h_dig(1, i); h_nm[k++] = '_'; h_nm[h_dig(k, j)] = 0;
    return h_nm;
}
static const char *h_name1(char a, long i)
{
    h_nm[0] = a; h_nm[h_dig(1, i)] = 0;
    return h_nm;
}
static const char *h_nameb(char a, char b, long i)
{
    h_nm[0] = a; h_nm[1] = b; h_nm[h_dig(2, i)] = 0;
    return h_nm;
}
/* deterministic small constants, dyadic unless dec=1, never 0 */
static int h_dec = -1;
static double h_const(long k, long i, long j)
{
    long v = (k * 37 + i * 11 + j * 17 + i * j * 5) % 13 - 6;
    if (v == 0) v = 3;
    if (h_dec < 0) h_dec = sym_param("dec", 0);
    return h_dec ? v * 0.3 : v / 4.0;        /* 0.3: not representable in binary, nor in single precision */
}
/* pattern: mask >= 0 gives the bits row-major, -1 symbolic, -2 full */
static int h_bit(long mask, char a, long i, long j, long idx)
{
    if (mask == -2) return 1;
    if (mask == -1) return (int)sym_choose(h_name2(a, i, j), 2);
    if (mask == -3) return (a == 'g' ? i % 5 == j % 5 : i == j) || (i * 7 + j * 11 + i * j * 3 + a) % 4 == 0;     /* sparse, every row occupied */
    if (mask == -4) return a == 'p' ? (i - j) * (i - j) <= 1 || (i + j) % 41 == 7 : a == 'a' ? j == 3 * i || j == 3 * i + 1 || j == 5 * i % 31 + 1 : j == i % 32 || (i + 3 * j) % 29 == 4;     /* very sparse, n >= 32 and n >= 3p */
    if (mask == -5) return i == j || i == 0 || j == 0;     /* an arrow: full fill in this order, none in reverse */
    return (int)((mask >> idx) & 1);
}
/* symbolic values: 0 concrete, 1 symbolic */
static double h_val(long symb, char a, long i, long j, double w)
{
    if (!symb) return w;
    return sym_real_w(h_name2(a, i, j), w);
}
static long h_jumbled;         /* 1: the rows of every column in descending order */
static void h_ccs(long r, long c, int pat[MX][MX], double v[MX][MX], qp_int *jc, qp_int *ir, double *pr)
{
    long i, j, k = 0;
    for (j = 0; j < c; j++) {
        jc[j] = k;
        if (h_jumbled) for (i = r - 1; i >= 0; i--) { if (pat[i][j]) { ir[k] = i; pr[k] = v[i][j]; k++; } }
        else for (i = 0; i < r; i++) if (pat[i][j]) { ir[k] = i; pr[k] = v[i][j]; k++; }
    }
    jc[c] = k;
}
static void h_dense(long r, long c, int rowmajor, int pat[MX][MX], double v[MX][MX], double *d)
{
    long i, j;
    for (i = 0; i < r; i++) for (j = 0; j < c; j++) d[rowmajor ? i * c + j : j * r + i] = pat[i][j] ? v[i][j] : 0.0;
}
static void h_feasible(prob *q, long kk);
static void h_problem(prob *q)
{
    long i, j, k;
    long n = sym_param("n", 2), m = sym_param("m", 2), p = sym_param("p", 0);
    long mP = sym_param("mP", -2), mA = sym_param("mA", -2), mG = sym_param("mG", -2);
    long sP = sym_param("sP", 0), sA = sym_param("sA", 0), sG = sym_param("sG", 0), sv = sym_param("sv", 0);
    long kk = sym_param("kk", 1);
    h_jumbled = sym_param("jumble", 0);
    q->n = n; q->m = m; q->p = p;
    k = 0;
    for (i = 0; i < n; i++) for (j = i; j < n; j++) {
        q->pP[i][j] = q->pP[j][i] = h_bit(mP, 'p', i, j, k);
        k++;
        if (q->pP[i][j]) q->P[i][j] = q->P[j][i] = h_val(sP, 'P', i, j, i == j ? 4.0 + 0.5 * i : h_const(kk, i, j) / 2);
        else q->P[i][j] = q->P[j][i] = 0.0;
    }
    for (i = 0, k = 0; i < p; i++) for (j = 0; j < n; j++, k++) {
        q->pA[i][j] = h_bit(mA, 'a', i, j, k);
        q->A[i][j] = q->pA[i][j] ? h_val(sA, 'A', i, j, h_const(kk + 1, i, j)) : 0.0;
    }
    for (i = 0, k = 0; i < m; i++) for (j = 0; j < n; j++, k++) {
        q->pG[i][j] = h_bit(mG, 'g', i, j, k);
        q->G[i][j] = q->pG[i][j] ? h_val(sG, 'G', i, j, h_const(kk + 2, i, j)) : 0.0;
    }
    for (i = 0; i < n; i++) q->c[i] = sv ? sym_real(h_name1('c', i)) : h_const(kk + 3, i, 1);
    for (i = 0; i < m; i++) q->h[i] = sv ? sym_real(h_name1('h', i)) : h_const(kk + 4, i, 2) + 1;
    for (i = 0; i < p; i++) q->b[i] = sv ? sym_real(h_name1('b', i)) : h_const(kk + 5, i, 3);
    h_ccs(n, n, q->pP, q->P, q->Pjc, q->Pir, q->Ppr);
    h_ccs(p, n, q->pA, q->A, q->Ajc, q->Air, q->Apr);
    h_ccs(m, n, q->pG, q->G, q->Gjc, q->Gir, q->Gpr);
    q->Permut = 0;
    if (sym_param("feas", 0)) h_feasible(q, kk);
}
/* replace h and b so that a dyadic point is strictly feasible, with some slacks small; make P diagonally dominant */
static void h_feasible(prob *q, long kk)
{
    long i, j, k;
    double x[MX], t;
    for (j = 0; j < q->n; j++) x[j] = h_const(kk + 6, j, 4);
    for (i = 0; i < q->p; i++) for (t = 0, j = 0; j < q->n; j++) { t += q->A[i][j] * x[j]; q->b[i] = t; }
    for (i = 0; i < q->m; i++) for (t = (i % 4 + 1) / 8.0, j = 0; j < q->n; j++) { t += q->G[i][j] * x[j]; q->h[i] = t; }
    for (j = 0; j < q->n; j++) if (q->pP[j][j]) {
        for (t = 0.5, k = 0; k < q->n; k++) if (k != j) t += fabs(q->P[j][k]);
        q->P[j][j] = t;
    }
    h_ccs(q->n, q->n, q->pP, q->P, q->Pjc, q->Pir, q->Ppr);
}
/* an arbitrary permutation of 0..n-1 */
static void h_anyperm(qp_int *P, long n)
{
    long i, j, r, used[3 * MX];
    for (i = 0; i < n; i++) used[i] = 0;
    for (i = 0; i < n; i++) {
        r = i == n - 1 ? 0 : sym_choose(h_name1('q', i), n - i);
        for (j = 0; used[j] || r-- > 0; j++) ;
        P[i] = j; used[j] = 1;
    }
}
/* user permutation: 0 none, 1 reversed, 2 rotated, 3 identity, -1 symbolic */
static void h_perm(prob *q, long kind)
{
    long N = q->n + q->m + q->p, i;
    if (kind == 0) { q->Permut = 0; return; }
    if (kind < 0) h_anyperm(q->perm, N);
    else for (i = 0; i < N; i++) {
        if (kind == 1) q->perm[i] = N - 1 - i;
        else if (kind == 2) q->perm[i] = (i + 2) % N;
        else if (kind == 3) q->perm[i] = i;
        else q->perm[i] = (i % 2) ? i / 2 : (N / 2) + i / 2;
    }
    q->Permut = q->perm;
}
/* entry: 0 sparse, 1 dense row major, 2 dense column major */
static QP *h_setup(prob *q, long entry, double sigma_d)
{
    if (entry == 0)
        return QP_SETUP(q->n, q->m, q->p, q->Pjc, q->Pir, q->Ppr, q->p ? q->Ajc : 0, q->p ? q->Air : 0, q->p ? q->Apr : 0,
                        q->Gjc, q->Gir, q->Gpr, q->c, q->h, q->p ? q->b : 0, sigma_d, q->Permut);
    h_dense(q->n, q->n, entry == 1, q->pP, q->P, q->dP);
    h_dense(q->p, q->n, entry == 1, q->pA, q->A, q->dA);
    h_dense(q->m, q->n, entry == 1, q->pG, q->G, q->dG);
    {
        QP *r = QP_SETUP_dense(q->n, q->m, q->p, q->dP, q->p ? q->dA : 0, q->dG, q->c, q->h, q->p ? q->b : 0, q->Permut,
                               entry == 1 ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING);
        return r;
    }
}
/* the same from exact-size heap copies of the caller's arrays. miss: bits 0..3 drop Ajc, Air, Apr (or A), b; 4: pass A and b although p is 0 */
static void *h_heap[16]; static long h_hsize[16], h_nheap, h_caller;   /* h_caller: the copies may only be read */
static void *h_keep(void *r, long bytes) { h_heap[h_nheap] = r; h_hsize[h_nheap++] = bytes; if (h_caller && bytes) sym_readonly(r, 1); return r; }
static void *h_dup(const void *p, long bytes)
{
    void *r = h_caller ? sym_callermem(bytes) : malloc(bytes);
    long i;
    for (i = 0; i < bytes / 8; i++) ((double *)r)[i] = ((const double *)p)[i];
    return h_keep(r, bytes);
}
static void *h_dupi(const qp_int *p, long n)
{
    qp_int *r = h_caller ? sym_callermem(n * sizeof(qp_int)) : malloc(n * sizeof(qp_int));
    long i;
    for (i = 0; i < n; i++) r[i] = p[i];
    return h_keep(r, n * sizeof(qp_int));
}
static QP *h_setup_heap(prob *q, long entry, double sigma_d, long miss, long pgiven)
{
    long n = q->n, m = q->m, p = q->p, e = sizeof(double), A = p > 0;
    h_nheap = 0;
    double *c = h_dup(q->c, n * e), *h = h_dup(q->h, m * e), *b = A && !(miss & 8) ? h_dup(q->b, p * e) : 0;
    qp_int *pm = q->Permut ? h_dupi(q->Permut, n + m + p) : 0;
    if (entry == 0)
        return QP_SETUP(n, m, pgiven, h_dupi(q->Pjc, n + 1), h_dupi(q->Pir, q->Pjc[n]), h_dup(q->Ppr, q->Pjc[n] * e),
                        A && !(miss & 1) ? h_dupi(q->Ajc, n + 1) : 0, A && !(miss & 2) ? h_dupi(q->Air, q->Ajc[n]) : 0, A && !(miss & 4) ? h_dup(q->Apr, q->Ajc[n] * e) : 0,
                        h_dupi(q->Gjc, n + 1), h_dupi(q->Gir, q->Gjc[n]), h_dup(q->Gpr, q->Gjc[n] * e), c, h, b, sigma_d, pm);
    h_dense(n, n, entry == 1, q->pP, q->P, q->dP);
    h_dense(p, n, entry == 1, q->pA, q->A, q->dA);
    h_dense(m, n, entry == 1, q->pG, q->G, q->dG);
    return QP_SETUP_dense(n, m, pgiven, h_dup(q->dP, n * n * e), A && !(miss & 4) ? h_dup(q->dA, p * n * e) : 0, h_dup(q->dG, m * n * e),
                          c, h, b, pm, entry == 1 ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING);
}
static void h_protect_heap(void) { long i; for (i = 0; i < h_nheap; i++) sym_protect(h_heap[i], h_hsize[i]); }
static void h_free_heap(void)
{
    long i;
    for (i = 0; i < h_nheap; i++) if (h_caller) { if (h_hsize[i]) sym_readonly(h_heap[i], 0); sym_callerfree(h_heap[i]); } else free(h_heap[i]);
    h_nheap = 0;
}
/* two problems in the same state, bit for bit */
static void h_sameres(QP *a, QP *b, const char *msg)
{
    long i;
    sym_check(a->n == b->n && a->m == b->m && a->p == b->p, msg);
    for (i = 0; i < a->n; i++) sym_same(a->x[i], b->x[i], msg);
    for (i = 0; i < a->p; i++) sym_same(a->y[i], b->y[i], msg);
    for (i = 0; i < a->m; i++) { sym_same(a->z[i], b->z[i], msg); sym_same(a->s[i], b->s[i], msg); }
    sym_same(a->stats->fval, b->stats->fval, msg);
    sym_check(a->stats->Flag == b->stats->Flag && a->stats->IterationCount == b->stats->IterationCount, msg);
}
static void h_samemat(smat *a, smat *b, const char *msg)
{
    long i;
    sym_check(a->m == b->m && a->n == b->n && a->nnz == b->nnz, msg);
    for (i = 0; i <= a->n; i++) sym_check(a->jc[i] == b->jc[i], msg);
    for (i = 0; i < a->jc[a->n]; i++) { sym_check(a->ir[i] == b->ir[i], msg); sym_same(a->pr[i], b->pr[i], msg); }
}
static void h_cleanup(QP *r, long entry) { if (entry == 0) QP_CLEANUP(r); else QP_CLEANUP_dense(r); }
/* reference residuals from the caller's own data */
static double h_rx(prob *q, const double *x, const double *y, const double *z, long i)
{
    double s = q->c[i];
    long j;
    for (j = 0; j < q->n; j++) if (q->pP[i][j]) s += q->P[i][j] * x[j];
    for (j = 0; j < q->p; j++) if (q->pA[j][i]) s += q->A[j][i] * y[j];
    for (j = 0; j < q->m; j++) if (q->pG[j][i]) s += q->G[j][i] * z[j];
    return s;
}
static double h_ry(prob *q, const double *x, long i)
{
    double s = -q->b[i];
    long j;
    for (j = 0; j < q->n; j++) if (q->pA[i][j]) s += q->A[i][j] * x[j];
    return s;
}
static double h_rz(prob *q, const double *x, const double *s_, long i)
{
    double s = s_[i] - q->h[i];
    long j;
    for (j = 0; j < q->n; j++) if (q->pG[i][j]) s += q->G[i][j] * x[j];
    return s;
}
static double h_obj(prob *q, const double *x)
{
    double s = 0;
    long i, j;
    for (i = 0; i < q->n; i++) {
        s += q->c[i] * x[i];
        for (j = 0; j < q->n; j++) if (q->pP[i][j]) s += 0.5 * q->P[i][j] * x[i] * x[j];
    }
    return s;
}
static double h_norm_rx(prob *q, QP *w)
{
    double s = 0, r; long i;
    for (i = 0; i < q->n; i++) { r = h_rx(q, w->x, w->y, w->z, i); s += r * r; }
    return sqrt(s);
}
static double h_norm_ry(prob *q, QP *w)
{
    double s = 0, r; long i;
    for (i = 0; i < q->p; i++) { r = h_ry(q, w->x, i); s += r * r; }
    return sqrt(s);
}
static double h_norm_rz(prob *q, QP *w)
{
    double s = 0, r; long i;
    for (i = 0; i < q->m; i++) { r = h_rz(q, w->x, w->s, i); s += r * r; }
    return sqrt(s);
}
static double h_mu(prob *q, QP *w)
{
    double s = 0; long i;
    for (i = 0; i < q->m; i++) s += w->s[i] * w->z[i];
    return s / q->m;
}
/* the caller's vectors become arbitrary (they are held by reference) */
static void h_symvec(prob *q)
{
    long i;
    for (i = 0; i < q->n; i++) q->c[i] = sym_real(h_name1('c', i));
    for (i = 0; i < q->m; i++) q->h[i] = sym_real(h_name1('h', i));
    for (i = 0; i < q->p; i++) q->b[i] = sym_real(h_name1('b', i));
}
/* make the current iterate arbitrary */
static void h_symiter(prob *q, QP *w, int sx)
{
    long i;
    if (sx) for (i = 0; i < q->n; i++) w->x[i] = sym_real(h_name1('x', i));
    if (sx) for (i = 0; i < q->p; i++) w->y[i] = sym_real(h_name1('y', i));
    for (i = 0; i < q->m; i++) {
        w->s[i] = sym_real_w(h_name1('s', i), 0.5 + 0.25 * i); sym_assume(w->s[i] > 0);
        w->z[i] = sym_real_w(h_name1('z', i), 1.5 - 0.125 * i); sym_assume(w->z[i] > 0);
    }
}
#endif
