/* valid arguments for the MATLAB entry, and the solver behind it recorded or replaced */
#ifndef MEXPROB_H
#define MEXPROB_H
#define H_NO_DENSE
#include "mexstub.h"
#include "pyfake.h"
static mxArray *h_a[6], *h_opt_;                  /* P c A b G h */
static const qp_int *h_jc[3], *h_ir[3], *h_perm;  /* as passed to the solver: P A G */
static const qp_real *h_px[3];
static long h_valid = 1;
QP *__real_QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Ppr, qp_int *Ajc, qp_int *Air, qp_real *Apr, qp_int *Gjc, qp_int *Gir, qp_real *Gpr, qp_real *c, qp_real *h, qp_real *b, qp_real sigma_d, qp_int *Permut);
void __real_QP_CLEANUP(QP *q);
static qp_real h_sd;
QP *__wrap_QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Ppr, qp_int *Ajc, qp_int *Air, qp_real *Apr, qp_int *Gjc, qp_int *Gir, qp_real *Gpr, qp_real *c, qp_real *h, qp_real *b, qp_real sigma_d, qp_int *Permut)
{
    sym_check(h_valid, "invalid arguments reach the solver");
    if (!h_valid) sym_throw();
    h_nsetup++;
    h_n = n; h_m = m; h_p = p; h_sd = sigma_d;
    h_jc[0] = Pjc; h_ir[0] = Pir; h_px[0] = Ppr; h_jc[1] = Ajc; h_ir[1] = Air; h_px[1] = Apr; h_jc[2] = Gjc; h_ir[2] = Gir; h_px[2] = Gpr;
    h_cpr = c; h_hpr = h; h_bpr = b; h_perm = Permut; h_pgiven = Permut != 0;
    if (h_atsetup) h_atsetup();
    h_qp = h_real ? __real_QP_SETUP(n, m, p, Pjc, Pir, Ppr, Ajc, Air, Apr, Gjc, Gir, Gpr, c, h, b, sigma_d, Permut) : h_fake(n, m, Ajc && Air && Apr && b ? p : 0);
    return h_qp;
}
void __wrap_QP_CLEANUP(QP *q)
{
    sym_check(q == h_qp && h_nclean == 0, "something else than the problem set up is cleaned up");
    h_nclean++;
    if (h_real) __real_QP_CLEANUP(q); else h_fakefree(q);
}
static long h_fix(const char *k, const char *c, long n) { long v = sym_param(k, -1); return v < 0 ? sym_choose(c, n) : v; }     /* a choice the configuration may fix */
static double h_val(char c, long i, long j, int symb)
{
    char nm[8];
    if (symb) { nm[0] = c; nm[1] = '0' + i; nm[2] = '0' + j; nm[3] = 'e'; nm[4] = 0; return sym_real(nm); }
    return c == 'P' ? (i == j ? 3.0 + i : 0.5) : c == 'h' ? 4.0 + i : ((i * 7 + j * 3 + c) % 5 - 2) * 0.5 + 0.25;
}
static mxArray *h_vec(char c, long k, int row, int symb)
{
    mxArray *a = h_mx(mxDOUBLE_CLASS, row ? 1 : k, row ? k : 1);
    long i;
    a->pr = malloc(k * 8 + 8); a->caller = 1;
    for (i = 0; i < k; i++) ((double *)a->pr)[i] = h_val(c, i, 0, symb);
    if (k) sym_protect(a->pr, k * 8);
    return a;
}
static mxArray *h_mat(char c, long r, long k, long skip, int symb)
{
    mxArray *a = h_mx(mxDOUBLE_CLASS, r, k);
    long i, j, nz = 0;
    a->sparse = 1; a->caller = 1;
    a->pr = malloc(r * k * 8 + 8); a->ir = malloc(r * k * 8 + 8); a->jc = malloc(k * 8 + 8);
    for (j = 0; j < k; j++) {
        a->jc[j] = nz;
        for (i = 0; i < r; i++) if (skip < 0 || i * k + j != skip) { a->ir[nz] = i; ((double *)a->pr)[nz] = h_val(c, i, j, symb); nz++; }
    }
    a->jc[k] = nz;
    if (nz) { sym_protect(a->pr, nz * 8); sym_protect(a->ir, nz * 8); }
    sym_protect(a->jc, k * 8 + 8);
    return a;
}
/* nr: number of arguments, 4..7 */
static void h_args(long n, long m, long p, long nr, int row, int symb)
{
    long eq = nr >= 6, k = 0;
    h_a[0] = h_mat('P', n, n, -1, symb); h_a[1] = h_vec('c', n, row, symb);
    h_a[2] = h_a[3] = 0;
    if (eq) { h_a[2] = h_mat('A', p, n, n > 1 ? 0 : -1, symb); h_a[3] = h_vec('b', p, row, symb); }
    h_a[4] = h_mat('G', m, n, n * m > 1 ? 1 : -1, symb); h_a[5] = h_vec('h', m, row, symb);
    h_pr_[k++] = h_a[0]; h_pr_[k++] = h_a[1];
    if (eq) { h_pr_[k++] = h_a[2]; h_pr_[k++] = h_a[3]; }
    h_pr_[k++] = h_a[4]; h_pr_[k++] = h_a[5];
    h_opt_ = 0;
    if (nr == 5 || nr == 7) { h_opt_ = h_mx(mxSTRUCT_CLASS, 1, 1); h_opt_->caller = 1; h_pr_[k++] = h_opt_; }
    h_nr = nr;
}
static void h_field(const char *k, mxArray *v) { v->caller = 1; h_opt_->key[h_opt_->nf] = k; h_opt_->val[h_opt_->nf++] = v; }
static mxArray *h_num(double v) { mxArray *a = h_mx(mxDOUBLE_CLASS, 1, 1); a->pr = malloc(8); *(double *)a->pr = v; return a; }
#endif
