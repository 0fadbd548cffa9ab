#include "mexstub.h"
#include "pyfake.h"
#include "simstruc.h"
/* X04: the Simulink blocks map ports to problem data and back */
void h_ss_sizes(SimStruct *S);
void h_ss_times(SimStruct *S);
void h_ss_indims(SimStruct *S, int port, const DimsInfo_T *d);
void h_ss_outputs(SimStruct *S);
void h_ss_end(SimStruct *S);
int h_ssport(int ok) { sym_check(ok, "a port that does not exist is used"); return ok; }
static SimStruct h_S;
static double *h_v[6];                          /* port values: P c A b G h */
static long h_R[6], h_K[6];
static void h_vec(const double *d, int w, const char *m)
{
    long i;
    sym_check(d != 0, m);
    for (i = 0; d && i < h_R[w]; i++) sym_same(d[i], h_v[w][i], m);
}
static void h_mat(const double *d, int w, const char *m)
{
    long i, j, r = h_R[w], k = h_K[w];
    sym_check(d != 0, m);
    for (i = 0; d && i < r; i++) for (j = 0; j < k; j++) sym_same(d[h_order == ROW_MAJOR_ORDERING ? i * k + j : j * r + i], h_v[w][j * r + i], m);
}
static void h_data(void)
{
    h_vec(h_cpr, 1, "the solver's c is not the block's input");
    h_vec(h_hpr, 5, "the solver's h is not the block's input");
    if (h_R[2]) h_vec(h_bpr, 3, "the solver's b is not the block's input");
}
static void h_all(void)
{
    sym_check(h_n == h_R[1] && h_m == h_R[5] && h_p == h_R[3], "the solver's sizes are not the port widths");
    sym_check(h_order == COLUMN_MAJOR_ORDERING || h_order == ROW_MAJOR_ORDERING, "the matrices are passed in no known order");
    sym_check(!h_pgiven, "a permutation is passed");
    if (!h_R[2]) sym_check(!h_Apr || !h_bpr || !h_p, "equalities are passed");
    h_mat(h_Ppr, 0, "the solver's P is not the block's input");
    h_mat(h_Gpr, 4, "the solver's G is not the block's input");
    if (h_R[2]) h_mat(h_Apr, 2, "the solver's A is not the block's input");
    h_data();
}
int harness(void)
{
    SimStruct *S = &h_S;
    long n = sym_param("n", 3), m = sym_param("m", 2), eq = sym_param("eq", 0), p = eq ? sym_param("p", 1) : 0, K = sym_param("K", 1), i, j, k, q, nin = eq ? 6 : 4, mark, scat;
    static const int four[4] = {0, 1, 4, 5};
    char nm[6];
    long W;
    sym_policy(0, 0);
    h_real = sym_param("real", 0);
    S->st = 77; S->off = 77; S->nst = -1; S->ncont = S->ndisc = -1;
    for (i = 0; i < H_PORTS; i++) { S->inw[i] = S->outw[i] = -9; S->feed[i] = S->contig[i] = 0; }
    h_ss_sizes(S);
    h_ss_times(S);
    sym_check(S->nin == nin && S->nout == 5, "the block does not have the documented ports");
    sym_check(S->ncont == 0 && S->ndisc == 0 && S->nparams == 0 && S->nst == 1, "the block declares states, parameters or sample times");
    sym_check(S->st == -1 && S->off == 0, "the sample time is not inherited");
    for (i = 0; i < nin; i++) sym_check(S->inw[i] == DYNAMICALLY_SIZED && S->feed[i] == 1, "an input port has a fixed size or no direct feedthrough");
    for (i = 1; i < 5; i++) sym_check(S->outw[i] == 1, "a scalar output port has another width");
    W = S->outw[0];
    sym_check(W >= 1 && W <= n, "the solution port is wider than the problem");
    h_R[0] = h_K[0] = h_K[4] = n; h_R[1] = n; h_R[4] = h_R[5] = m; h_R[2] = h_R[3] = p; h_K[2] = p ? n : 0;
    h_K[1] = h_K[3] = h_K[5] = 1;
    scat = sym_choose("scatter", 2);
    for (q = 0; q < nin; q++) {
        long w = eq ? q : four[q], N = h_R[w] * h_K[w];
        DimsInfo_T d;
        int dd[1];
        h_v[w] = malloc(N * 8);
        d.width = dd[0] = N; d.numDims = 1; d.dims = dd;
        h_ss_indims(S, q, &d);
        sym_check(S->inw[q] == N, "the block does not accept the width of an input");
        S->in[q] = S->contig[q] ? malloc(N * 8) : 0;
        S->inp[q] = S->contig[q] ? 0 : malloc(N * sizeof(double *));
        double *blk = scat ? 0 : malloc(N * 8);
        for (i = 0; i < N; i++) {
            double *e = S->contig[q] ? S->in[q] + i : scat ? malloc(8) : blk + i;
            if (!S->contig[q]) S->inp[q][i] = e;
        }
    }
    for (i = 0; i < 5; i++) S->out[i] = malloc(S->outw[i] * 8);
    h_atsetup = h_all; h_atsolve = h_data;
    for (k = 0; k < K; k++) {
        h_nsetup = h_nsolve = h_nclean = 0;
        for (q = 0; q < nin; q++) {
            long w = eq ? q : four[q], N = h_R[w] * h_K[w];
            for (i = 0; i < N; i++) {
                double v, *e = S->contig[q] ? S->in[q] + i : (double *)S->inp[q][i];
                nm[0] = "PcAbGh"[w]; nm[1] = '0' + i / 10; nm[2] = '0' + i % 10; nm[3] = '0' + k; nm[4] = 0;
                if (!h_real) v = sym_real(nm);
                else if (w == 0) v = i % (n + 1) == 0 ? 3.0 + i : 0.5;
                else if (w == 5) v = 4.0 + i;
                else v = ((i * 7 + w + k) % 5 - 2) * 0.5 + 0.25;
                h_v[w][i] = *e = v;
                sym_protect(e, 8);
            }
        }
        mark = sym_heapmark();
        h_ss_outputs(S);
        sym_verify_protected("an input signal is written to");
        sym_check(h_nsetup == 1 && h_nsolve == 1 && h_nclean == 1, "a step does not set up, solve and release one problem");
        sym_check(h_seen.maxit == 100 && h_seen.abstol == 1e-6 && h_seen.reltol == 1e-6 && h_seen.sigma == 100 && h_seen.verbose == 0, "the settings are not the defaults");
        for (i = 0; i < W; i++) sym_same(S->out[0][i], h_rx_[i], "the solution port does not show the solver's x");
        sym_same(S->out[1][0], (double)h_rflag, "the exit flag port does not show the status of the solve");
        sym_same(S->out[2][0], (double)h_rst.IterationCount, "the iteration port does not show the iteration count");
        sym_same(S->out[3][0], h_rst.tsetup, "the setup time port does not show the setup time");
        sym_same(S->out[4][0], h_rst.tsolve, "the solve time port does not show the solve time");
        sym_noleak(mark, "a step leaves memory allocated");
    }
    h_ss_end(S);
    sym_reach("end");
    return 0;
}
