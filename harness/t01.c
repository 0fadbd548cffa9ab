#include "prob.h"
#include "timer.h"
#include <time.h>
/* T01: reported times are the elapsed monotonic time. The clock is the harness's: every reading is arbitrary, not before the previous one */
static long h_nread, h_s, h_ns, h_fs, h_fns, h_mark;   /* last reading, first reading since h_mark */
static long h_kdepth, h_kopen, h_lopen;
static double h_kkt, h_ldl;
static long h_ks, h_kns, h_ls, h_lns;
static double h_diff(long s1, long n1, long s0, long n0) { return (double)(s1 - s0) + (double)(n1 - n0) / 1e9; }
int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
    char nm[8];
    sym_check(id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME, "the clock read is not monotonic");
    nm[0] = 's'; nm[1] = '0' + h_nread / 10; nm[2] = '0' + h_nread % 10; nm[3] = 0;
    long s = sym_int(nm, 0, 1099511627776L);
    nm[0] = 'n';
    long n = sym_int(nm, 0, 999999999);
    if (h_nread) sym_assume((s > h_s) | ((s == h_s) & (n >= h_ns)));
    h_nread++;
    h_s = s; h_ns = n;
    if (h_mark) { h_mark = 0; h_fs = s; h_fns = n; }
    if (h_kopen) { h_kopen = 0; h_kkt += h_diff(s, n, h_ks, h_kns); }
    if (h_lopen) { h_lopen = 0; h_ldl += h_diff(s, n, h_ls, h_lns); }
    ts->tv_sec = s; ts->tv_nsec = n;
    return 0;
}
qp_int __real_kktsolve_1(QP *w);
void __real_kktsolve_2(QP *w);
qp_int __real_LDL_numeric(qp_int n, qp_int Ap[], qp_int Ai[], qp_real Ax[], qp_int Lp[], qp_int Parent[], qp_int Lnz[], qp_int Li[], qp_real Lx[], qp_real D[], qp_real Y[], qp_int Pattern[], qp_int Flag[], qp_int P[], qp_int Pinv[]);
qp_int __wrap_kktsolve_1(QP *w)
{
    long s = h_s, n = h_ns;
    h_kdepth++;
    qp_int r = __real_kktsolve_1(w);
    h_kdepth--;
    h_ks = s; h_kns = n; h_kopen = 1;
    return r;
}
void __wrap_kktsolve_2(QP *w)
{
    long s = h_s, n = h_ns;
    __real_kktsolve_2(w);
    h_ks = s; h_kns = n; h_kopen = 1;
}
qp_int __wrap_LDL_numeric(qp_int n, qp_int Ap[], qp_int Ai[], qp_real Ax[], qp_int Lp[], qp_int Parent[], qp_int Lnz[], qp_int Li[], qp_real Lx[], qp_real D[], qp_real Y[], qp_int Pattern[], qp_int Flag[], qp_int P[], qp_int Pinv[])
{
    if (h_kdepth) { h_ls = h_s; h_lns = h_ns; }
    qp_int r = __real_LDL_numeric(n, Ap, Ai, Ax, Lp, Parent, Lnz, Li, Lx, D, Y, Pattern, Flag, P, Pinv);
    if (h_kdepth) h_lopen = 1;
    return r;
}
int harness(void)
{
    long k;
    sym_policy(0, sym_param("merge", 0));
    if (sym_param("mode", 0) == 2) {
        /* every floating operation rounds: the result must still be the difference to a few units in the last place */
        qp_timer a;
        long s0, n0;
        tic(&a); s0 = h_s; n0 = h_ns;
        double d = toc(&a), e;
        if (h_ns < n0) { n0 -= 1000000000; s0 += 1; }
        e = h_diff(h_s, h_ns, s0, n0);
        sym_check(d - e <= e * 2e-15, "toc loses precision: more than the difference of the two readings");
        sym_check(e - d <= e * 2e-15, "toc loses precision: less than the difference of the two readings");
        sym_check(d >= 0, "a negative time");
        sym_reach("end");
        return 0;
    }
    if (sym_param("mode", 0) == 0) {
        qp_timer a, b;
        long s0, n0, s1, n1;
        tic(&a); s0 = h_s; n0 = h_ns;
        tic(&b); s1 = h_s; n1 = h_ns;
        double d = toc(&b);
        sym_eq(d, h_diff(h_s, h_ns, s1, n1), "toc is not the difference of the two readings");
        sym_le(0, d, "a negative time");
        d = toc(&a);
        sym_eq(d, h_diff(h_s, h_ns, s0, n0), "toc is not the difference of the two readings (nested timers)");
        sym_le(0, d, "a negative time");
        d = toc(&a);
        sym_eq(d, h_diff(h_s, h_ns, s0, n0), "a second toc is not the time since tic");
        if (n0 > h_ns) sym_reach("borrow");
        sym_reach("end");
        return 0;
    }
    prob *q = &h_pb;
    long entry = sym_param("entry", 0), K = sym_param("K", 2), its = sym_param("its", 1);
    double sd = sym_param("centre", 0) ? 0.25 : 0.0, tot = 0;
    sym_policy(0, 1);
    h_problem(q);
    h_mark = 1;
    QP *w = h_setup(q, entry, sd);
    sym_check(h_mark == 0, "setup never reads the clock");
    sym_eq(w->stats->tsetup, h_diff(h_s, h_ns, h_fs, h_fns), "the setup time is not the time setup took");
    sym_le(0, w->stats->tsetup, "a negative setup time");
    double ts = w->stats->tsetup;
    if (sd > 0) { w->sigma_d = sd; w->options->sigma = sd; }
    h_ldl = 0;
    for (k = 0; k < K; k++) {
        w->options->maxit = its >= 0 ? its : sym_choose(h_name1('m', k), -its + 1);
        if (sym_param("loose", 0) && k) w->options->reltol = w->options->abstol = 1e30;
        w->options->verbose = sym_param("verbose", 0);
        h_mark = 1; h_kkt = 0;
        QP_SOLVE(w);
        sym_check(h_mark == 0, "a solve never reads the clock");
        sym_eq(w->stats->tsolve, h_diff(h_s, h_ns, h_fs, h_fns), "the solve time is not the time the solve took");
        sym_eq(w->stats->kkt_time, h_kkt, "the KKT time is not that of the linear solves of the last solve");
        sym_eq(w->stats->ldl_numeric, h_ldl, "the factorisation time is not that of the factorisations timed since setup");
        sym_eq(w->stats->tsetup, ts, "a solve changes the setup time");
        tot += w->stats->kkt_time;
        sym_le(0, w->stats->tsolve, "a negative solve time");
        sym_le(0, w->stats->kkt_time, "a negative KKT time");
        sym_le(0, w->stats->ldl_numeric, "a negative factorisation time");
        sym_le(w->stats->kkt_time, w->stats->tsolve, "the KKT time exceeds the solve time");
        sym_le(w->stats->ldl_numeric, tot, "the factorisation time exceeds the KKT time of the solves");
        if (h_kkt != 0) sym_reach("kkt");
    }
    h_cleanup(w, entry);
    sym_reach("end");
    return 0;
}
