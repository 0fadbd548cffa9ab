#include "prob.h"
/* A02: the caller's arrays are only read and never freed */
int harness(void)
{
    prob *q = &h_pb;
    long k, entry = sym_param("entry", 0), K = sym_param("K", 2);
    sym_policy(0, 0);
    h_problem(q);
    h_perm(q, sym_param("perm", 0));
    h_caller = 1;      /* any write to, or freeing of, one of the copies is a violation from the start of setup */
    long miss = sym_param("miss", 0) ? sym_choose("miss", 2) * 8 : 0;
    QP *w = h_setup_heap(q, entry, sym_param("centre", 0) ? 0.25 : 0.0, miss, q->p);
    h_protect_heap();
    w->options->verbose = sym_param("verbose", 0);
    for (k = 0; k < K; k++) {
        w->options->maxit = sym_int(h_name1('m', k), 0, sym_param("lim", 3));
        if (sym_param("tol", 0)) { w->options->reltol = sym_real_w(h_name1('r', k), 1e-3); w->options->abstol = sym_real_w(h_name1('t', k), 1e-3); }
        QP_SOLVE(w);
    }
    sym_verify_protected("a solve changed an array of the caller");
    h_cleanup(w, entry);
    sym_verify_protected("cleanup changed or freed an array of the caller");
    h_free_heap();
    sym_reach("end");
    return 0;
}
