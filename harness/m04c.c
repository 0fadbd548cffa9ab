#include "prob.h"
#include "Auxilary.h"
/* M04: norm and minimum/maximum (not declared in a header) */
extern qp_real norm(qp_real *p, qp_int n);
extern void findminmax(qp_real *z, long n, qp_real *min, qp_real *max);
int harness(void)
{
    long nmax = sym_param("nmax", 3), n = 1 + sym_choose("n", nmax), i;
    double *x = malloc(n * sizeof(double)), t = 0, lo, hi;
    for (i = 0; i < n; i++) { x[i] = sym_real(h_name1('x', i)); t += x[i] * x[i]; }
    sym_protect(x, n * sizeof(double));
    double r = norm(x, n);
    sym_check(r >= 0, "norm is negative");
    sym_eq(r * r, t, "norm squared is not sum x_i^2");
    findminmax(x, n, &lo, &hi);
    int fl = 0, fh = 0;
    for (i = 0; i < n; i++) {
        sym_check((lo <= x[i]) & (hi >= x[i]), "findminmax: an element lies outside [min, max]");
        fl |= lo == x[i]; fh |= hi == x[i];
    }
    sym_check(fl & fh, "findminmax: not attained");
    sym_verify_protected("an argument was modified");
    free(x);
    sym_reach("end");
    return 0;
}
