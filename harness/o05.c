#include "amdpat.h"
#include "amd.h"
/* O05: defaults, reports and hooks of the ordering */
extern void *(*amd_malloc)(size_t);
extern void (*amd_free)(void *);
extern int (*amd_printf)(const char *, ...);
#ifndef AREN
#define AREN 32768
#endif
static double h_arena[AREN / 8];
static long h_top, h_live, h_bad; static void *h_given[16]; static long h_ng;
static void *h_mal(size_t n)
{
    void *r = h_arena + h_top;
    h_top += (n + 7) / 8 + 1;
    if (h_top > AREN / 8 || h_ng >= 16) { sym_unmodelled("more allocations than the arena holds"); return 0; }
    h_given[h_ng++] = r; h_live++;
    return r;
}
static void h_fre(void *p)
{
    long i;
    if (!p) return;
    for (i = 0; i < h_ng; i++) if (h_given[i] == p) { h_given[i] = 0; h_live--; return; }
    h_bad = 1;
}
static const char *const h_lab[14] = { "n, dimension of A", "nz, number of nonzeros in A", "symmetry of A", "number of nonzeros on diagonal", "nonzeros in pattern of A+A' (excl. diagonal)",
    "# dense rows/columns of A+A'", "memory used, in bytes", "# of memory compactions", "nonzeros in L (excluding diagonal)", "# divide operations for LDL' or LU",
    "# multiply-subtract operations for LDL'", "# multiply-subtract operations for LU", "max nz. in any column of L (incl. diagonal)", 0 };
static const int h_idx[13] = { AMD_N, AMD_NZ, AMD_SYMMETRY, AMD_NZDIAG, AMD_NZ_A_PLUS_AT, AMD_NDENSE, AMD_MEMORY, AMD_NCMPA, AMD_LNZ, AMD_NDIV, AMD_NMULTSUBS_LDL, AMD_NMULTSUBS_LU, AMD_DMAX };
static void one(long o, const char *l, double v)
{
    sym_check(sym_outnum(o, l) == 1, "a statistic is not printed once");
    sym_near(sym_outval(o, l, 0), v, 1e-9, "a printed statistic is not the one given");
}
int harness(void)
{
    long what = sym_param("what", 0), i, k, o = sym_outcount();
    if (what == 0) {      /* defaults, control */
        double *C = malloc(AMD_CONTROL * sizeof(*C));
        long nul = sym_choose("null", 2), own = sym_choose("own", 2), quiet = sym_choose("quiet", 2);
        amd_l_defaults(nul ? 0 : C);
        if (!nul) for (i = 0; i < AMD_CONTROL; i++) sym_check(C[i] == (i == AMD_DENSE ? 10.0 : i == AMD_AGGRESSIVE ? 1.0 : 0.0), "a default of the ordering is not the documented one");
        sym_check(sym_outcount() == o, "setting the defaults prints");
        if (!nul && own) { C[AMD_DENSE] = sym_real("dense"); C[AMD_AGGRESSIVE] = sym_real("aggressive"); }
        double al = nul ? 10.0 : C[AMD_DENSE], ag = nul ? 1.0 : C[AMD_AGGRESSIVE];
        if (quiet) amd_printf = 0;
        if (!nul) sym_protect(C, AMD_CONTROL * sizeof(*C));
        amd_l_control(nul ? 0 : C);
        sym_verify_protected("printing the control settings changes them");
        if (quiet) sym_check(sym_outcount() == o, "the control settings are printed although printing is off");
        else {
            one(o, "dense row parameter", al);
            if (al < 0) { sym_check(sym_outhas(o, "no rows treated as dense"), "a negative dense parameter is not reported as no dense rows"); sym_reach("nodense"); }
            else { sym_check(!sym_outhas(o, "no rows treated as dense"), "a nonnegative dense parameter is reported as no dense rows"); one(o, "(rows with more than max (", al); }
            int y = sym_outhas(o, "aggressive absorption: yes"), n = sym_outhas(o, "aggressive absorption: no");
            sym_check(y + n == 1, "not exactly one aggressive setting is reported");
            if (ag != 0) sym_check(y, "aggressive absorption is on but reported off"); else sym_check(n, "aggressive absorption is off but reported on");
        }
        free(C);
        sym_reach("control");
    } else if (what == 1) {      /* statistics: any two of the values arbitrary */
        double *I = malloc(AMD_INFO * sizeof(*I));
        long quiet = sym_choose("quiet", 2), st = sym_choose("status", 5), a = sym_choose("a", 13), b = a + sym_choose("b", 13 - a), nn = 0;
        if (a != b || quiet) sym_assume(st == 1);
        for (i = 0; i < AMD_INFO; i++) I[i] = 3 + 2 * i + i * i;
        I[AMD_STATUS] = st == 0 ? AMD_OK : st == 1 ? AMD_OK_BUT_JUMBLED : st == 2 ? AMD_INVALID : st == 3 ? AMD_OUT_OF_MEMORY : 7;
        I[h_idx[a]] = sym_real("va");
        if (a != b) I[h_idx[b]] = sym_real("vb");
        if (quiet) amd_printf = 0;
        sym_protect(I, AMD_INFO * sizeof(*I));
        amd_l_info(I);
        sym_verify_protected("printing the statistics changes them");
        if (quiet) sym_check(sym_outcount() == o, "the statistics are printed although printing is off");
        else {
            sym_check(sym_outhas(o, "status: OK") == (st < 2) && sym_outhas(o, "but jumbled") == (st == 1) && sym_outhas(o, "invalid matrix") == (st == 2) && sym_outhas(o, "out of memory") == (st == 3) && sym_outhas(o, "status: unknown") == (st == 4), "the wrong status is reported");
            for (i = 0; i < 13; i++) {
                double v = I[h_idx[i]];
                if (v >= 0) one(o, h_lab[i], v); else { sym_check(sym_outnum(o, h_lab[i]) == 0, "a statistic that is not known is printed"); nn++; }
            }
            double n = I[AMD_N], l = I[AMD_LNZ], d = I[AMD_NDIV], x = I[AMD_NMULTSUBS_LDL], u = I[AMD_NMULTSUBS_LU];
            if ((n >= 0) & (l >= 0)) one(o, "nonzeros in L (including diagonal)", n + l); else sym_check(sym_outnum(o, "nonzeros in L (including diagonal)") == 0, "an unknown sum is printed");
            if ((n >= 0) & (d >= 0) & (x >= 0) & (u >= 0)) {
                one(o, "chol flop count for real A, sqrt counted as 1 flop", n + d + 2 * x);
                one(o, "LDL' flop count for real A", d + 2 * x);
                one(o, "LDL' flop count for complex A", 9 * d + 8 * x);
                one(o, "LU flop count for real A (with no pivoting)", d + 2 * u);
                one(o, "LU flop count for complex A (with no pivoting)", 9 * d + 8 * u);
            } else sym_check(sym_outnum(o, "LDL' flop count for real A") == 0 && sym_outnum(o, "chol flop count for real A, sqrt counted as 1 flop") == 0, "unknown operation counts are printed");
            if (nn) sym_reach("unknown");
        }
        if (st == 0 && !quiet) { o = sym_outcount(); amd_l_info(0); sym_check(sym_outnum(o, h_lab[0]) == 0, "statistics are printed without any"); }
        free(I);
        sym_reach("info");
    } else {      /* the ordering takes and returns memory only through its hooks and prints nothing */
        long n = h_pattern(), nz = 0, j, jumb = sym_choose("jumble", 2), bad = sym_choose("bad", 2);
        for (i = 0; i < n; i++) for (j = 0; j < n; j++) nz += pat[i][j];
        qp_int *Ap = malloc((n + 1) * sizeof(*Ap)), *Ai = malloc(nz * sizeof(*Ai)), *P = malloc(n * sizeof(*P));
        for (j = 0, k = 0; j < n; j++) { Ap[j] = k; for (i = 0; i < n; i++) { long r = jumb ? n - 1 - i : i; if (pat[r][j]) Ai[k++] = r; } }
        Ap[n] = k;
        if (bad && nz) Ai[nz - 1] = n;
        double I[AMD_INFO];
        amd_malloc = h_mal; amd_free = h_fre;
        long mark = sym_heapmark();
        long r = amd_l_order(n, Ap, Ai, P, 0, sym_choose("info", 2) ? I : 0);
        sym_noleak(mark, "the ordering takes memory other than through its hook and keeps it");
        sym_check(h_live == 0, "a block taken through the hook is not given back through it");
        sym_check(!h_bad, "a block that did not come from the hook is released through it");
        sym_check(sym_outcount() == o, "the ordering prints");
        if (bad && nz) sym_check(r == AMD_INVALID, "a bad row index is accepted");
        else { sym_check(r >= 0, "the ordering fails with its memory hooks replaced"); sym_reach("ordered"); }
        free(Ap); free(Ai); free(P);
    }
    sym_reach("end");
    return 0;
}
