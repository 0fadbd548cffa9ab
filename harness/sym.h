/* Harness interface: implemented symbolically by irsym/vm.py and natively (for replay) by sym_native.c */
#ifndef SYM_H
#define SYM_H
#ifdef __cplusplus
extern "C" {
#endif
long sym_int(const char *name, long lo, long hi);      /* symbolic integer in [lo,hi] */
long sym_choose(const char *name, long n);             /* symbolic integer in [0,n), forked to a concrete value */
long sym_conc(long v);                                 /* fork over the feasible values of v */
double sym_real(const char *name);                     /* symbolic real */
double sym_real_w(const char *name, double w);         /* symbolic real with a given witness value */
void sym_assume(int c);
void sym_check(int c, const char *msg);
void sym_eq(double a, double b, const char *msg);      /* equal (over the reals; natively up to rounding) */
void sym_same(double a, double b, const char *msg);    /* the same value (copies), NaN equals NaN */
void sym_near(double a, double b, double tol, const char *msg); /* |a-b| <= tol */
void sym_le(double a, double b, const char *msg);
void sym_lt(double a, double b, const char *msg);
void sym_reach(const char *tag);                       /* vacuity witness */
void sym_policy(int follow, int merge);
void sym_wseed(int k);
long sym_param(const char *name, long dflt);           /* per-configuration parameter */
double sym_paramd(const char *name, double dflt);
long sym_outcount(void);                               /* number of print calls made so far */
int sym_outhas(long from, const char *text);           /* the text printed since print call `from` contains these letters and digits */
long sym_outnum(long from, const char *label);         /* how many numbers were printed under that label (letters, digits, _ before it on its line) */
double sym_outval(long from, const char *label, long k); /* the k-th of them */
long sym_heapmark(void);
void sym_noleak(long mark, const char *msg);           /* every block allocated since mark has been freed */
void sym_failalloc(long k);                            /* make the k-th next malloc return NULL; -1 = off */
void sym_protect(void *p, long n);                     /* remember the contents of caller memory */
void sym_verify_protected(const char *msg);            /* ... which must be unchanged and not freed */
void *sym_callermem(long n);                            /* a block of its own, for the next function */
void sym_readonly(void *p, int on);                    /* from now on any write to it, or freeing it, is a violation */
void sym_callerfree(void *p);
int sym_catch(void (*fn)(void *), void *arg);
void sym_unmodelled(const char *what);                /* the code uses something the environment model lacks: give up on this path */
void sym_throw(void) __attribute__((noreturn));
void sym_globals_mark(void);
void sym_globals_readonly(int on);                     /* any store to a mutable global of the program is a violation */
void sym_globals_check(const char *msg);
int harness(void);
#ifdef __cplusplus
}
#endif
#endif
