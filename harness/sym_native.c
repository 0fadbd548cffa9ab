/* Native side of sym.h: replays one set of inputs against the really compiled code. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdarg.h>
#include <sys/mman.h>
#include "sym.h"

static struct { char name[64]; char val[400]; } in[16384];
static int nin;
static char used[16384][64];
static int nused;
static struct { char name[64]; char val[64]; } par[64];
static int npar;
static int failed;
static unsigned long rngstate;
static int rnd_mode;
static FILE *out;

static unsigned long rng(void) { rngstate ^= rngstate << 13; rngstate ^= rngstate >> 7; rngstate ^= rngstate << 17; return rngstate; }

static const char *uname(const char *name, char *buf)
{
    int i, k = 1;
    snprintf(buf, 64, "%s", name);
    for (;;) {
        for (i = 0; i < nused; i++) if (!strcmp(used[i], buf)) break;
        if (i == nused) break;
        k++;
        snprintf(buf, 64, "%s#%d", name, k);
    }
    snprintf(used[nused++], 64, "%s", buf);
    return buf;
}
static const char *lookup(const char *n)
{
    int i;
    for (i = 0; i < nin; i++) if (!strcmp(in[i].name, n)) return in[i].val;
    return NULL;
}
static double parsenum(const char *v)
{
    const char *s = strchr(v, '/');
    if (s) {
        /* big rationals: use long double on both halves */
        long double a = strtold(v, NULL), b = strtold(s + 1, NULL);
        return (double)(a / b);
    }
    return strtod(v, NULL);
}
long sym_int(const char *name, long lo, long hi)
{
    char b[64];
    const char *v = lookup(uname(name, b));
    if (v) { long r = strtol(v, NULL, 10); if (rnd_mode < 2) return r; }
    if (rnd_mode >= 2) return lo + (long)(rng() % (unsigned long)(hi - lo + 1));
    return lo;
}
long sym_choose(const char *name, long n) { return sym_int(name, 0, n - 1); }
long sym_conc(long v) { return v; }
double sym_real(const char *name)
{
    char b[64];
    const char *v = lookup(uname(name, b));
    double r = v ? parsenum(v) : 0.0;
    if (rnd_mode == 1) { double u = (double)(rng() % 2001) / 1000.0 - 1.0; r = r * (1 + 0.3 * u) + 0.05 * u; }
    if (rnd_mode >= 2) r = ((double)(rng() % 2001) / 1000.0 - 1.0) * (rng() % 3 ? 2.0 : 10.0);
    return r;
}
double sym_real_w(const char *name, double w)
{
    char b[64];
    const char *v = lookup(uname(name, b));
    double r = v ? parsenum(v) : w;
    if (rnd_mode >= 1) { double u = (double)(rng() % 2001) / 1000.0 - 1.0; r = r * (1 + 0.3 * u); }
    return r;
}
void sym_assume(int c) { if (!c) { fprintf(stderr, "SYMASSUME\n"); _Exit(failed ? 3 : 77); } }
void sym_unmodelled(const char *m) { fprintf(stderr, "SYMASSUME unmodelled %s\n", m); _Exit(failed ? 3 : 77); }
static void fail(const char *m) { failed = 1; fprintf(stderr, "SYMFAIL: %s\n", m); }
void sym_check(int c, const char *m) { if (!c) fail(m); }
void sym_eq(double a, double b, const char *m)
{
    if (a == b || (a != a && b != b)) return;
    if (!(fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)))) { fprintf(stderr, "  %.17g vs %.17g\n", a, b); fail(m); }
}
void sym_near(double a, double b, double tol, const char *m)
{
    if (a == b || (a != a && b != b)) return;
    if (!(fabs(a - b) <= tol * 1.5 + 1e-12 * (fabs(a) + fabs(b)))) { fprintf(stderr, "  %.17g vs %.17g\n", a, b); fail(m); }
}
void sym_same(double a, double b, const char *m)
{
    if (!(a == b || (a != a && b != b))) { fprintf(stderr, "  %.17g vs %.17g\n", a, b); fail(m); }
}
void sym_le(double a, double b, const char *m)
{
    if (!(a <= b + 1e-7 * (1 + fabs(a) + fabs(b)))) { fprintf(stderr, "  %.17g > %.17g\n", a, b); fail(m); }
}
void sym_lt(double a, double b, const char *m) { if (!(a < b)) { fprintf(stderr, "  %.17g >= %.17g\n", a, b); fail(m); } }
void sym_reach(const char *t) { (void)t; }
void sym_policy(int a, int b) { (void)a; (void)b; }
void sym_wseed(int k) { (void)k; }
long sym_param(const char *name, long d)
{
    int i;
    for (i = 0; i < npar; i++) if (!strcmp(par[i].name, name)) return strtol(par[i].val, NULL, 10);
    return d;
}
double sym_paramd(const char *name, double d)
{
    int i;
    for (i = 0; i < npar; i++) if (!strcmp(par[i].name, name)) return strtod(par[i].val, NULL);
    return d;
}
/* --- stdout counting: print functions are wrapped at link time */
static long outcount;
long sym_outcount(void) { return outcount; }
static struct { long call; char label[96]; double v; } item[4096];
static int nitem;
static char lab[96], txt[65536];
static int nlab, ntxt;
static long txtat[8192];
static void lit(char c)
{
    if (c == '\n') { nlab = 0; return; }
    if (!(c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) return;
    if (nlab < 95) lab[nlab++] = c;
    if (ntxt < 65535) txt[ntxt++] = c;
}
static void rec(const char *f, va_list ap)
{
    if (outcount < 8192) txtat[outcount] = ntxt;
    for (; *f; f++) {
        int lg = 0; double v = 0; const char *sv = 0;
        if (*f != '%') { lit(*f); continue; }
        f++;
        if (*f == '%') continue;
        while (*f && strchr("-+ #0123456789.*", *f)) { if (*f == '*') (void)va_arg(ap, int); f++; }
        while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f != 'h') lg = 1; f++; }
        if (!*f) break;
        if (strchr("diuxXoc", *f)) v = lg ? (double)va_arg(ap, long) : (double)va_arg(ap, int);
        else if (strchr("feEgGaAF", *f)) v = va_arg(ap, double);
        else { sv = va_arg(ap, const char *); if (*f == 's' && sv) for (; *sv; sv++) lit(*sv); continue; }
        if (nitem < 4096) { lab[nlab] = 0; item[nitem].call = outcount; strcpy(item[nitem].label, lab); item[nitem].v = v; nitem++; }
        nlab = 0;
    }
}
static int sameletters(const char *a, const char *b)    /* b: only its letters and digits */
{
    for (;;) {
        while (*b && !(*b == '_' || (*b >= '0' && *b <= '9') || (*b >= 'a' && *b <= 'z') || (*b >= 'A' && *b <= 'Z'))) b++;
        if (!*b) return 1 + !*a;
        if (*a != *b) return 0;
        a++; b++;
    }
}
int sym_outhas(long from, const char *t)
{
    int i;
    txt[ntxt] = 0;
    if (from >= outcount || from >= 8192) return 0;
    for (i = txtat[from]; i < ntxt; i++) if (sameletters(txt + i, t)) return 1;
    return 0;
}
long sym_outnum(long from, const char *l)
{
    long i, c = 0;
    for (i = 0; i < nitem; i++) if (item[i].call >= from && sameletters(item[i].label, l) == 2) c++;
    return c;
}
double sym_outval(long from, const char *l, long k)
{
    long i;
    for (i = 0; i < nitem; i++) if (item[i].call >= from && sameletters(item[i].label, l) == 2 && k-- == 0) return item[i].v;
    return 0;
}
int __wrap_printf(const char *f, ...)
{
    va_list ap; int r;
    va_start(ap, f); rec(f, ap); va_end(ap);
    outcount++;
    va_start(ap, f); r = vprintf(f, ap); va_end(ap);
    return r;
}
int __wrap_puts(const char *s) { if (outcount < 8192) txtat[outcount] = ntxt; for (; *s; s++) lit(*s); lit('\n'); outcount++; return 1; }
int __wrap_putchar(int c) { if (outcount < 8192) txtat[outcount] = ntxt; lit(c); outcount++; return fputc(c, stdout); }
/* --- heap accounting */
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
static struct { void *p; long id; } live[65536];
static int nlive;
static long allocid;
static long failk = -1;
static void add(void *p) { if (p && nlive < 65536) { live[nlive].p = p; live[nlive++].id = ++allocid; } }
static void del(void *p) { int i; for (i = nlive - 1; i >= 0; i--) if (live[i].p == p) { live[i] = live[--nlive]; return; } }
void *__wrap_malloc(size_t n)
{
    void *p;
    if (failk >= 0 && failk-- == 0) { failk = -1; return NULL; }
    p = __real_malloc(n);
#ifndef SYM_MSAN
    if (p) memset(p, 0xA5, n);   /* make uninitialised reads visible */
#endif
    add(p);
    return p;
}
static struct { char *p, *base; long len; } cm[256];
static int ncm;
void *sym_callermem(long n)
{
    long len = (n + 4095) / 4096 * 4096 + 4096;
    char *b = mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    cm[ncm].base = b; cm[ncm].len = len; cm[ncm].p = b + len - 4096 - (n + 7) / 8 * 8;
    mprotect(b + len - 4096, 4096, PROT_NONE);
    return cm[ncm++].p;
}
void sym_readonly(void *p, int on)
{
    int i;
    for (i = 0; i < ncm; i++) if (cm[i].p == (char *)p) mprotect(cm[i].base, cm[i].len - 4096, on ? PROT_READ : PROT_READ | PROT_WRITE);
}
void sym_callerfree(void *p)
{
    int i;
    for (i = 0; i < ncm; i++) if (cm[i].p == (char *)p) { munmap(cm[i].base, cm[i].len); cm[i] = cm[--ncm]; return; }
}
void __wrap_free(void *p)
{
    int i;
    if (p) for (i = 0; i < ncm; i++) if (cm[i].p == (char *)p) { fail("the code freed memory that belongs to the caller"); return; }
    if (p) del(p);
    __real_free(p);
}
void *__wrap_calloc(size_t a, size_t b) { void *p; if (failk >= 0 && failk-- == 0) { failk = -1; return NULL; } p = __real_calloc(a, b); add(p); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p; if (q) del(q); p = __real_realloc(q, n); add(p); return p; }
long sym_heapmark(void) { return allocid; }
void sym_noleak(long mark, const char *m)
{
    int i;
    for (i = 0; i < nlive; i++) if (live[i].id > mark) { fail(m); return; }
}
void sym_failalloc(long k) { failk = k; }
/* --- protected caller memory */
static struct { void *p; void *copy; long n; } prot[65536];
static int nprot;
void sym_protect(void *p, long n)
{
    if (!p || n <= 0) return;
    prot[nprot].p = p; prot[nprot].n = n; prot[nprot].copy = __real_malloc(n);
    memcpy(prot[nprot].copy, p, n); nprot++;
}
void sym_verify_protected(const char *m)
{
    int i;
    for (i = 0; i < nprot; i++) {
        if (memcmp(prot[i].p, prot[i].copy, prot[i].n)) fail(m);
        __real_free(prot[i].copy);
    }
    nprot = 0;
}
static jmp_buf *jb;
int sym_catch(void (*fn)(void *), void *arg)
{
    jmp_buf b, *old = jb;
    int r = 0;
    jb = &b;
    if (setjmp(b) == 0) fn(arg); else r = 1;
    jb = old;
    return r;
}
void sym_throw(void) { if (!jb) { fprintf(stderr, "SYMFAIL: throw outside catch\n"); _Exit(3); } longjmp(*jb, 1); }
/* --- globals of the code under test live in section "repodata" in the replay build */
extern char __start_repodata[] __attribute__((weak)), __stop_repodata[] __attribute__((weak));
static char *gcopy;
static char gpad[4096] __attribute__((section("repodata"), aligned(4096), used)) = {1};    /* linked last: the pages before it hold nothing else */
void sym_globals_readonly(int on)
{
    char *a = __start_repodata;
    if (a && gpad > a && (uintptr_t)a % 4096 == 0) mprotect(a, gpad - a, on ? PROT_READ : PROT_READ | PROT_WRITE);
}
void sym_globals_mark(void)
{
    long n;
    if (!__start_repodata) return;
    n = __stop_repodata - __start_repodata;
    gcopy = __real_malloc(n + 1);
    memcpy(gcopy, __start_repodata, n);
}
void sym_globals_check(const char *m)
{
    if (!__start_repodata || !gcopy) return;
    if (memcmp(gcopy, __start_repodata, __stop_repodata - __start_repodata)) fail(m);
    __real_free(gcopy);
    gcopy = NULL;
}
static void load(const char *f, int params)
{
    FILE *fp = fopen(f, "r");
    char a[64], v[400];
    if (!fp) return;
    while (fscanf(fp, "%63s %399s", a, v) == 2) {
        if (a[0] == '$') { strcpy(par[npar].name, a + 1); snprintf(par[npar].val, 64, "%s", v); npar++; }
        else { strcpy(in[nin].name, a); strcpy(in[nin].val, v); nin++; }
    }
    fclose(fp);
}
int main(int argc, char **argv)
{
    if (argc > 1) load(argv[1], 0);
    if (argc > 3) { rnd_mode = atoi(argv[2]); rngstate = 88172645463325252UL ^ (strtoul(argv[3], NULL, 10) * 0x9E3779B97F4A7C15UL); rng(); rng(); rng(); }
    setvbuf(stdout, NULL, _IONBF, 0);
    harness();
    if (failed) { fprintf(stderr, "REPLAY: violation reproduced\n"); return 3; }
    return 0;
}
