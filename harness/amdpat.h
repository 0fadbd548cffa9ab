/* families of patterns for the ordering harnesses */
#ifndef AMDPAT_H
#define AMDPAT_H
#include "prob.h"
#ifndef PATMAX
#define PATMAX 40
#endif
static char pat[PATMAX][PATMAX];
static unsigned long h_lcg;
static long h_rnd(long k) { h_lcg = h_lcg * 6364136223846793005UL + 1442695040888963407UL; return (long)(h_lcg >> 33) % k; }
static long h_pattern(void)
{
    long n = sym_param("n", 3), kind = sym_param("kind", 0), i, j, k, N = n;
    for (i = 0; i < PATMAX && i < 40; i++) for (j = 0; j < PATMAX && j < 40; j++) pat[i][j] = 0;
    if (kind == 0) {            /* symmetric, full diagonal */
        for (i = 0; i < n; i++) for (j = i; j < n; j++) pat[i][j] = pat[j][i] = i == j ? 1 : sym_choose(h_name2('p', i, j), 2);
    } else if (kind == 1) {     /* symmetric, diagonal entries present or not */
        for (i = 0; i < n; i++) for (j = i; j < n; j++) pat[i][j] = pat[j][i] = sym_choose(h_name2('p', i, j), 2);
    } else if (kind == 2) {     /* not symmetric */
        for (i = 0; i < n; i++) for (j = 0; j < n; j++) pat[i][j] = sym_choose(h_name2('p', i, j), 2);
    } else if (kind == 3) {     /* arrow: dense first rows, plus a chain with free links: dense-row removal */
        long hub = sym_param("hub", 1), fr = sym_param("free", 4);
        for (i = 0; i < n; i++) pat[i][i] = 1;
        for (k = 0; k < hub; k++) for (i = 0; i < n; i++) pat[k][i] = pat[i][k] = 1;
        for (i = 0; i < fr; i++) { long a = hub + (i * 5) % (n - hub), b = hub + (i * 7 + 3) % (n - hub); pat[a][b] = pat[b][a] = sym_choose(h_name1('f', i), 2); }
        for (i = hub; i + 2 < n; i += 2) pat[i][i + 2] = pat[i + 2][i] = 1;
    } else if (kind == 4) {     /* KKT form of every P, A, G pattern: as setup uses it */
        long nn = sym_param("kn", 2), pp = sym_param("kp", 1), mm = sym_param("km", 3);
        N = nn + pp + mm;
        for (i = 0; i < nn; i++) pat[i][i] = 1;
        for (i = nn; i < N; i++) { for (j = 0; j < nn; j++) pat[i][j] = pat[j][i] = sym_choose(h_name2('g', i, j), 2); if (i >= nn + pp) pat[i][i] = 1; }
    } else if (kind == 6) {     /* every tree (parent of i among 0..i-1), free diagonal-free numbering by a rotation */
        long rot = sym_choose("rot", sym_param("rots", 2)), st = 1 + 2 * rot;
        while (rot && N % st == 0) st += 2;
        for (i = 0; i < N; i++) pat[i][i] = 1;
        for (i = 1; i < N; i++) {
            long par = i < sym_param("free", 40) ? sym_choose(h_name1('t', i), i < 5 ? i + 1 : 4) : (i * 5 + 1) % i + 1;     /* 0: a root of its own */
            if (par) { long u = i * st % N, v = (par - 1) * st % N; pat[u][v] = pat[v][u] = 1; }
        }
    } else if (kind == 7) {     /* a fixed irregular graph with free links: histories in which the ordering runs out of elbow room */
        long e, a, b, fr = sym_param("free", 6), uns = sym_param("unsym", 0);
        h_lcg = (unsigned long)sym_param("seed", 1);
        for (i = 0; i < n; i++) for (j = 0; j < n; j++) pat[i][j] = 0;
        e = h_rnd(3 * n) + n;
        for (i = 0; i < n; i++) pat[i][i] = 1;
        while (e--) { a = h_rnd(n); b = h_rnd(n); pat[a][b] = 1; if (!uns) pat[b][a] = 1; }
        for (i = 0; i < fr; i++) { a = (i * 3 + 1) % n; b = (i * 7 + 5) % n; if (a != b && sym_choose(h_name1('f', i), 2)) { pat[a][b] ^= 1; pat[b][a] = pat[a][b]; } }
    } else {                    /* grid with free diagonals: long elimination histories */
        long w = sym_param("w", 3), h = sym_param("h", 3), fr = sym_param("free", 6);
        N = w * h;
        for (i = 0; i < N; i++) {
            pat[i][i] = 1;
            if (i % w + 1 < w) pat[i][i + 1] = pat[i + 1][i] = 1;
            if (i + w < N) pat[i][i + w] = pat[i + w][i] = 1;
        }
        for (i = 0; i < fr; i++) { long a = (i * 3 + 1) % N, b = (i * 7 + 5) % N; if (a != b) { int v = sym_choose(h_name1('f', i), 2); pat[a][b] |= v; pat[b][a] |= v; } }
    }
    return N;
}
#endif
