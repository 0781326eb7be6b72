/* Fourier-Motzkin elimination with integer tightening: 1 if {row . x + c >= 0} has no solution.
   The same algorithm as facts.fm_py; bails out (0: nothing proved) on growth or overflow. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#define MAXROWS 512
#define MAXPAIRS 900
#define BIG ((int64_t)1 << 60)

static int64_t gcd64(int64_t a, int64_t b) { while (b) { int64_t t = a % b; a = b; b = t; } return a < 0 ? -a : a; }
static int64_t floordiv(int64_t a, int64_t g) { int64_t q = a / g; if (a % g != 0 && a < 0) q--; return q; }

typedef struct { int64_t *a; int64_t *c; uint64_t *h; int n; } Sys;

static uint64_t hash_row(const int64_t *r, int m) {
    uint64_t h = 1469598103934665603ull;
    for (int j = 0; j < m; j++) { h ^= (uint64_t)r[j] + (uint64_t)j * 0x9e3779b97f4a7c15ull; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
}

/* -1 contradiction, -2 full, 0 added or dropped */
static int add(Sys *s, int64_t *r, int64_t c, int m) {
    int64_t g = 0;
    for (int j = 0; j < m; j++) if (r[j]) g = gcd64(g, r[j] < 0 ? -r[j] : r[j]);
    if (g == 0) return c < 0 ? -1 : 0;
    if (g > 1) { for (int j = 0; j < m; j++) r[j] /= g; c = floordiv(c, g); }
    uint64_t h = hash_row(r, m);
    for (int i = 0; i < s->n; i++)
        if (s->h[i] == h && memcmp(s->a + (size_t)i * m, r, sizeof(int64_t) * m) == 0) {
            if (s->c[i] > c) s->c[i] = c;
            return 0;
        }
    if (s->n >= 4 * MAXROWS) return -2;
    memcpy(s->a + (size_t)s->n * m, r, sizeof(int64_t) * m);
    s->c[s->n] = c; s->h[s->n] = h; s->n++;
    return 0;
}

static Sys mk(int m) {
    Sys s;
    s.a = malloc(sizeof(int64_t) * (size_t)m * 4 * MAXROWS);
    s.c = malloc(sizeof(int64_t) * 4 * MAXROWS);
    s.h = malloc(sizeof(uint64_t) * 4 * MAXROWS);
    s.n = 0;
    return s;
}
static void fr(Sys *s) { free(s->a); free(s->c); free(s->h); }

int fm(int n, int m, const int64_t *A, const int64_t *C) {
    if (m == 0) { for (int i = 0; i < n; i++) if (C[i] < 0) return 1; return 0; }
    Sys cur = mk(m), nxt = mk(m);
    int64_t *row = malloc(sizeof(int64_t) * m);
    int *p = malloc(sizeof(int) * 4 * MAXROWS), *q = malloc(sizeof(int) * 4 * MAXROWS);
    int res = 0;
    for (int i = 0; i < n; i++) {
        memcpy(row, A + (size_t)i * m, sizeof(int64_t) * m);
        int r = add(&cur, row, C[i], m);
        if (r == -1) { res = 1; goto out; }
        if (r == -2) goto out;
    }
    while (cur.n) {
        int best = -1; long bw = 0;
        for (int j = 0; j < m; j++) {
            long x = 0, y = 0;
            for (int i = 0; i < cur.n; i++) { int64_t k = cur.a[(size_t)i * m + j]; if (k > 0) x++; else if (k < 0) y++; }
            if (!x && !y) continue;
            long w = x * y - x - y;
            if (best < 0 || w < bw) { best = j; bw = w; }
        }
        if (best < 0) break;
        int np = 0, nq = 0;
        nxt.n = 0;
        for (int i = 0; i < cur.n; i++) {
            int64_t k = cur.a[(size_t)i * m + best];
            if (k > 0) p[np++] = i; else if (k < 0) q[nq++] = i;
            else {
                memcpy(nxt.a + (size_t)nxt.n * m, cur.a + (size_t)i * m, sizeof(int64_t) * m);
                nxt.c[nxt.n] = cur.c[i]; nxt.h[nxt.n] = cur.h[i]; nxt.n++;
            }
        }
        if ((long)np * nq > MAXPAIRS) goto out;
        for (int x = 0; x < np; x++) for (int y = 0; y < nq; y++) {
            const int64_t *rp = cur.a + (size_t)p[x] * m, *rq = cur.a + (size_t)q[y] * m;
            __int128 ka = rp[best], kb = -(__int128)rq[best];
            int bad = 0;
            for (int j = 0; j < m; j++) {
                __int128 v = kb * rp[j] + ka * rq[j];
                if (v > BIG || v < -BIG) { bad = 1; break; }
                row[j] = (int64_t)v;
            }
            __int128 c = kb * cur.c[p[x]] + ka * cur.c[q[y]];
            if (bad || c > BIG || c < -BIG) continue;
            int r = add(&nxt, row, (int64_t)c, m);
            if (r == -1) { res = 1; goto out; }
            if (r == -2) goto out;
        }
        Sys t = cur; cur = nxt; nxt = t;
        if (cur.n > 500) goto out;
    }
out:
    fr(&cur); fr(&nxt); free(row); free(p); free(q);
    return res;
}
