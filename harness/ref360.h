/* Reference interpreter for the System/360 instructions, written from the
   Principles of Operation.  Independent of the emulator's code.  Works on
   symbolic values: data-dependent choices are selections. */
typedef struct {
    uint32_t r[16];
    uint64_t f[4];
    uint32_t cc, pm, key, amwp, mask, pc;
    int ic;                 /* program interruption code, 0 = none */
    int ic2;                /* another exception of the same instruction: either may be the one reported */
    int svc;                /* -1 or SVC number */
    int ilc;
    int ccskip, term;       /* term: ended early, result fields unpredictable */
    uint32_t rskip;         /* registers whose value is not defined */
    int fskip;
    int psw;                /* LPSW took effect: compare whole PSW */
    int dev;                /* input class with a recorded deviation of the Model 50 (known findings) */
    uint32_t ocode;         /* interruption code to store for svc */
} S;
static uint8_t RM[MEMSZ];       /* reference memory */
static uint8_t RMX[MEMSZ];      /* result undefined here (terminated operation) */
static uint8_t SK[MEMSZ >> 11]; /* storage keys */

static int bad(S *s, int code) { if (!s->ic) s->ic = code; return 1; }
#define STOP2(code, alt) do { s->ic = (code); s->ic2 = (alt); return; } while (0)
#define STOP(code) do { s->ic = (code); return; } while (0)
static uint32_t ld(uint32_t a, int n) { uint32_t v = 0; int i; for (i = 0; i < n; i++) v = (v << 8) | RM[a + i]; return v; }
static void st(uint32_t a, int n, uint32_t v) { int i; for (i = 0; i < n; i++) RM[a + i] = (uint8_t)(v >> (8 * (n - 1 - i))); }
/* access checks; 0 when fine */
static int chk(uint32_t a, int n, int align) {
    if (a & (align - 1)) return 6;
    if (a + n > MEMSZ) return 5;
    return 0;
}
static int chkst(S *s, uint32_t a, int n, int align) {
    int e = chk(a, n, align);
    if (e) return e;
    return s->key != 0 && (SK[a >> 11] != s->key || SK[(a + n - 1) >> 11] != s->key) ? 4 : 0;
}
static uint32_t ea(S *s, int x, int b, uint32_t d) {
    return (d + (x ? s->r[x] : 0) + (b ? s->r[b] : 0)) & 0xffffff;
}
static uint32_t sgncc(uint32_t v) { return v == 0 ? 0 : (v >> 31) ? 1 : 2; }
/* signed add/sub with condition code and overflow; returns result */
static uint32_t add32(S *s, uint32_t a, uint32_t b) {
    uint32_t t = a + b, ov = ((a ^ t) & (b ^ t)) >> 31;
    s->cc = ov ? 3 : sgncc(t);
    if (ov & (s->pm >> 3)) s->ic = 8;
    return t;
}
static uint32_t sub32(S *s, uint32_t a, uint32_t b) {
    uint32_t t = a - b, ov = ((a ^ b) & (a ^ t)) >> 31;
    s->cc = ov ? 3 : sgncc(t);
    if (ov & (s->pm >> 3)) s->ic = 8;
    return t;
}
static uint32_t addl(S *s, uint32_t a, uint32_t b) { uint32_t t = a + b; s->cc = (t < a ? 2 : 0) + (t != 0); return t; }
static uint32_t subl(S *s, uint32_t a, uint32_t b) { uint32_t t = a - b; s->cc = (a >= b ? 2 : 0) + (t != 0); return t; }
static void cmp32(S *s, uint32_t a, uint32_t b) { s->cc = a == b ? 0 : (int32_t)a < (int32_t)b ? 1 : 2; }
static void cmpl(S *s, uint32_t a, uint32_t b) { s->cc = a == b ? 0 : a < b ? 1 : 2; }
static uint32_t sx(uint32_t h) { return (h & 0x8000) ? h | 0xffff0000u : h; }

/* ---- packed decimal (digit arrays, least significant first) ---- */
static int dec_get(uint32_t a, int len, uint8_t *d, int *neg) {   /* len bytes; 0 ok, 7 bad data */
    int i, n = 0, e = 0; uint8_t b = RM[a + len - 1];
    *neg = ((b & 0xf) == 0xb) | ((b & 0xf) == 0xd);
    if ((b & 0xf) < 10) e = 7;
    d[n++] = b >> 4;
    for (i = len - 2; i >= 0; i--) { b = RM[a + i]; d[n++] = b & 0xf; d[n++] = b >> 4; }
    for (i = 0; i < n; i++) if (d[i] > 9) e = 7;
    for (; n < 32; n++) d[n] = 0;
    return e;
}
static uint8_t sgn(S *s, int neg) { return (s->amwp & 8) ? (neg ? 0xb : 0xa) : (neg ? 0xd : 0xc); }
static void dec_put(S *s, uint32_t a, int len, uint8_t *d, int neg) {
    int i, n = 0;
    RM[a + len - 1] = (uint8_t)((d[0] << 4) | sgn(s, neg)); n = 1;
    for (i = len - 2; i >= 0; i--) { RM[a + i] = (uint8_t)((d[n + 1] << 4) | d[n]); n += 2; }
}
static void dundef(uint32_t a, int len) { int i; for (i = 0; i < len; i++) RMX[a + i] = 1; }
static void ref_decadd(S *s, int op, uint32_t a1, int l1, uint32_t a2, int l2) {
    uint8_t x[32], y[32], z[32]; int nx = 0, ny = 0, i, e, neg, c, n1 = 2 * l1 - 1, ge, ov, zero;
    e = op == 0xf8 ? 0 : dec_get(a1, l1, x, &nx);
    if (op == 0xf8) { for (i = 0; i < 32; i++) x[i] = 0; }
    int e2 = dec_get(a2, l2, y, &ny);
    if (op == 0xf9 && l2 > l1) { uint8_t t[32]; int g; s->dev = (e == 0) & (e2 != 0) & (dec_get(a2 + l2 - l1, l1, t, &g) == 0) ? 1 : 0; }
    if (e2) e = e2;
    if (e) { s->ic = 7; s->ccskip = 1; if (op != 0xf9) dundef(a1, l1); return; }
    if (op == 0xfb || op == 0xf9) ny = !ny;
    ge = 1;                                     /* |x| >= |y| */
    for (i = 0; i < 31; i++) ge = x[i] > y[i] ? 1 : x[i] < y[i] ? 0 : ge;
    if (op == 0xf8) { neg = ny; for (i = 0; i < 32; i++) z[i] = y[i]; }
    else if (nx == ny) {
        c = 0; for (i = 0; i < 32; i++) { int t = x[i] + y[i] + c; c = t > 9; z[i] = (uint8_t)(c ? t - 10 : t); }
        neg = nx;
    } else {
        c = 0;
        for (i = 0; i < 32; i++) { int p = ge ? x[i] : y[i], q = ge ? y[i] : x[i]; int t = p - q - c; c = t < 0; z[i] = (uint8_t)(c ? t + 10 : t); }
        neg = ge ? nx : ny;
    }
    zero = 1; for (i = 0; i < 32; i++) zero = zero & (z[i] == 0);
    if (op == 0xf9) { s->cc = zero ? 0 : neg ? 1 : 2; return; }
    ov = 0; for (i = n1; i < 32; i++) ov = ov | (z[i] != 0);
    if (l2 > l1 && (op == 0xfa || op == 0xfb) && nx != ny) { int p10 = z[n1] == 1; for (i = 0; i < 32; i++) if (i != n1) p10 = p10 & (z[i] == 0); s->dev = p10 ? 2 : 0; }
    neg = zero ? 0 : neg;
    s->cc = ov ? 3 : zero ? 0 : neg ? 1 : 2;
    dec_put(s, a1, l1, z, neg);
    if (ov & (s->pm >> 2)) s->ic = 10;
}

/* storage-to-storage operations whose operands are accessible */
static void dosst(S *s, uint32_t op, const uint8_t *in, int l, int l1, int l2, uint32_t a1, uint32_t a2) {
    uint32_t any = 0; int i, e;
        switch (op) {
        case 0xd1: for (i = 0; i < l; i++) RM[a1 + i] = (RM[a1 + i] & 0xf0) | (RM[a2 + i] & 0x0f); return;
        case 0xd2: for (i = 0; i < l; i++) RM[a1 + i] = RM[a2 + i]; return;
        case 0xd3: for (i = 0; i < l; i++) RM[a1 + i] = (RM[a1 + i] & 0x0f) | (RM[a2 + i] & 0xf0); return;
        case 0xd4: for (i = 0; i < l; i++) { RM[a1 + i] &= RM[a2 + i]; any |= RM[a1 + i]; } s->cc = any != 0; return;
        case 0xd6: for (i = 0; i < l; i++) { RM[a1 + i] |= RM[a2 + i]; any |= RM[a1 + i]; } s->cc = any != 0; return;
        case 0xd7: for (i = 0; i < l; i++) { RM[a1 + i] ^= RM[a2 + i]; any |= RM[a1 + i]; } s->cc = any != 0; return;
        case 0xd5: { uint32_t c = 0; for (i = l - 1; i >= 0; i--) c = RM[a1 + i] < RM[a2 + i] ? 1 : RM[a1 + i] > RM[a2 + i] ? 2 : c; s->cc = c; return; }
        case 0xdc: for (i = 0; i < l; i++) { if (a2 + RM[a1 + i] >= MEMSZ) { s->ic = 5; dundef(a1, l); return; } RM[a1 + i] = RM[a2 + RM[a1 + i]]; } return;
        case 0xdd: { uint32_t done = 0, fb = 0, fa = 0, last = 0;
            for (i = 0; i < l && !done; i++) { if (a1 + i >= MEMSZ || a2 + RM[a1 + i] >= MEMSZ) { s->ic = 5; s->ccskip = 1; s->rskip |= 6; return; } uint32_t x = RM[a2 + RM[a1 + i]]; if (!done && x) { done = 1; fb = x; fa = a1 + i; last = i == l - 1; } }
            if (done) { s->r[1] = (s->r[1] & 0xff000000u) | fa; s->r[2] = (s->r[2] & ~0xffu) | fb; }
            s->cc = !done ? 0 : last ? 2 : 1; return; }
        case 0xde: case 0xdf: {
            uint8_t fill = RM[a1]; int sig = 0, src = 0, havelo = 0, nz = 0, neg = 0, k; uint8_t lo = 0; int field = 0;
            for (k = 0; k < l; k++) {
                uint8_t p = RM[a1 + k];
                if (p == 0x20 || p == 0x21) {
                    uint8_t dg; int plus = 0, issign = 0;
                    if (!havelo) {
                        uint8_t sb = RM[a2 + src]; src++; dg = sb >> 4; lo = sb & 15; havelo = 1;
                        if (dg > 9) { s->ic = 7; s->ccskip = 1; dundef(a1, l); s->rskip |= op == 0xdf ? 2 : 0; return; }
                        if (lo > 9) { havelo = 0; issign = 1; plus = lo == 0xa || lo == 0xc || lo == 0xe || lo == 0xf; }
                    } else { dg = lo; havelo = 0; }
                    if (dg) nz = 1;
                    field = 1;
                    if (dg || sig) {
                        if (op == 0xdf && !sig) s->r[1] = (s->r[1] & 0xff000000u) | (a1 + k);
                        RM[a1 + k] = dg | ((s->amwp & 8) ? 0x50 : 0xf0); sig = 1;
                    } else RM[a1 + k] = fill;
                    if (p == 0x21) sig = 1;
                    if (issign && plus) sig = 0;
                } else if (p == 0x22) { sig = 0; nz = 0; field = 0; RM[a1 + k] = fill; }
                else if (!sig) RM[a1 + k] = fill;
            }
            (void)neg; (void)field;
            s->cc = !nz ? 0 : sig ? 1 : 2; return; }
        case 0xf1: { int j = l2 - 1; uint8_t pv = RM[a1 + l1 - 1] & 0x0f;                               /* MVO */
            for (i = l1 - 1; i >= 0; i--) { uint8_t sb = j >= 0 ? RM[a2 + j] : 0; j--; RM[a1 + i] = (uint8_t)((sb << 4) | pv); pv = sb >> 4; }
            return; }
        case 0xf2: { int j = l2 - 1; uint8_t sb = RM[a2 + j]; j--; RM[a1 + l1 - 1] = (uint8_t)((sb << 4) | (sb >> 4));         /* PACK */
            for (i = l1 - 2; i >= 0; i--) { uint8_t lo = 0, hi = 0; if (j >= 0) { lo = RM[a2 + j] & 15; j--; } if (j >= 0) { hi = RM[a2 + j] & 15; j--; } RM[a1 + i] = (uint8_t)((hi << 4) | lo); }
            return; }
        case 0xf3: { int j = l2 - 1; uint8_t z = (s->amwp & 8) ? 0x50 : 0xf0, sb = RM[a2 + j]; j--; RM[a1 + l1 - 1] = (uint8_t)((sb << 4) | (sb >> 4));   /* UNPK */
            int hi = 0; sb = 0;
            for (i = l1 - 2; i >= 0; i--) { if (!hi) { sb = j >= 0 ? RM[a2 + j] : 0; j--; RM[a1 + i] = z | (sb & 15); hi = 1; } else { RM[a1 + i] = z | (sb >> 4); hi = 0; } }
            return; }
        case 0xf8: case 0xf9: case 0xfa: case 0xfb: ref_decadd(s, op, a1, l1, a2, l2); return;
        case 0xfc: {                                                                                    /* MP */
            uint8_t x[32], y[32], z[32]; int nx, ny, k, j;
            e = dec_get(a1, l1, x, &nx); if (dec_get(a2, l2, y, &ny)) e = 7;
            for (i = 2 * l1 - 1 - 2 * l2; i < 2 * l1 - 1; i++) if (x[i]) e = 7;
            if (e) { s->ic = 7; dundef(a1, l1); return; }
            for (i = 0; i < 32; i++) z[i] = 0;
            for (j = 0; j < 2 * l2 - 1; j++) { int c = 0; for (k = 0; j + k < 32; k++) { int q = z[j + k] + x[k] * y[j] + c; z[j + k] = (uint8_t)(q % 10); c = q / 10; } }
            dec_put(s, a1, l1, z, nx != ny); return; }
        case 0xfd: {                                                                                    /* DP */
            uint8_t x[32], y[32], q[32], r[32]; int nx, ny, k, zero = 1;
            e = dec_get(a1, l1, x, &nx); if (dec_get(a2, l2, y, &ny)) e = 7;
            if (e) { s->ic = 7; s->ic2 = 11; dundef(a1, l1); return; }
            uint64_t uy = 0, ux = 0; for (i = 2 * l2 - 2; i >= 0; i--) { uy = uy * 10 + y[i]; zero = zero & (y[i] == 0); }
            for (i = 2 * l1 - 2; i >= 0; i--) ux = ux * 10 + x[i];
            if (uy == 0) STOP(11);
            uint64_t uq = ux / uy, ur = ux % uy; int lq = l1 - l2; uint64_t lim = 1; for (i = 0; i < 2 * lq - 1; i++) lim *= 10;
            if (uq >= lim) STOP(11);
            for (k = 0; k < 32; k++) { q[k] = (uint8_t)(uq % 10); uq /= 10; r[k] = (uint8_t)(ur % 10); ur /= 10; }
            dec_put(s, a1, lq, q, nx != ny); dec_put(s, a1 + lq, l2, r, nx); return; }
        default: s->ic = 1; return;
        }
}

/* ---- floating point: fractions carried with one guard digit ---- */
#define FM(lg) ((lg) ? 0x00ffffffffffffffull : 0x00ffffffull)
static void fres(S *s, int r, int lg, int sg, int c, uint64_t f) {          /* c already in range */
    uint64_t hi = ((uint64_t)(sg & 1) << 63) | ((uint64_t)(c & 127) << 56);
    s->f[r >> 1] = lg ? hi | f : hi | (f << 32) | (s->f[r >> 1] & 0xffffffffull);
}
static void fzero(S *s, int r, int lg) { fres(s, r, lg, 0, 0, 0); }
/* characteristic c of a normalized result with fraction f (no guard) */
static void fput(S *s, int r, int lg, int sg, int c, uint64_t f, int cc) {
    if (c > 127) { s->ic = 12; s->ccskip |= cc; s->fskip |= 1 << (r >> 1); return; }
    if (c < 0) { if (s->pm & 2) { s->ic = 13; s->ccskip |= cc; s->fskip |= 1 << (r >> 1); return; } fzero(s, r, lg); if (cc) s->cc = 0; return; }
    fres(s, r, lg, sg, c, f); if (cc) s->cc = f == 0 ? 0 : sg ? 1 : 2;
}
static void fadd(S *s, int r, int lg, uint64_t a, uint64_t b, int norm, int cmp) {
    int sh = lg ? 0 : 32, sa, sb, ca, cb, c, d, sg; uint64_t fa, fb, t, top = lg ? 1ull << 60 : 1ull << 28;
    sa = (int)(a >> 63); sb = (int)(b >> 63); ca = (int)(a >> 56) & 127; cb = (int)(b >> 56) & 127;
    fa = ((a & 0x00ffffffffffffffull) >> sh) << 4; fb = ((b & 0x00ffffffffffffffull) >> sh) << 4;
    if (ca > cb) { d = ca - cb; c = ca; fb = d > 15 ? 0 : fb >> (4 * d); } else { d = cb - ca; c = cb; fa = d > 15 ? 0 : fa >> (4 * d); }
    if (sa == sb) { t = fa + fb; sg = sa; } else if (fa >= fb) { t = fa - fb; sg = sa; } else { t = fb - fa; sg = sb; }
    if (t == 0) sg = 0;
    if (cmp) { s->cc = t == 0 ? 0 : sg ? 1 : 2; return; }
    if (!norm && t != 0 && (t >> 4) == 0) { s->dev = 3; return; }            /* unnormalized, only the guard digit is left: zero or not, left open */
    if (t == 0) {                                                            /* significance */
        if (s->pm & 1) { s->ic = 14; s->cc = 0; fres(s, r, lg, 0, c, 0); return; }
        fzero(s, r, lg); s->cc = 0; return;
    }
    if (t >= top) { t >>= 4; c++; }
    if (norm) { while (t < (top >> 4)) { t <<= 4; c--; } }
    fput(s, r, lg, sg, c, t >> 4, 1);
}
static uint64_t fnorm(uint64_t f, int lg, int *c) { uint64_t m = lg ? 1ull << 52 : 1ull << 20; if (f) while (f < m) { f <<= 4; (*c)--; } return f; }
static void fmul(S *s, int r, int lg, uint64_t a, uint64_t b) {
    int sg = (int)((a ^ b) >> 63), ca = (int)(a >> 56) & 127, cb = (int)(b >> 56) & 127, c; uint64_t fa = a & 0x00ffffffffffffffull, fb = b & 0x00ffffffffffffffull, t;
    if (!lg) { fa >>= 32; fb >>= 32; }
    if (fa == 0 || fb == 0) { fzero(s, r, 1); return; }
    fa = fnorm(fa, lg, &ca); fb = fnorm(fb, lg, &cb); c = ca + cb - 64;
    if (!lg) { t = fa * fb; if (t < (1ull << 44)) { t <<= 4; c--; } t <<= 8; }
    else {
        uint64_t ah = fa >> 28, al = fa & 0xfffffff, bh = fb >> 28, bl = fb & 0xfffffff, mid = ah * bl, mid2 = al * bh, lo = al * bl, hi = ah * bh;
        uint64_t x = (lo >> 28) + (mid & 0xfffffff) + (mid2 & 0xfffffff); hi += (mid >> 28) + (mid2 >> 28) + (x >> 28); x &= 0xfffffff;      /* hi: top 56 bits, x: next 28 */
        t = hi; if (t < (1ull << 52)) { t = (t << 4) | (x >> 24); c--; }
    }
    fput(s, r, 1, sg, c, t, 0);
}
static void fdiv(S *s, int r, int lg, uint64_t a, uint64_t b) {
    int sg = (int)((a ^ b) >> 63), ca = (int)(a >> 56) & 127, cb = (int)(b >> 56) & 127, c, i, n = lg ? 14 : 6; uint64_t fa = a & 0x00ffffffffffffffull, fb = b & 0x00ffffffffffffffull, q = 0;
    if (!lg) { fa >>= 32; fb >>= 32; }
    if (fb == 0) { s->ic = 15; return; }
    if (fa == 0) { fzero(s, r, lg); return; }
    fa = fnorm(fa, lg, &ca); fb = fnorm(fb, lg, &cb); c = ca - cb + 64;
    if (fa >= fb) { c++; q = 1; fa -= fb; while (fa >= fb) { fa -= fb; q++; } n--; }
    for (i = 0; i < n; i++) { int k = 0; fa <<= 4; while (fa >= fb) { fa -= fb; k++; } q = (q << 4) | k; }
    fput(s, r, lg, sg, c, q, 0);
}
/* 2x 3x (register) and 6x 7x (storage); 1 when handled */
static int fpexec(S *s, uint32_t op, int r1, int r2, uint32_t a) {
    int lg = (op & 0x10) == 0, rx = op >= 0x60, k = op & 15, e; uint64_t x, y, v;
    if (rx ? (k >= 1 && k <= 7) : k >= 6 && k <= 7) return 0;
    if (!rx && (k == 5)) return 0;
    if (!rx && k == 15 + 0 * lg) { }
    if ((r1 & 9) || (!rx && (r2 & 9))) { s->ic = 6; return 1; }
    if (rx) {
        if ((e = k == 0 ? chkst(s, a, lg ? 8 : 4, lg ? 8 : 4) : chk(a, lg ? 8 : 4, lg ? 8 : 4))) { s->ic = e; return 1; }
        if (k == 0) { st(a, 4, (uint32_t)(s->f[r1 >> 1] >> 32)); if (lg) st(a + 4, 4, (uint32_t)s->f[r1 >> 1]); return 1; }
        y = (uint64_t)ld(a, 4) << 32; if (lg) y |= ld(a + 4, 4);
    } else y = s->f[r2 >> 1];
    x = s->f[r1 >> 1]; if (!lg) { x &= 0xffffffff00000000ull; y &= 0xffffffff00000000ull; }
    v = 0x8000000000000000ull;
    switch (k) {
    case 0: y &= ~v; goto load;                                             /* LP LN LT LC */
    case 1: y |= v; goto load;
    case 2: goto load;
    case 3: y ^= v;
    load: s->cc = (y & 0x00ffffffffffffffull) == 0 ? 0 : (y >> 63) ? 1 : 2; /* fall through */
    case 8: s->f[r1 >> 1] = lg ? y : y | (s->f[r1 >> 1] & 0xffffffffull); return 1;
    case 4: { int c = (int)(y >> 56) & 127; x = ((y & 0x00ffffffffffffffull) >> (lg ? 0 : 32)) << 3;                     /* H */
        if (x == 0) { fzero(s, r1, lg); return 1; }
        while (x < (lg ? 1ull << 56 : 1ull << 24)) { x <<= 4; c--; }
        fput(s, r1, lg, (int)(y >> 63), c, x >> 4, 0); return 1; }
    case 9: fadd(s, r1, lg, x, y ^ v, 1, 1); return 1;
    case 10: fadd(s, r1, lg, x, y, 1, 0); return 1;
    case 11: fadd(s, r1, lg, x, y ^ v, 1, 0); return 1;
    case 12: fmul(s, r1, lg, x, y); return 1;
    case 13: fdiv(s, r1, lg, x, y); return 1;
    case 14: fadd(s, r1, lg, x, y, 0, 0); return 1;
    case 15: fadd(s, r1, lg, x, y ^ v, 0, 0); return 1;
    }
    return 0;
}
/* one instruction at s->pc with bytes in[0..5]; ex: 1 when the subject of EXECUTE */
static void ref_exec(S *s, const uint8_t *in, int ex) {
    uint32_t op = in[0], a, b, v, w, t, a1, a2; int i, e, n;
    int r1 = in[1] >> 4, r2 = in[1] & 15, b2 = in[2] >> 4; uint32_t d2 = ((in[2] & 15) << 8) | in[3];
    int len = op < 0x40 ? 2 : op < 0xc0 ? 4 : 6;
    if (!ex) { s->ilc = len / 2; s->pc += len; }
    int priv = s->amwp & 1;
    if (priv && ((op >= 0x9c && op <= 0x9f) || (op >= 0x83 && op <= 0x85))) STOP(2);
    if ((op & 0xa0) == 0x20 && fpexec(s, op, r1, r2, op >= 0x60 ? ea(s, r2, b2, d2) : 0)) return;
    switch (op) {
    /* ---- RR ---- */
    case 0x04: s->cc = (s->r[r1] >> 28) & 3; s->pm = (s->r[r1] >> 24) & 15; return;                     /* SPM */
    case 0x05: case 0x45:                                                                              /* BALR BAL */
        t = op == 5 ? s->r[r2] : ea(s, r2, b2, d2);
        v = ((uint32_t)s->ilc << 30) | (s->cc << 28) | (s->pm << 24) | (s->pc & 0xffffff);
        s->r[r1] = v; if (op == 0x45 || r2) s->pc = t & 0xffffff; return;
    case 0x06: case 0x46:                                                                              /* BCTR BCT */
        t = op == 6 ? s->r[r2] : ea(s, r2, b2, d2);
        s->r[r1]--; if ((op == 0x46 || r2) && s->r[r1] != 0) s->pc = t & 0xffffff; return;
    case 0x07: case 0x47:                                                                              /* BCR BC */
        t = op == 7 ? s->r[r2] : ea(s, r2, b2, d2);
        if ((op == 0x47 || r2) && ((r1 << s->cc) & 8)) s->pc = t & 0xffffff; return;
    case 0x08:                                                                                         /* SSK */
        a = s->r[r2] & 0xffffff; e = (a & 15) ? 6 : a >= MEMSZ ? 5 : 0;
        if (priv) STOP2(2, e); if (e == 6 && a >= MEMSZ) STOP2(6, 5); if (e) STOP(e);
        SK[a >> 11] = (s->r[r1] >> 4) & 15; return;
    case 0x09:                                                                                         /* ISK */
        a = s->r[r2] & 0xffffff; e = (a & 15) ? 6 : a >= MEMSZ ? 5 : 0;
        if (priv) STOP2(2, e); if (e == 6 && a >= MEMSZ) STOP2(6, 5); if (e) STOP(e);
        s->r[r1] = (s->r[r1] & ~0xffu) | (SK[a >> 11] << 4); return;
    case 0x0a: s->svc = in[1]; return;                                                                 /* SVC */
    case 0x10: v = s->r[r2]; t = (v >> 31) ? 0 - v : v; s->r[r1] = t; s->cc = v == 0x80000000u ? 3 : t ? 2 : 0;
        if ((v == 0x80000000u) & (s->pm >> 3)) s->ic = 8; return;                                      /* LPR */
    case 0x11: v = s->r[r2]; t = (v >> 31) ? v : 0 - v; s->r[r1] = t; s->cc = t ? 1 : 0; return;        /* LNR */
    case 0x12: v = s->r[r2]; s->r[r1] = v; s->cc = sgncc(v); return;                                    /* LTR */
    case 0x13: s->r[r1] = sub32(s, 0, s->r[r2]); return;                                                /* LCR */
    case 0x14: s->r[r1] &= s->r[r2]; s->cc = s->r[r1] != 0; return;
    case 0x16: s->r[r1] |= s->r[r2]; s->cc = s->r[r1] != 0; return;
    case 0x17: s->r[r1] ^= s->r[r2]; s->cc = s->r[r1] != 0; return;
    case 0x15: cmpl(s, s->r[r1], s->r[r2]); return;
    case 0x18: s->r[r1] = s->r[r2]; return;
    case 0x19: cmp32(s, s->r[r1], s->r[r2]); return;
    case 0x1a: s->r[r1] = add32(s, s->r[r1], s->r[r2]); return;
    case 0x1b: s->r[r1] = sub32(s, s->r[r1], s->r[r2]); return;
    case 0x1e: s->r[r1] = addl(s, s->r[r1], s->r[r2]); return;
    case 0x1f: s->r[r1] = subl(s, s->r[r1], s->r[r2]); return;
    case 0x1c: case 0x5c: {                                                                            /* MR M */
        int64_t p;
        if (r1 & 1) STOP(6);
        if (op == 0x5c) { a = ea(s, r2, b2, d2); if ((e = chk(a, 4, 4))) STOP(e); v = ld(a, 4); } else v = s->r[r2];
        p = (int64_t)(int32_t)s->r[r1 + 1] * (int32_t)v; s->r[r1] = (uint32_t)(p >> 32); s->r[r1 + 1] = (uint32_t)p; return; }
    case 0x1d: case 0x5d: {                                                                            /* DR D */
        int64_t p, q; uint32_t den;
        if (r1 & 1) STOP(6);
        if (op == 0x5d) { a = ea(s, r2, b2, d2); if ((e = chk(a, 4, 4))) STOP(e); den = ld(a, 4); } else den = s->r[r2];
        if (den == 0) STOP(9);
        p = (int64_t)(((uint64_t)s->r[r1] << 32) | s->r[r1 + 1]);
        /* 64/32 signed division without overflow traps of our own */
        uint64_t up = p < 0 ? 0 - (uint64_t)p : (uint64_t)p; uint32_t ud = (den >> 31) ? 0 - den : den;
        uint64_t uq = up / ud, ur = up % ud; int nq = (p < 0) != (int)(den >> 31);
        if (nq ? uq > 0x80000000ull : uq > 0x7fffffffull) STOP(9);
        q = nq ? -(int64_t)uq : (int64_t)uq;
        s->r[r1] = (uint32_t)(p < 0 ? 0 - ur : ur); s->r[r1 + 1] = (uint32_t)q; return; }
    /* ---- RX ---- */
    case 0x40: a = ea(s, r2, b2, d2); if ((e = chkst(s, a, 2, 2))) STOP(e); st(a, 2, s->r[r1]); return; /* STH */
    case 0x41: s->r[r1] = ea(s, r2, b2, d2); return;                                                    /* LA */
    case 0x42: a = ea(s, r2, b2, d2); if ((e = chkst(s, a, 1, 1))) STOP(e); st(a, 1, s->r[r1]); return; /* STC */
    case 0x43: a = ea(s, r2, b2, d2); if ((e = chk(a, 1, 1))) STOP(e); s->r[r1] = (s->r[r1] & ~0xffu) | RM[a]; return; /* IC */
    case 0x44: {                                                                                       /* EX */
        uint8_t x[6]; if (ex) STOP(3);
        a = ea(s, r2, b2, d2); if (a & 1) STOP(6); if (a + 2 > MEMSZ) STOP(5);
        for (i = 0; i < 6; i++) x[i] = a + i < MEMSZ ? RM[a + i] : 0;
        if (r1) x[1] |= s->r[r1] & 0xff;
        if (x[0] == 0x44) STOP(3);
        ref_exec(s, x, 1); return; }
    case 0x48: case 0x49: case 0x4a: case 0x4b: case 0x4c:                                              /* LH CH AH SH MH */
        a = ea(s, r2, b2, d2); if ((e = chk(a, 2, 2))) STOP(e); v = sx(ld(a, 2));
        if (op == 0x48) s->r[r1] = v; else if (op == 0x49) cmp32(s, s->r[r1], v);
        else if (op == 0x4a) s->r[r1] = add32(s, s->r[r1], v); else if (op == 0x4b) s->r[r1] = sub32(s, s->r[r1], v);
        else s->r[r1] = s->r[r1] * v;
        return;
    case 0x4e: {                                                                                       /* CVD */
        a = ea(s, r2, b2, d2); if ((e = chkst(s, a, 8, 8))) STOP(e);
        v = s->r[r1]; int neg = v >> 31; uint32_t u = neg ? 0 - v : v; uint8_t d[32];
        for (i = 0; i < 32; i++) d[i] = 0;
        for (i = 0; i < 10; i++) { d[i] = (uint8_t)(u % 10); u /= 10; }
        dec_put(s, a, 8, d, neg); return; }
    case 0x4f: {                                                                                       /* CVB */
        uint8_t d[32]; int neg; uint64_t x = 0;
        a = ea(s, r2, b2, d2); if ((e = chk(a, 8, 8))) STOP(e);
        if (dec_get(a, 8, d, &neg)) { s->ic = 7; s->rskip |= 1 << r1; return; }
        for (i = 14; i >= 0; i--) x = x * 10 + d[i];
        t = (uint32_t)x; if (neg) t = 0 - t;
        s->r[r1] = t;
        if (neg ? x > 0x80000000ull : x > 0x7fffffffull) { s->ic = 9; s->rskip |= 1 << r1; }
        return; }
    case 0x50: a = ea(s, r2, b2, d2); if ((e = chkst(s, a, 4, 4))) STOP(e); st(a, 4, s->r[r1]); return; /* ST */
    case 0x54: case 0x55: case 0x56: case 0x57: case 0x58: case 0x59: case 0x5a: case 0x5b: case 0x5e: case 0x5f:
        a = ea(s, r2, b2, d2); if ((e = chk(a, 4, 4))) STOP(e); v = ld(a, 4);
        switch (op) {
        case 0x54: s->r[r1] &= v; s->cc = s->r[r1] != 0; break;
        case 0x56: s->r[r1] |= v; s->cc = s->r[r1] != 0; break;
        case 0x57: s->r[r1] ^= v; s->cc = s->r[r1] != 0; break;
        case 0x55: cmpl(s, s->r[r1], v); break;
        case 0x58: s->r[r1] = v; break;
        case 0x59: cmp32(s, s->r[r1], v); break;
        case 0x5a: s->r[r1] = add32(s, s->r[r1], v); break;
        case 0x5b: s->r[r1] = sub32(s, s->r[r1], v); break;
        case 0x5e: s->r[r1] = addl(s, s->r[r1], v); break;
        case 0x5f: s->r[r1] = subl(s, s->r[r1], v); break;
        }
        return;
    /* ---- RS / SI ---- */
    case 0x80: a = ea(s, 0, b2, d2); e = chk(a, 1, 1); if (priv) STOP2(2, e); if (e) STOP(e); s->mask = RM[a]; return;   /* SSM */
    case 0x82: a = ea(s, 0, b2, d2); e = chk(a, 8, 8); if (priv) STOP2(2, e); if (e) STOP(e);                             /* LPSW */
        v = ld(a, 4); w = ld(a + 4, 4);
        s->mask = v >> 24; s->key = (v >> 20) & 15; s->amwp = (v >> 16) & 15; s->cc = (w >> 28) & 3; s->pm = (w >> 24) & 15; s->pc = w & 0xffffff; s->psw = 1; return;
    case 0x86: case 0x87:                                                                              /* BXH BXLE */
        v = s->r[r2]; t = s->r[r2 | 1]; w = s->r[r1] + v; a = ea(s, 0, b2, d2);
        s->r[r1] = w; i = (int32_t)w > (int32_t)t;
        if (op == 0x86 ? i : !i) s->pc = a; return;
    case 0x88: n = ea(s, 0, b2, d2) & 63; s->r[r1] = n > 31 ? 0 : s->r[r1] >> n; return;
    case 0x89: n = ea(s, 0, b2, d2) & 63; s->r[r1] = n > 31 ? 0 : s->r[r1] << n; return;
    case 0x8a: n = ea(s, 0, b2, d2) & 63; s->r[r1] = (uint32_t)((int32_t)s->r[r1] >> (n > 31 ? 31 : n)); s->cc = sgncc(s->r[r1]); return;
    case 0x8b: { n = ea(s, 0, b2, d2) & 63; v = s->r[r1]; uint64_t m = ((uint64_t)(v & 0x7fffffff)) << (n > 32 ? 32 : n), sg = (v >> 31) ? 0x7fffffffull : 0;
        /* overflow: a bit unlike the sign leaves position 1 */
        uint64_t out = n > 31 ? ((v & 0x7fffffff) ^ sg) | (v >> 31) : ((v & 0x7fffffff) ^ (uint32_t)sg) >> (31 - n);
        t = (v & 0x80000000u) | (n > 31 ? 0 : (uint32_t)m & 0x7fffffff); s->r[r1] = t; s->cc = out ? 3 : sgncc(t);
        if ((out != 0) & (s->pm >> 3)) s->ic = 8; return; }
    case 0x8c: case 0x8d: case 0x8e: case 0x8f: {
        if (r1 & 1) STOP(6);
        n = ea(s, 0, b2, d2) & 63; uint64_t x = ((uint64_t)s->r[r1] << 32) | s->r[r1 + 1], y;
        if (op == 0x8c) y = x >> n; else if (op == 0x8d) y = x << n;
        else if (op == 0x8e) { y = (uint64_t)((int64_t)x >> n); }
        else { y = (x & 0x8000000000000000ull) | ((x << n) & 0x7fffffffffffffffull); }
        if (op >= 0x8e) s->cc = y == 0 ? 0 : (y >> 63) ? 1 : 2;
        if (op == 0x8f) {
            uint64_t sg = (x >> 63) ? ~0ull : 0, out = n ? ((x ^ sg) & 0x7fffffffffffffffull) >> (63 - n) : 0;
            if (out) s->cc = 3;
            if ((out != 0) & (s->pm >> 3)) s->ic = 8;
        }
        s->r[r1] = (uint32_t)(y >> 32); s->r[r1 + 1] = (uint32_t)y; return; }
    case 0x90: case 0x98:                                                                              /* STM LM */
        a = ea(s, 0, b2, d2); n = ((r2 - r1) & 15) + 1;
        if (op == 0x90) { if ((e = chkst(s, a, 4 * n, 4))) { s->ic = e; if (e != 6) { for (i = 0; i < 4 * n; i++) if (a + i < MEMSZ) RMX[a + i] = 1; } return; } }
        else if ((e = chk(a, 4 * n, 4))) { s->ic = e; if (e != 6) for (i = 0; i < n; i++) s->rskip |= 1 << ((r1 + i) & 15); return; }
        for (i = 0; i < n; i++) { if (op == 0x90) st(a + 4 * i, 4, s->r[(r1 + i) & 15]); else s->r[(r1 + i) & 15] = ld(a + 4 * i, 4); }
        return;
    case 0x91: a = ea(s, 0, b2, d2); if ((e = chk(a, 1, 1))) STOP(e); v = RM[a] & in[1]; s->cc = v == 0 ? 0 : v == in[1] ? 3 : 1; return; /* TM */
    case 0x92: a = ea(s, 0, b2, d2); if ((e = chkst(s, a, 1, 1))) STOP(e); RM[a] = in[1]; return;
    case 0x93: a = ea(s, 0, b2, d2); if ((e = chkst(s, a, 1, 1))) { s->ccskip = 1; STOP(e); } s->cc = RM[a] >> 7; RM[a] = 0xff; return;                    /* TS */
    case 0x94: a = ea(s, 0, b2, d2); if ((e = chkst(s, a, 1, 1))) STOP(e); RM[a] &= in[1]; s->cc = RM[a] != 0; return;
    case 0x95: a = ea(s, 0, b2, d2); if ((e = chk(a, 1, 1))) STOP(e); cmpl(s, RM[a], in[1]); return;
    case 0x96: a = ea(s, 0, b2, d2); if ((e = chkst(s, a, 1, 1))) STOP(e); RM[a] |= in[1]; s->cc = RM[a] != 0; return;
    case 0x97: a = ea(s, 0, b2, d2); if ((e = chkst(s, a, 1, 1))) STOP(e); RM[a] ^= in[1]; s->cc = RM[a] != 0; return;
    default: break;
    }
    if (op >= 0xd0) {
        int l = in[1] + 1, l1 = (in[1] >> 4) + 1, l2 = (in[1] & 15) + 1, dec = op >= 0xf0;
        a1 = ea(s, 0, b2, d2); a2 = ea(s, 0, in[4] >> 4, ((in[4] & 15) << 8) | in[5]);
        if (!dec) l1 = l2 = l;
        int stores = op != 0xd5 && op != 0xdd && op != 0xf9;
        if (op == 0xfc || op == 0xfd) { if (l2 > 8 || l2 >= l1) { uint8_t d[32]; int g, h; if (dec_get(a1, l1, d, &g) | dec_get(a2, l2, d, &h)) s->ic2 = 7; s->ccskip = 1; STOP(6); } }
        e = 0;
        if (stores) e = chkst(s, a1, l1, 1); else e = op == 0xdd ? 0 : chk(a1, l1, 1);
        if (stores && a1 < MEMSZ && s->key != 0 && SK[a1 >> 11] != s->key) s->ic2 = 4;
        if (op != 0xdc && op != 0xdd && op != 0xde && op != 0xdf) { int e2 = chk(a2, l2, 1); if (e2 && !e) e = e2; else if (e2 && e != e2) s->ic2 = e2; }
        if (e) { if (dec && op != 0xf1 && op != 0xf2 && op != 0xf3) { uint8_t d[32]; int g; if (a2 + l2 <= MEMSZ && dec_get(a2, l2, d, &g)) s->ic2 = 7; if (op != 0xf8 && a1 + l1 <= MEMSZ && dec_get(a1, l1, d, &g)) s->ic2 = 7; }
            s->ic = e; s->ccskip = 1; if (op == 0xdf) s->rskip |= 2; if (stores) for (i = 0; i < l1; i++) if (a1 + i < MEMSZ) RMX[a1 + i] = 1; return; }
        dosst(s, op, in, l, l1, l2, a1, a2); return;
    }
    STOP(1);
}
