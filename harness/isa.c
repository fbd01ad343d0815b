/* One System/360 instruction on the real microcode engine against the
   reference interpreter.  symx_case = opcode*16 + variant. */
#ifdef TRACE
#include <stdio.h>
#include <stdlib.h>
#endif
#include "mach.h"
#include "ref360.h"
#ifdef M30
#define NALIGN 1            /* a byte-wide machine: word alignment of storage operands is irrelevant */
#else
#define NALIGN 4
#endif
static S s;
static uint8_t in[6];
static uint32_t PC0 = 0x400;
static struct { uint32_t a, n; } win[12];
static int nwin;
static void wadd(uint32_t a, uint32_t n) { win[nwin].a = a; win[nwin].n = n; nwin++; }
static void setb(uint32_t a, uint32_t v) { m_setmem(a, v); RM[a] = (uint8_t)v; }
static void setw(uint32_t a, uint32_t v) { int i; for (i = 0; i < 4; i++) setb(a + i, (v >> (24 - 8 * i)) & 0xff); }
static uint32_t mw(uint32_t a) { int i; uint32_t v = 0; for (i = 0; i < 4; i++) v = (v << 8) | m_getmem(a + i); return v; }
static void opnd(uint32_t a, int n) { int i; for (i = 0; i < n; i++) setb(a + i, symx_u8("mem")); }
static void window(uint32_t a, int n) { uint32_t lo = a > 16 ? a - 16 : 0, hi = a + n + 16 > MEMSZ ? MEMSZ : a + n + 16; if (lo < hi) wadd(lo, hi - lo); }
static void setr(int n, uint32_t v) { s.r[n] = v; }
#ifdef TRACE
#define DBG(...) printf(__VA_ARGS__)
#else
#define DBG(...)
#endif
static void setup(int p) {
    int i;
    m_init();
    for (i = 0; i < 16; i++) s.r[i] = symx_u32("gr");
    if (p == 2) { s.mask = 0xfe; s.key = 3; for (i = 0; i < MEMSZ >> 11; i++) { SK[i] = 3; m_setskey(i << 11, 3); } }
    else { s.mask = symx_u8("mask"); s.key = symx_u8("key"); symx_assume(s.key < 16); }
    s.amwp = symx_u8("amwp"); symx_assume(s.amwp < 16 && (s.amwp & 2) == 0 && (p || (s.amwp & 1) == 0));
    s.pm = symx_u8("pm"); symx_assume(s.pm < 16);
    s.cc = symx_u8("cc"); symx_assume(s.cc < 4);
    s.svc = -1;
    setw(0x68, 0xa5250000); setw(0x6c, 0x2b000900);      /* program new PSW */
    setw(0x60, 0x5a500000); setw(0x64, 0x14000a00);      /* supervisor-call new PSW */
    PC0 = 0x400;
}
/* keys of the operand pages: symbolic, first ks pages */
static void skeys(uint32_t a) { uint32_t k = symx_u8("skey"); symx_assume(k < 16); SK[a >> 11] = k; m_setskey(a, k); }
static void put_inst(int len) { int i; for (i = 0; i < len; i++) setb(PC0 + i, in[i]); }
static int samepsw(uint32_t mask, uint32_t key, uint32_t amwp, uint32_t cc, uint32_t pm, uint32_t pc, int ccskip) {
    DBG("pc %x %x cc %x %x pm %x %x mask %x %x key %x %x amwp %x %x\n", m_pc(), pc, m_cc(), cc_enc(cc), m_pm(), pm, m_mask(), mask, m_key(), key, m_amwp(), amwp);
    symx_assert(m_pc() == pc, "next instruction address");
    if (!ccskip) symx_assert(m_cc() == cc_enc(cc), "condition code");
    symx_assert(m_pm() == pm, "program mask");
    symx_assert(m_mask() == mask, "system mask");
    symx_assert(m_key() == key, "protection key");
    symx_assert(m_amwp() == amwp, "AMWP bits");
    symx_assert(m_latches(), "system mask and ASCII mode in force");
    return 1;
}
static uint8_t dsym;        /* the only symbolic operand byte of a division: case-split before the reference divides */
static void (*again)(void);
static void go(int max) {
    int i, w; uint32_t k; uint32_t om, okey, oamwp;
    s.pc = PC0;
    m_setpsw(s.mask, s.key, s.amwp, s.cc, s.pm);
    for (i = 0; i < 16; i++) m_setreg(i, s.r[i]);
    for (i = 0; i < 4; i++) m_setfp(2 * i, s.f[i]);
    int ok = m_run(PC0, max);
    symx_assert(ok, "instruction completes");
    if (!ok) symx_end();
    if (again) { symx_concretize(&dsym, 1); again(); }
    om = s.mask; okey = s.key; oamwp = s.amwp;
    DBG("\nFP %016llx %016llx %016llx %016llx pm %x\n", s.f[0], s.f[1], s.f[2], s.f[3], s.pm);
    ref_exec(&s, in, 0);
#ifndef M30
    if (s.dev == 1) { symx_assert((mw(0x28) & 0xffff) == 7, "COMPARE DECIMAL, invalid digit only above the first operand's length: data exception"); symx_end(); }
    if (s.dev == 2) { symx_assert(s.ic ? (mw(0x28) & 0xffff) == 10 : m_cc() == 3, "AP/SP, difference exactly 10**(2*L1-1): decimal overflow"); symx_end(); }
#endif
    if (s.dev == 3) symx_end();
    if (s.ic || s.svc >= 0) {
        uint32_t old = s.ic ? 0x28 : 0x20, hi = mw(old), lo = mw(old + 4), code = s.ic ? s.ic : s.svc;
        if (s.ic && s.ic2 && (hi & 0xffff) == s.ic2) code = s.ic2;
        DBG("old %08x %08x want code %x pc %x ilc %x cc %x\n", hi, lo, code, s.pc, s.ilc, s.cc); symx_assert((hi & 0xffff) == code, "interruption code");
        symx_assert(hi >> 16 == ((om << 8) | (okey << 4) | oamwp), "old PSW mask, key and state");
        symx_assert(lo >> 30 == s.ilc, "old PSW instruction length");
        symx_assert((lo & 0xffffff) == s.pc, "old PSW instruction address");
        if (!s.ccskip) symx_assert(((lo >> 28) & 3) == s.cc, "old PSW condition code");
        symx_assert(((lo >> 24) & 15) == s.pm, "old PSW program mask");
        if (s.ic) samepsw(0xa5, 2, 5, 2, 0xb, 0x900, 0); else samepsw(0x5a, 5, 0, 1, 4, 0xa00, 0);
        for (k = 0; k < 8; k++) RMX[old + k] = 1;
        if (s.ic) symx_reach("program interruption"); else symx_reach("svc");
    } else { samepsw(s.mask, s.key, s.amwp, s.cc, s.pm, s.pc, s.ccskip); symx_reach("completed"); }
    for (i = 0; i < 16; i++) if (!(s.rskip >> i & 1)) { if (m_getreg(i) != s.r[i]) DBG("r%d %x want %x\n", i, m_getreg(i), s.r[i]); symx_assert(m_getreg(i) == s.r[i], "general registers"); }
    for (i = 0; i < 4; i++) if (!(s.fskip >> i & 1)) { if (m_getfp(2 * i) != s.f[i]) DBG("f%d %llx want %llx\n", 2 * i, (unsigned long long)m_getfp(2 * i), (unsigned long long)s.f[i]); symx_assert(m_getfp(2 * i) == s.f[i], "floating-point registers"); }
    wadd(0, 0x4c); wadd(0x54, 0x24); wadd(PC0 - 4, 16);
    int same = 1, par = 1;
    for (w = 0; w < nwin; w++) for (k = win[w].a; k < win[w].a + win[w].n; k++) if (!RMX[k]) { uint32_t g = m_getmem(k); if (symx_is_symbolic(g) || g != RM[k]) { if (!(g == RM[k])) DBG("mem %x: %02x want %02x\n", k, g, RM[k]); symx_assert(g == RM[k], "storage contents"); } if (!symx_is_symbolic(m_memparity(k))) par = par & m_memparity(k); else symx_assert(m_memparity(k), "storage parity"); }
    symx_assert(same & par, "storage parity");
    for (w = 0; w < MEMSZ >> 11; w++) symx_assert(m_getskey(w << 11) == SK[w], "storage keys");
    symx_observe(m_pc()); symx_observe(m_getreg(1));
}
static void rr(int op) {
    static const uint8_t p1[] = { 1, 3, 15, 0, 6 }, p2[] = { 2, 3, 0, 14, 7 };
    int v = symx_choice(5, "regs");
    setup(1);
    in[0] = op; in[1] = (p1[v] << 4) | p2[v];
    if (symx_choice(2, "half")) PC0 = 0x402;
    put_inst(2); go(600);
}
/* operand address T through the chosen addressing form */
static void rxaddr(int op, int r1, uint32_t T, int mode) {
    uint32_t d = 0x123; int x = 0, b = 0;
    if (mode == 0) d = T;                                    /* D only, T < 4096 */
    else if (mode == 1) { b = r1 ? r1 : 4; setr(b, (T - d) | ((uint32_t)symx_u8("top") << 24)); }
    else if (mode == 2) { x = 5; b = 4; uint32_t xv = symx_u32("x"); d = symx_u16("d"); symx_assume(d < 4096); setr(5, xv); setr(4, ((T - xv - d) & 0xffffff) | ((uint32_t)symx_u8("top") << 24)); }
    else { x = 9; setr(9, T - d); }
    in[0] = op; in[1] = (r1 << 4) | x; in[2] = (b << 4) | (d >> 8); in[3] = (uint8_t)d;
}
static void rx(int op, int size, int variant) {
    uint32_t T; int mode = 0, r1 = 2;
    setup(1);
    if (op == 0x5c || op == 0x5d) r1 = 6;
    if (variant == 0) { mode = symx_choice(4, "mode"); T = mode == 0 ? 0x8e8 : 0x2348 ; if (symx_choice(2, "half")) { T += size; PC0 = 0x402; } }
    else if (variant == 1) { mode = 1; T = 0x2340 + symx_choice(8, "align"); if (symx_choice(2, "r1odd")) r1 = 13; }   /* alignment, odd register */
    else { mode = 3; T = MEMSZ - 2 * size + symx_choice(4, "edge") * size; }   /* end of storage */
    if (T < MEMSZ) { skeys(T); if (T + size <= MEMSZ) opnd(T, size); else opnd(T, MEMSZ - T); window(T, size); }
    rxaddr(op, r1, T, mode);
    put_inst(4); go(1500);
}

/* a register holding a target address under displacement d; top byte arbitrary */
static void base(int b, uint32_t T, uint32_t d) { setr(b, ((T - d) & 0xffffff) | ((uint32_t)symx_u8("top") << 24)); }
static const uint32_t targets[] = { 0x2346, 0x8f0, 0x3fc8, MEMSZ - 4, 0x402 };
/* BC BCT BAL and their register forms */
static void branch(int op, int v) {
    uint32_t T = targets[symx_choice(5, "target")];
    setup(1);
    if (symx_choice(2, "half")) PC0 = 0x402;
    if (v == 1) T |= 1;                                      /* odd target */
    if (v == 2) { T = MEMSZ + (symx_u32("far") & 0xfffffe & ~(MEMSZ - 1)); symx_assume(T < 0x1000000); T = T + 0x2346 % MEMSZ - (T & (MEMSZ - 1)); }
    if (op < 0x10) {
        static const uint8_t p1[] = { 1, 3, 15, 0, 6, 7 }, p2[] = { 2, 3, 0, 14, 0, 7 };
        int k = symx_choice(6, "regs");
        in[0] = op; in[1] = (p1[k] << 4) | p2[k];
        if (op == 7) in[1] = (symx_u8("m1") & 0xf0) | p2[k];
        if (p2[k]) base(p2[k], T, 0);
        else if (p1[k] == 0 && op != 7) ;
        put_inst(2);
    } else {
        int k = symx_choice(3, "regs"), m = symx_choice(4, "mode"); static const uint8_t p1[] = { 2, 0, 15 };
        if (m == 0) T = (T & 0xffe) | (v == 1);
        rxaddr(op, p1[k], T, m);
        if (op == 0x47) in[1] = (symx_u8("m1") & 0xf0) | (in[1] & 15);
        put_inst(4);
    }
    go(800);
}
static void bx(int op) {
    static const uint8_t p1[] = { 2, 2, 3, 15, 7, 0 }, p3[] = { 4, 5, 3, 14, 6, 1 };
    int k = symx_choice(6, "regs"); uint32_t T = targets[symx_choice(3, "target")];
    setup(1); base(10, T, 0x6e);
    if (symx_choice(2, "half")) PC0 = 0x402;
    in[0] = op; in[1] = (p1[k] << 4) | p3[k]; in[2] = 0xa0; in[3] = 0x6e;
    put_inst(4); go(800);
}
#ifdef M30
static int AMT(int op, int dbl, int v) {
    static const uint8_t t[] = { 0, 1, 2, 3, 4, 7, 8, 13, 16, 24, 31, 32, 33, 46, 63 }, d0[] = { 0, 1, 4, 8, 33 }, d4[] = { 1, 3, 15, 16, 31, 32, 47, 63 };
    if (dbl && v == 0) return (op & 1) ? d0[symx_choice(5, "n")] : 4 * symx_choice(12, "n");
    if (dbl && v == 4) return d4[symx_choice(8, "n")];
    return t[symx_choice(15, "n")];
}
#else
static int AMT(int op, int dbl, int v) { return symx_choice(64, "n"); }
#endif
static void shift(int op, int v) {
    int dbl = op >= 0x8c, r1 = 6, n;
    setup(1);
    if (dbl && v == 1) { r1 = 7; n = symx_choice(2, "n"); }
    else if (v == 2) { r1 = 14; n = dbl && sizeof(int) && NALIGN == 1 ? symx_choice(2, "n") * 32 + 4 : symx_choice(4, "n") * 17 + 3; }
    else { n = AMT(op, dbl, v); r1 = v == 1 ? 3 : 6; }
    if (v == 4) {                                            /* long shifts: one byte of the operand and its sign symbolic */
        int k = symx_choice(8, "byte"); uint64_t x = 0x00c35a0f3c96a5f0ull & ~(0xffull << (8 * k)); x |= (uint64_t)symx_u8("data") << (8 * k);
        if (symx_choice(2, "inv")) x = ~x;
        setr(6, (uint32_t)(x >> 32)); setr(7, (uint32_t)x);
    }
    in[0] = op; in[1] = (r1 << 4) | (v == 2 ? 5 : 0); in[2] = 0; in[3] = (uint8_t)n;
    if (v == 2) { uint32_t hi = symx_u32("hi"); setr(9, (hi & ~63u) + n - 0x123); in[2] = 0x91; in[3] = 0x23; }
    if (v == 3) { setr(6, (uint32_t)n | (symx_u32("hi") & ~63u)); in[2] = 0x60; in[3] = 0; }      /* amount from the shifted register */
    put_inst(4); go(4000);
}
static void lmstm(int op, int v) {
    static const uint8_t p1[] = { 2, 14, 5, 3, 12 }, p3[] = { 2, 1, 7, 2, 12 };
    int k, n; uint32_t T;
    setup(1);
    if (v == 0) { k = symx_choice(4, "regs"); T = 0x2340 + 4 * symx_choice(2, "half"); }
    else if (v == 1) { k = 0; T = 0x2340 + symx_choice(4, "align"); }
    else if (v == 2) { k = 2; T = MEMSZ - 4 * symx_choice(6, "edge"); if (op == 0x90) symx_assume(s.key == 0); }
    else { k = 2; T = 0x2800 - 4 * symx_choice(4, "page"); skeys(T + 0x800); }
    n = ((p3[k] - p1[k]) & 15) + 1;
    if (T < MEMSZ) { int m = T + 4 * n <= MEMSZ ? 4 * n : MEMSZ - T; skeys(T); opnd(T, m); window(T, m); }
    base(12, T, 0x340); in[0] = op; in[1] = (p1[k] << 4) | p3[k]; in[2] = 0xc3; in[3] = 0x40;
    put_inst(4); go(4000);
}
static void si(int op, int v) {
    uint32_t T = v == 2 ? MEMSZ - 1 + symx_choice(2, "edge") : 0x2340 + symx_choice(4, "align");
    setup(1);
    if (T < MEMSZ) { skeys(T); opnd(T, 1); window(T, 1); }
    in[0] = op; in[1] = symx_u8("imm");
    if (v == 1) { T = 0x8e4; setb(T, symx_u8("mem")); window(T, 1); in[2] = T >> 8; in[3] = (uint8_t)T; }
    else { base(3, T, 0xfff); in[2] = 0x3f; in[3] = 0xff; }
    if (symx_choice(2, "half")) PC0 = 0x402;
    put_inst(4); go(800);
}
static void lpsw(int v) {
    uint32_t T = 0x2340, npc = targets[symx_choice(3, "target")], k;
    setup(1);
    if (v == 1) T += symx_choice(8, "align");
    if (v == 2) T = MEMSZ - 8 + 8 * symx_choice(2, "edge");
    if (T < MEMSZ) {
        setb(T, symx_u8("nmask") & 0); k = symx_u8("nkey"); symx_assume((k & 2) == 0); setb(T + 1, k); setb(T + 2, symx_u8("nil")); setb(T + 3, symx_u8("nil"));
        setb(T + 4, symx_u8("nccpm")); setb(T + 5, 0); setb(T + 6, npc >> 8); setb(T + 7, npc); window(T, 8);
    }
    base(3, T, 0xfff); in[0] = 0x82; in[1] = symx_u8("imm"); in[2] = 0x3f; in[3] = 0xff;
    put_inst(4); go(1000);
}
static void system1(int op, int v) {
    uint32_t T;
    setup(1);
    if (op == 0x0a) { in[0] = op; in[1] = symx_u8("imm"); if (symx_choice(2, "half")) PC0 = 0x402; put_inst(2); go(800); return; }
    if (op == 4) { static const uint8_t p[] = { 0x20, 0xf3, 0x05 }; in[0] = op; in[1] = p[symx_choice(3, "regs")]; put_inst(2); go(600); return; }
    if (op == 8 || op == 9) {                                /* SSK ISK */
        static const uint8_t p1[] = { 1, 15, 0 }, p2[] = { 2, 0, 14 };
        int k = symx_choice(3, "regs");
        T = v == 1 ? 0x2340 + symx_choice(16, "align") : v == 2 ? MEMSZ - 16 + 16 * symx_choice(2, "edge") : symx_choice(5, "block") * 0x2800 + 0x120;
        if (T < MEMSZ) { skeys(T); skeys((T + 0x800) & (MEMSZ - 1)); }
        base(p2[k], T, 0); in[0] = op; in[1] = (p1[k] << 4) | p2[k]; put_inst(2); go(800); return;
    }
}
/* storage-to-storage: lengths, alignments, overlap, keys */
static int ssundef;
static void ss(int op, int v) {
    static const uint8_t ln[] = { 1, 2, 3, 4, 5, 8, 11 };
    uint32_t a1 = 0x2340, a2 = 0x3340; int l1, l2, i, dec = op >= 0xf0;
    setup(1);
    if (dec) {
        l1 = 1 + symx_choice(v == 4 ? 6 : 3, "l1"); l2 = 1 + symx_choice(v == 4 ? 6 : 3, "l2");
        if (op == 0xf1 || op == 0xf2 || op == 0xf3) { static const uint8_t q[] = { 1, 2, 4, 5, 9 }; l1 = q[symx_choice(5, "l1")]; l2 = q[symx_choice(5, "l2")]; }
    } else { l1 = l2 = ln[symx_choice(v == 0 ? 7 : 3, "l") + (v == 0 ? 0 : 2)]; }
    if (v == 0) { int k = symx_choice(NALIGN, "align"); a1 += k; a2 += (k * 3 + 1) & 3; }                     /* word alignments, no overlap */
    if (v == 1) { a1 += 3; int k = symx_choice(op == 0xf8 ? 2 : op >= 0xf9 ? 1 : dec ? 3 : 5, "ovl"); a2 = dec ? a1 + l1 - l2 - k + 2 * (k == 2) : a1 + k - 2; }         /* overlap */
    if (v == 2) { a1 = 0x2700 - 1; a2 = 0x3300 - 1 - symx_choice(2, "page"); }                                   /* 256-byte boundaries */
    if (v == 3) { a1 = 0x2800 - (l1 > 1 ? 1 : 0); skeys(a1 + 0x800); }                                           /* 2 KB block boundary: keys */
    if (v == 5) { int k = symx_choice(4, "edge"); if (k < 2) { a2 = MEMSZ - l2 + k; symx_assume(s.key == 0); } else { a1 = MEMSZ - l1 + k - 2; } }
    skeys(a1 & (MEMSZ - 1));
    for (i = 0; i < l1; i++) if (a1 + i < MEMSZ) setb(a1 + i, symx_u8("op1"));
    for (i = 0; i < l2; i++) if (a2 + i < MEMSZ && !(a2 + i >= a1 && a2 + i < a1 + l1)) setb(a2 + i, symx_u8("op2"));
    if (op == 0xd5 && v == 5) for (i = 0; i < l1; i++) if (a1 + i < MEMSZ && a2 + i < MEMSZ) setb(a2 + i, RM[a1 + i]);     /* an early mismatch may end the comparison */
    window(a1, l1); window(a2, l2);
    base(3, a1, 0x340); base(4, a2, 0x340);
    in[0] = op; in[1] = dec ? ((l1 - 1) << 4) | (l2 - 1) : l1 - 1; in[2] = 0x33; in[3] = 0x40; in[4] = 0x43; in[5] = 0x40;
    if ((a1 & 1) && v == 0) PC0 = 0x402;
    put_inst(6); go(8000);
}
/* multiply, divide and conversion: operands from a list, one byte of one of
   them symbolic at any position */
static const uint32_t MC[] = { 0x7fffffff, 0x80000000, 0xffffffff, 0x5a3c9678, 0, 0x89abcdef, 1, 2, 0x10, 0x80000001, 0x0f1e2d3c, 0xf0f0f0f0, 0x00010000, 0xffff8000, 0x00000a00, 3 };
static uint32_t bytesym(uint32_t fill, const char *n) { int k = 8 * symx_choice(4, "byte"); return (fill & ~(0xffu << k)) | ((uint32_t)symx_u8(n) << k); }
static uint64_t DN; static uint32_t DD, DT; static int dp = -1, ddp = -1, dr1, dr2;
static void divops(void) {
    uint64_t n = DN; uint32_t d = DD;
    if (dp >= 0) n = (n & ~(0xffull << dp)) | ((uint64_t)dsym << dp);
    if (ddp >= 0) d = (d & ~(0xffu << ddp)) | (uint32_t)dsym << ddp;
    setr(dr1 & 14, (uint32_t)(n >> 32)); setr(dr1 | 1, (uint32_t)n);
    if (!DT) { if (dr2 != (dr1 & 14) && dr2 != (dr1 | 1)) setr(dr2, d); } else if (DT + 4 <= MEMSZ) { int i; for (i = 0; i < 4; i++) { RM[DT + i] = (uint8_t)(d >> (24 - 8 * i)); if (!again) m_setmem(DT + i, RM[DT + i]); } }
    again = divops;
}
static void cvops(void) { setr(dr1, ddp < 0 ? DD : (DD & ~(0xffu << ddp)) | (uint32_t)dsym << ddp); }
static void muldiv(int op, int v) {
    uint32_t T = 0x2348, c, x, m; int r1 = 6, r2 = 9, sz = op == 0x4c ? 2 : op == 0x4e || op == 0x4f ? 8 : 4, rx = op >= 0x40, odd, nc = v >= 8 ? 16 : NALIGN == 4 ? 6 : 4, i, div = (op & 15) == 13;
    setup(2);
    if (v >= 8) v -= 8;
    odd = op == 0x4c ? r1 : 7;
    if (v == 4) { T = 0x2340 + symx_choice(8, "align"); r1 += symx_choice(2, "r1odd"); odd = r1 | 1; if (op == 0x4c) odd = r1; if (!rx) { r1 = 14 + symx_choice(2, "r1"); odd = 15; r2 = 14 + symx_choice(2, "r2"); } }
    if (v == 5) { T = MEMSZ - 2 * sz + symx_choice(4, "edge") * sz; }
    if (rx && T < MEMSZ) { if (op == 0x4e && v >= 4) skeys(T); window(T, T + sz <= MEMSZ ? sz : MEMSZ - T); }
    if (op == 0x4e) {                                            /* CVD */
        static const uint32_t D[] = { 0, 0xffffffff, 0x80000000, 0x7fffffff, 0x3b9aca00, 0x000f4240 };
        DT = 0; dr1 = r1;
        if (v < 4) { DD = D[symx_choice(NALIGN == 4 ? 6 : 4, "const")]; ddp = 8 * symx_choice(4, "byte"); dsym = symx_u8("data"); } else DD = 0xfedcba98;
        cvops(); again = cvops;
        for (i = 0; i < 8; i++) if (T + i < MEMSZ) setb(T + i, 0x5a);
    } else if (op == 0x4f) {                                     /* CVB */
        static const uint8_t D[][8] = { { 0, 0, 0, 0, 0, 0, 0, 0x0c }, { 0, 0, 0x02, 0x14, 0x74, 0x83, 0x64, 0x8d }, { 0, 0, 0x02, 0x14, 0x74, 0x83, 0x64, 0x7c }, { 0, 0, 0x01, 0x99, 0x99, 0x99, 0x99, 0x9f }, { 0x00, 0x00, 0x00, 0x98, 0x76, 0x54, 0x32, 0x1b } };
        int q = symx_choice(v < 4 ? 5 : 1, "const"), k = v < 4 ? symx_choice(8, "byte") : 0;
        for (i = 0; i < 8; i++) if (T + i < MEMSZ) setb(T + i, i == k && v < 4 ? symx_u8("data") : D[q][i]);
    } else if (div) {
        static const uint64_t N[] = { 0, ~0ull, 0x0000000012345678ull, 0xfffffffff7654321ull, 0x3fffffff00000000ull, 0xc000000080000000ull };
        static const uint32_t Q[] = { 3, 0x80000000, 0xfffffff9, 0x7fffffff, 0x00012345, 0xffff0000, 1, 0xffffffff };
        static const uint8_t pn[] = { 2, 3, 0, 1, 4, 5 }, pd[] = { 0, 2, 3, 5, 1, 4 };
        int z = symx_choice(v < 4 && nc < 16 ? (NALIGN == 4 ? 6 : 2) : v >= 4 ? 1 : 6, "pair"), k = pd[z], q = pn[z];
        if (v < 4 && nc == 16) k = symx_choice(8, "den");
        if (v == 0 || v == 2) dp = 8 * (symx_choice(4, "byte") + 2 * v);
        else if (v == 1) ddp = 8 * symx_choice(4, "byte");
        DN = N[q]; DD = Q[k]; DT = rx ? T : 0; dr1 = r1; dr2 = r2; dsym = v < 4 ? symx_u8("data") : 0; 
        if (ddp >= 0) DD = k & 1 ? 0xffffffff : 0;
        divops();
    } else {
        c = MC[symx_choice(v < 4 ? nc : 2, "const")];
        x = v < 4 ? bytesym(v & 1 ? 0xffffffff : 0, "data") : 0x13579bdf;
        if (v < 2) { m = x; x = c; } else m = c;                 /* m is the multiplier */
        setr(odd, x);
        if (rx) { if (sz == 2) { if (T + 2 <= MEMSZ) { setb(T, (m >> 8) & 255); setb(T + 1, m & 255); } } else if (T + 4 <= MEMSZ) setw(T, m); }
        else if (r2 != odd) setr(r2, m);
    }
    if (rx) { base(3, T, 0x124); in[0] = op; in[1] = r1 << 4; in[2] = 0x31; in[3] = 0x24; } else { in[0] = op; in[1] = (r1 << 4) | r2; }
    if (v >= 4 && symx_choice(2, "half")) PC0 = 0x402;
    put_inst(rx ? 4 : 2); go(20000);
}
/* decimal multiply and divide: as above */
static uint32_t dmat;
static void dmops(void) { RM[dmat] = dsym; }
static void decmul(int op, int v) {
    static const uint8_t L[][2] = { { 2, 1 }, { 3, 2 }, { 5, 2 }, { 2, 2 }, { 3, 1 }, { 8, 3 }, { 16, 8 }, { 3, 9 }, { 9, 9 } };
    static const uint8_t V[][8] = { { 0x12, 0x34, 0x5c }, { 0x99, 0x99, 0x9d }, { 0x00, 0x00, 0x1c }, { 0x00, 0x07, 0x5b } };
    int deep = v >= 8, li = deep ? symx_choice(9, "len") : symx_choice(NALIGN == 4 ? 6 : 4, "len"), l1, l2, i, q1, q2, k; uint32_t a1 = 0x2340 + (deep ? symx_choice(4, "align") : li & 3), a2 = 0x3341;
    uint8_t o1[16] = { 0 }, o2[16] = { 0 };
    setup(2);
    if (v >= 8) v -= 8;
    l1 = L[li][0]; l2 = L[li][1];
    q1 = symx_choice(deep ? 3 : 2, "v1"); q2 = symx_choice(deep ? 4 : NALIGN == 4 ? 3 : 2, "v2"); if (!deep && q2 == 2) q2 = 3;
    for (i = 1; i <= l1 && i <= 3; i++) o1[l1 - i] = V[q1][3 - i];
    for (i = 1; i <= l2 && i <= 3; i++) o2[l2 - i] = V[q2][3 - i];
    if (op == 0xfc && l2 < l1 && l2 <= 8) for (i = 0; i < l2; i++) o1[i] = 0;
    k = symx_choice(v == 0 ? (l1 < 4 ? l1 : 4) : (l2 < 3 ? l2 : 3), "byte");
    dsym = symx_u8("data"); again = dmops;
    if (v == 0) { o1[l1 - 1 - k] = dsym; dmat = a1 + l1 - 1 - k; } else { o2[l2 - 1 - k] = dsym; dmat = a2 + l2 - 1 - k; }
    for (i = 0; i < l1; i++) setb(a1 + i, o1[i]);
    for (i = 0; i < l2; i++) setb(a2 + i, o2[i]);
    window(a1, l1); window(a2, l2);
    base(3, a1, 0x340); base(4, a2, 0x340);
    in[0] = op; in[1] = ((l1 - 1) << 4) | (l2 - 1); in[2] = 0x33; in[3] = 0x40; in[4] = 0x43; in[5] = 0x40;
    put_inst(6); go(60000);
}
/* TR TRT ED EDMK: one byte symbolic at any position of either operand */
static void translate(int op, int v) {
    static const uint8_t ln[] = { 1, 2, 4, 7 }, arg[] = { 0x10, 0x80, 0xff, 0x00, 0x7e, 0x01, 0xc3 };
    uint32_t a1 = 0x2340, a2 = 0x3040; int l = ln[symx_choice(4, "len")], k, i, q;
    setup(v < 2 ? 2 : 1);
    if (v == 0) a1 += symx_choice(NALIGN, "align"); else if (v == 1) a2 += 0x7f; else if (v == 3) { q = symx_choice(4, "edge"); if (q < 2) a1 = MEMSZ - l + q; else { a2 = MEMSZ - 256 + q - 2; } symx_assume(s.key == 0); }
    for (i = 0; i < 256; i++) if (a2 + i < MEMSZ) setb(a2 + i, op == 0xdc ? (uint8_t)(i * 7 + 3) : (i % 5 == 1 || i >= 0xfe) ? (uint8_t)(i | 1) : 0);
    if (v == 2) { a1 = 0x2800 - l / 2; skeys(a1); skeys(a1 + l - 1); }
    k = symx_choice(l, "byte"); q = symx_choice(2, "args");
    if (v < 2) { dsym = symx_u8("data"); again = dmops; dmat = a1 + k; }
    for (i = 0; i < l; i++) if (a1 + i < MEMSZ) setb(a1 + i, v < 2 && i == k ? dsym : v == 3 ? 0xff : q ? arg[i] : 5 * i);
    window(a1, l); window(a2, 256);
    base(3, a1, 0x340); base(4, a2, 0x340);
    in[0] = op; in[1] = l - 1; in[2] = 0x33; in[3] = 0x40; in[4] = 0x43; in[5] = 0x40;
    if (v == 1) PC0 = 0x402;
    put_inst(6); go(8000);
}
static void edit(int op, int v) {
    static const uint8_t P[][8] = { { 0x40, 0x20, 0x20, 0x21, 0x20, 0x20 }, { 0x5c, 0x21, 0x4b, 0x20, 0x20, 0x60 }, { 0x40, 0x20, 0x22, 0x20, 0x20, 0xc3 }, { 0x21, 0x20, 0x20, 0x6b, 0x20, 0x40 }, { 0x40, 0x6b, 0x20, 0x20, 0x20, 0x20 } };
    static const uint8_t D[][3] = { { 0x00, 0x12, 0x3c }, { 0x01, 0x0d, 0x45 }, { 0x00, 0x0c, 0x00 }, { 0x98, 0x7b, 0x6f }, { 0x00, 0x00, 0x0d } };
    uint32_t a1 = 0x2340, a2 = 0x3041; int l, i, pi = symx_choice(5, "pattern"), di = symx_choice(v == 3 ? 1 : NALIGN == 4 ? 5 : 3, "source"), k;
    setup(v < 2 ? 2 : 1);
    l = v < 2 ? 6 : 1 + symx_choice(6, "len");
    if (v == 0 && pi & 1) a1 += 1 + di % 3;
    if (v == 2) { a1 = 0x2800 - l / 2; skeys(a1); skeys(a1 + l - 1); }
    if (v == 3) { i = symx_choice(2, "edge"); a1 = MEMSZ - l + i; symx_assume(s.key == 0); }
    for (i = 0; i < l; i++) if (a1 + i < MEMSZ) setb(a1 + i, P[pi][i]);
    for (i = 0; i < 3; i++) setb(a2 + i, D[di][i]);
    if (v == 0) { k = symx_choice(3, "byte"); dsym = symx_u8("data"); again = dmops; dmat = a2 + k; setb(dmat, dsym); }
    if (v == 1) { k = symx_choice(6, "byte"); dsym = symx_u8("data"); again = dmops; dmat = a1 + k; setb(dmat, dsym); }
    window(a1, l); window(a2, 3);
    base(3, a1, 0x340); base(4, a2, 0x340);
    in[0] = op; in[1] = l - 1; in[2] = 0x33; in[3] = 0x40; in[4] = 0x43; in[5] = 0x40;
    put_inst(6); go(8000);
}
/* floating point: operand pairs from a list, one byte of either symbolic */
static const uint64_t FC[][2] = {
    { 0x4112345678abcdefull, 0x4112345678abcdefull }, { 0x4308210000000000ull, 0xc112345600000000ull }, { 0x4210000000000000ull, 0xc1ffffffffffffffull },
    { 0x7fffffffffffffffull, 0x7f00000100000001ull }, { 0x0080000000000000ull, 0x8010000000000000ull }, { 0xc0000000000000f3ull, 0x4e00000000100000ull },
    { 0x4000000000000000ull, 0xbf00000000000000ull }, { 0x0200001000000010ull, 0x8200000f0000000full }, { 0x45f00000800000ffull, 0x3bffffff7fffffffull }, { 0x0100000000000001ull, 0xc2000abc00000def }, };
static uint64_t fo[2]; static int fsel, fpos, fr1, fr2; static uint32_t fT; static int flen;
static void fpops(void) {
    uint64_t x = fo[0], y = fo[1]; int i;
    if (fsel == 0) x = (x & ~(0xffull << fpos)) | ((uint64_t)dsym << fpos); else if (fsel == 1) y = (y & ~(0xffull << fpos)) | ((uint64_t)dsym << fpos);
    if (!(fr1 & 9)) s.f[fr1 >> 1] = x;
    if (fT) { for (i = 0; i < flen; i++) if (fT + i < MEMSZ) { RM[fT + i] = (uint8_t)(y >> (56 - 8 * i)); if (!again) m_setmem(fT + i, RM[fT + i]); } }
    else if (!(fr2 & 9)) s.f[fr2 >> 1] = y;
    again = fpops;
}
static void fpoint(int op, int v) {
    int all = v >= 8, lg = (op & 0x10) == 0, rx = op >= 0x60, k, i, nb = lg ? 8 : 4, store = (op & 0xef) == 0x60, un = !rx && (op & 15) < 6;
    v &= 7;
    setup(2);
    for (i = 0; i < 4; i++) s.f[i] = 0x1122334455667788ull * (i + 1);
    fr1 = 2; fr2 = 6; flen = nb; fT = rx ? 0x2348 : 0; fsel = v == 1; if (v > 1) fsel = 2;
    if (v > 1) { k = 1; s.pm = 0xf; if (v == 2) { fr1 = symx_choice(16, "r1"); if (!rx) fr2 = symx_choice(16, "r2"); else fT = 0x2340 + symx_choice(8, "align"); } else fT = MEMSZ - 2 * nb + symx_choice(4, "edge") * nb; }
    else { k = symx_choice(all ? 10 : un || store || (op & 15) == 8 ? 3 : rx ? 4 : 10, "pair"); fpos = 8 * (7 - symx_choice(nb, "byte")); if (rx && k > 1 && !all) k += 2; dsym = symx_u8("data"); }
    fo[0] = FC[k][0]; fo[1] = FC[k][1];
    if (v < 2 && (k & 1) && symx_choice(2, "swap")) { fo[0] = FC[k][1]; fo[1] = FC[k][0]; }
    if (store) { fo[1] = 0x5a5a5a5a5a5a5a5aull; if (fT < MEMSZ) skeys(fT); }
    fpops();
    if (rx) { base(3, fT, 0x124); in[0] = op; in[1] = fr1 << 4; in[2] = 0x31; in[3] = 0x24; window(fT < MEMSZ ? fT : fT - 16, 8); } else { in[0] = op; in[1] = (fr1 << 4) | fr2; }
    if (v > 1 && symx_choice(2, "half")) PC0 = 0x402;
    put_inst(rx ? 4 : 2); go(20000);
}
/* EXECUTE */
static void execute(int v) {
    static const uint8_t X[][6] = { { 0x1a, 0x00 }, { 0x92, 0x00, 0xa3, 0x41 }, { 0x07, 0x09 }, { 0x0a, 0x10 }, { 0x58, 0x60, 0xa3, 0x44 }, { 0xd2, 0x00, 0xa3, 0x43, 0xa3, 0x50 }, { 0x44, 0x00, 0xa3, 0x40 }, { 0x91, 0x00, 0xa3, 0x41 }, { 0x89, 0x60, 0x00, 0x04 }, { 0x05, 0x00 }, { 0x47, 0x00, 0xa3, 0x46 }, { 0xd7, 0x00, 0xa3, 0x41, 0xa3, 0x41 }, { 0x41, 0x6a, 0x01, 0x23 }, { 0xd2, 0x00, 0x0b, 0x00, 0xa3, 0x41 } };
    int t = v < 12 ? v : v > 13 ? v - 2 : symx_choice(2, "subject"), r1 = symx_choice(2, "r1zero") ? 0 : 7, i, len; uint32_t T = 0x2800 + 2 * symx_choice(v < 12 ? NALIGN == 4 ? 3 : 2 : 1, "where"), m;
    setup(2);
    if (v == 12) T += 1 + 2 * symx_choice(2, "odd");
    if (v == 13) { T = MEMSZ - 2 * (3 - symx_choice(NALIGN == 4 ? 4 : 3, "edge")); }
    len = X[t][0] < 0x40 ? 2 : X[t][0] < 0xc0 ? 4 : 6;
    if (v == 13 && T < MEMSZ) symx_assume(T + len <= MEMSZ);
    for (i = 0; i < 6; i++) if (T + i < MEMSZ) setb(T + i, X[t][i]);
    if (t == 0) { static const uint8_t q[] = { 0x12, 0x66, 0x70, 0x08 }; m = q[symx_choice(4, "mod")]; }
    else if (t == 9) { static const uint8_t q[] = { 0x1a, 0x70, 0xba, 0xf0 }; m = q[symx_choice(4, "mod")]; }
    else if (t == 6 || t == 12) m = 0x20;
    else if (X[t][0] >= 0xd0) { static const uint8_t q[] = { 0, 3, 8 }; m = q[symx_choice(3, "mod")]; }
    else if (t == 4 || t == 8) { m = symx_choice(2, "mod") * 0x90; if (t == 4) m = 0; }
    else if (t == 2 || t == 10) m = symx_u8("mod") & 0xf0;
    else m = symx_u8("mod");
    setr(7, (symx_u32("hi") & 0xffffff00u) | m);
    base(9, 0x2346, 0);
    opnd(0x2340, 0x20); window(0x2340, 0x20); window(0xb00, 10); window(T < MEMSZ ? T : T - 16, 6);
    base(10, 0x2340, 0x340); base(11, T, 0x124);
    in[0] = 0x44; in[1] = r1 << 4; in[2] = 0xb1; in[3] = 0x24;
    if (symx_choice(2, "half")) PC0 = 0x402;
#ifdef M30
    m_subject = T;
#endif
    put_inst(4); go(2000);
}
/* operation codes that are not assigned, and privileged ones in the problem state */
static void invalid(int v) {
    static const uint8_t I[] = { 0x00, 0x01, 0x02, 0x03, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x4d, 0x51, 0x52, 0x53, 0x81, 0x99, 0x9a, 0x9b, 0xa0, 0xa5, 0xaf, 0xb0, 0xb7, 0xbf, 0xc0, 0xc9, 0xcf, 0xd0, 0xd8, 0xd9, 0xda, 0xdb, 0xe0, 0xe6, 0xef, 0xf0, 0xf4, 0xf5, 0xf6, 0xf7, 0xfe, 0xff },
        Pv[] = { 0x9c, 0x9d, 0x9e, 0x9f, 0x08, 0x09, 0x80, 0x82, 0x83, 0x84, 0x85 };
    int k = v == 0 ? I[symx_choice(sizeof I, "op")] : Pv[symx_choice(sizeof Pv, "op")];
    setup(2);
    s.amwp = (s.amwp & 8) | (v ? 1 : symx_choice(2, "problem"));
    if (k == 0x83 || k == 0x84 || k == 0x85) s.ic2 = 1;          /* not installed: refused either way */
    in[0] = k; in[1] = v == 0 ? 0x50 * symx_choice(4, "imm") : 0x40; in[2] = 0x03; in[3] = 0x40; in[4] = 0x03; in[5] = 0x40;
    if (symx_choice(2, "half")) PC0 = 0x402;
    base(4, 0x3340, 0);
    put_inst(k < 0x40 ? 2 : k < 0xc0 ? 4 : 6); go(1000);
}
void harness(void) {
    int op = symx_case >> 4, v = symx_case & 15;
    if (op == 5 || op == 6 || op == 7 || op == 0x45 || op == 0x46 || op == 0x47) { branch(op, v); return; }
    if (op == 4 || op == 8 || op == 9 || op == 10) { system1(op, v); return; }
    if (op == 0xdc || op == 0xdd) { translate(op, v); return; }
    if (op == 0xde || op == 0xdf) { edit(op, v); return; }
    if (op == 0x44) { execute(v); return; }
    if ((op & 0xa0) == 0x20) { fpoint(op, v); return; }
    if (op == 0) { invalid(v); return; }
    if (op == 0xfc || op == 0xfd) { decmul(op, v); return; }
    if (op == 0x1c || op == 0x5c || op == 0x1d || op == 0x5d || op == 0x4c || op == 0x4e || op == 0x4f) { muldiv(op, v); return; }
    if (op < 0x40) { rr(op); return; }
    if (op < 0x80) {
        static const uint8_t sz[16] = { 2, 1, 1, 1, 2, 1, 1, 1, 2, 2, 2, 2, 2, 1, 8, 8 };
        rx(op, op < 0x50 ? sz[op & 15] : 4, v); return;
    }
    if (op == 0x86 || op == 0x87) { bx(op); return; }
    if (op == 0x82) { lpsw(v); return; }
    if (op >= 0x88 && op <= 0x8f) { shift(op, v); return; }
    if (op == 0x90 || op == 0x98) { lmstm(op, v); return; }
    if (op < 0xd0) { si(op, v); return; }
    ss(op, v);
}
