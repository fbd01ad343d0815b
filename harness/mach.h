/* The two machines behind one interface.  Architected state goes in and out
   at instruction boundaries; everything between is the emulator's own
   microcode engine. */
#include "symx.h"
#include "xlat.h"
#include "cpu.h"
#include "device.h"
int log_level, log_enable;
#ifdef M30
#include "model2030.h"
#define MEMSZ 0x10000
static uint32_t mstore[MEMSZ];
void model1052_out(void *ctx, uint16_t out_char) {}
void model1052_in(void *ctx, uint16_t *in_char) {}
void model1052_func(void *ctx, uint16_t *tags_out, uint16_t tags_in, uint16_t *t_request) {}
void *model1052_init_ctx(uint16_t port) { return 0; }
static uint16_t par(uint32_t v) { v &= 0xff; uint32_t p = v ^ (v >> 4); p ^= p >> 2; p ^= p >> 1; return v | (((~p) & 1) << 8); }
static void m_setb(int a, uint32_t v) { cpu_2030.LS[a] = par(v); }
static void m_setreg(int n, uint32_t d) { int r = 0x700 + (n << 4), i; for (i = 0; i < 4; i++) m_setb(r + i, d >> (24 - 8 * i)); }
static uint32_t m_getreg(int n) { int r = 0x700 + (n << 4), i; uint32_t v = 0; for (i = 0; i < 4; i++) v = (v << 8) | (cpu_2030.LS[r + i] & 0xff); return v; }
static void m_setfp(int n, uint64_t d) { int r = 0x708 + (n << 4), i; for (i = 0; i < 8; i++) m_setb(r + i, (uint32_t)(d >> (56 - 8 * i))); }
static uint64_t m_getfp(int n) { int r = 0x708 + (n << 4), i; uint64_t v = 0; for (i = 0; i < 8; i++) v = (v << 8) | (cpu_2030.LS[r + i] & 0xff); return v; }
static void m_setmem(uint32_t a, uint32_t v) { mstore[a] = par(v); }
static uint32_t m_getmem(uint32_t a) { return mstore[a] & 0xff; }
static int m_memparity(uint32_t a) { return mstore[a] == par(mstore[a]); }
static void m_setskey(uint32_t a, uint32_t k) { cpu_2030.MP[0xe0 | ((a & 0xf800) >> 11)] = k; }
static uint32_t m_getskey(uint32_t a) { return cpu_2030.MP[0xe0 | ((a & 0xf800) >> 11)]; }
static void m_setpsw(uint32_t mask, uint32_t key, uint32_t amwp, uint32_t cc, uint32_t pm) {
    cpu_2030.MASK = mask; m_setb(0x7b8, mask);
    cpu_2030.ASCII = (amwp >> 3) & 1;
    m_setb(0x7b9, (key << 4) | amwp);
    cpu_2030.Q_REG = (cpu_2030.Q_REG & 0x0f) | (key << 4);
    m_setb(0x7bb, (0x80 >> cc) | pm);
}
/* the mask and ASCII mode in force are those of the PSW */
static int m_latches(void) { return cpu_2030.ASCII == ((cpu_2030.LS[0x7b9] >> 3) & 1) && ((cpu_2030.MASK ^ cpu_2030.LS[0x7b8]) & 0xe1) == 0; }
static uint32_t m_mask(void) { return cpu_2030.LS[0x7b8] & 0xff; }
static uint32_t m_key(void) { return (cpu_2030.Q_REG >> 4) & 0xf; }
static uint32_t m_amwp(void) { return cpu_2030.LS[0x7b9] & 0xf; }
static uint32_t m_cc(void) { return cpu_2030.LS[0x7bb] >> 4 & 0xf; }     /* one bit per code */
static uint32_t cc_enc(uint32_t cc) { return 8 >> cc; }
static uint32_t m_pm(void) { return cpu_2030.LS[0x7bb] & 0xf; }
static uint32_t m_stop_pc;
static uint32_t m_pc(void) { return m_stop_pc; }
static int m_state(void) { return cpu_2030.WX; }
static void m_init(void) {
    int n = 0;
    M = (void *)mstore; mem_max = MEMSZ - 1;
    SYS_RST = 1; CHK_SW = 2; RATE_SW = 1; PROC_SW = 1;
    m_setb(0x7b9, 0); m_setb(0x7bb, 0x10); m_setb(0x7b8, 0);
    do { cycle_2030(); } while (cpu_2030.WX != 0x328 && ++n < 100000);
    symx_assert(n < 100000, "reset completes");
    for (n = 0; n < MEMSZ; n++) mstore[n] = 0x100;
    for (n = 0; n < 16; n++) m_setfp(n, 0);
}
/* run one instruction at a; 1 if the next instruction fetch was reached.
   A pending trap or interruption diverts the machine after it has arrived at
   the fetch microword, so the fetch must have begun before it counts. */
static uint32_t m_stop_pc;
static void m_step(void) {
    cycle_2030(); symx_concretize(&cpu_2030.WX, sizeof cpu_2030.WX);
#ifdef TRACE
    if (getenv("FULL")) printf(getenv("VV") ? "%03x MN=%x R=%x st=%d aw=%d D=%x S=%x\n" : "%03x ", cpu_2030.WX, cpu_2030.MN_REG, cpu_2030.R_REG, cpu_2030.store, cpu_2030.allow_write, cpu_2030.D_REG,cpu_2030.S_REG);
#endif
}
static uint32_t m_subject;     /* EXECUTE fetches its subject the way it fetches the next instruction */
static int m_run(uint32_t a, int max) {
    int k, n = 0;
    m_setb(0x7AA, a); m_setb(0x7A9, a >> 8);
    cpu_2030.WX = 0x102; START = 1;
    cpu_2030.I_REG = par(a >> 8); cpu_2030.J_REG = par(a);
    for (k = 0; k < 2;) {
        m_step();
        if (++n > max) break;
        if (cpu_2030.WX == 0x100) {
            m_stop_pc = ((cpu_2030.I_REG & 0xff) << 8) | (cpu_2030.J_REG & 0xff);
            m_step(); n++;
            if ((cpu_2030.WX & 0xffc) == 0x108) { if (m_subject && m_stop_pc == m_subject) m_subject = 0; else k++; }
        }
    }
    while (cpu_2030.allow_write && n < max) { m_step(); n++; }     /* let the storage cycle in progress finish */
    symx_observe(n);
    return n < max;
}
#else
#include "model2050.h"
#define MEMSZ 0x10000
static uint32_t mstore[MEMSZ / 4];
static uint32_t gpr_seen;
static void m_setreg(int n, uint32_t d) { cpu_2050.LS[0x30 + n] = d; }
static uint32_t m_getreg(int n) { return cpu_2050.LS[0x30 + n]; }
static void m_setfp(int n, uint64_t d) { cpu_2050.LS[0x20 + n] = (uint32_t)(d >> 32); cpu_2050.LS[0x21 + n] = (uint32_t)d; }
static uint64_t m_getfp(int n) { return ((uint64_t)cpu_2050.LS[0x20 + n] << 32) | cpu_2050.LS[0x21 + n]; }
static void m_setmem(uint32_t a, uint32_t v) { int s = 8 * (3 - (a & 3)); mstore[a >> 2] = (mstore[a >> 2] & ~(0xffu << s)) | ((v & 0xff) << s); }
static uint32_t m_getmem(uint32_t a) { return (mstore[a >> 2] >> (8 * (3 - (a & 3)))) & 0xff; }
static int m_memparity(uint32_t a) { return 1; }
static void m_setskey(uint32_t a, uint32_t k) { cpu_2050.MP[(a & 0xf800) >> 11] = k; }
static uint32_t m_getskey(uint32_t a) { return cpu_2050.MP[(a & 0xf800) >> 11]; }
static void m_setpsw(uint32_t mask, uint32_t key, uint32_t amwp, uint32_t cc, uint32_t pm) {
    cpu_2050.LS[0x17] = (mask << 24) | (key << 20) | (amwp << 16);
    cpu_2050.MASK = mask; cpu_2050.KEY = key; cpu_2050.AMWP = amwp; cpu_2050.CC = cc; cpu_2050.PMASK = pm;
}
static uint32_t m_mask(void) { return cpu_2050.MASK; }
static uint32_t m_key(void) { return cpu_2050.KEY; }
static uint32_t m_amwp(void) { return cpu_2050.AMWP; }
static int m_latches(void) { return 1; }
static uint32_t m_cc(void) { return cpu_2050.CC; }
static uint32_t cc_enc(uint32_t cc) { return cc; }
static uint32_t m_pm(void) { return cpu_2050.PMASK; }
static uint32_t m_pc(void) { return cpu_2050.IA_REG; }
static int m_state(void) { return cpu_2050.ROAR; }
static void m_init(void) {
    int n = 0;
    M = mstore; mem_max = MEMSZ - 1;
    SYS_RST = 1; CHK_SW = 2; RATE_SW = 1; PROC_SW = 1;
    do { cycle_2050(); } while (cpu_2050.ROAR != 0x150 && ++n < 100000);
    symx_assert(n < 100000, "reset completes");
    for (n = 0; n < MEMSZ / 4; n++) mstore[n] = 0;
    for (n = 0; n < 8; n += 2) m_setfp(n, 0);
}
/* the microword that decodes an instruction: after its own fetch (188/19b) or
   straight from the instruction buffer (148-14b).  Stops at the second one. */
static int m_run(uint32_t a, int max) {
    int n = 0, k = 0, last = 0, r;
    cpu_2050.IA_REG = a; cpu_2050.ROAR = 0x190; cpu_2050.REFETCH = 1; cpu_2050.mem_state = 0; START = 1;
    do {
        cycle_2050(); symx_concretize(&cpu_2050.ROAR, sizeof cpu_2050.ROAR);
#ifdef TRACE
        printf("%03x/%x ", cpu_2050.ROAR,cpu_2050.IA_REG); if (getenv("VV")) printf("L=%08x R=%08x M=%08x H=%08x F=%x S=%x\n", cpu_2050.L_REG, cpu_2050.R_REG, cpu_2050.M_REG, cpu_2050.H_REG, cpu_2050.F_REG, cpu_2050.S_REG);
#endif
        r = cpu_2050.ROAR;
        if (r != last && ((r & 0xffc) == 0x148 || r == 0x188 || r == 0x19b)) k++;
        last = r;
        if (k == 2) break;
    } while (++n < max);
    symx_observe(n);
    return n < max;
}
#endif
