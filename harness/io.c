/* Input/output: SIO, TIO, HIO and TCH, channel programs, channel status word
   and I/O interruptions of the real microprogrammed channels, driven by a
   device that speaks the interface protocol, against a reference channel. */
#ifdef TRACE
#include <stdio.h>
#include <stdlib.h>
#define DBG(...) printf(__VA_ARGS__)
#else
#define DBG(...)
#endif
#include "mach.h"
#include "iodev.h"
static uint8_t RM[MEMSZ], SK[MEMSZ >> 11];
static struct _device dv, dv2;
static struct _test_context cx, cx2;
static void setb(uint32_t a, uint32_t v) { m_setmem(a, v); RM[a] = (uint8_t)v; }
static void setw(uint32_t a, uint32_t v) { int i; for (i = 0; i < 4; i++) setb(a + i, (v >> (24 - 8 * i)) & 0xff); }
static uint32_t mw(uint32_t a) { int i; uint32_t v = 0; for (i = 0; i < 4; i++) v = (v << 8) | m_getmem(a + i); return v; }
static uint32_t ld(uint32_t a, int n) { uint32_t v = 0; int i; for (i = 0; i < n; i++) v = (v << 8) | RM[a + i]; return v; }
static void code(uint32_t a, const uint8_t *p, int n) { int i; for (i = 0; i < n; i++) setb(a + i, p[i]); }
static int io_flag;
static int waiting(void) {
#ifdef M30
    return (m_amwp() & 2) && cpu_2030.WX == 0xae;
#else
    return (m_amwp() & 2) && m_mask() == 0 && cpu_2050.ROAR != 0;
#endif
}
static int nwait;
#ifdef M30
static int done(void) { nwait = waiting() && m_mask() == 0 ? nwait + 1 : 0; return nwait > 40; }
#else
static unsigned last4[4], nlast;        /* the wait loop is four microinstructions long */
static int done(void) {
    unsigned r = cpu_2050.ROAR, o = last4[nlast & 3]; last4[nlast++ & 3] = r;
    nwait = waiting() && m_mask() == 0 && o == r ? nwait + 1 : 0; return nwait > 30;
}
#endif
static int io_run(uint32_t a, int max) {
    int n = 0, i; struct _device *d;
#ifdef M30
    m_setb(0x7AA, a); m_setb(0x7A9, a >> 8);
    cpu_2030.WX = 0x102; START = 1;
    cpu_2030.I_REG = par(a >> 8); cpu_2030.J_REG = par(a);
#else
    cpu_2050.IA_REG = a; cpu_2050.ROAR = 0x190; cpu_2050.REFETCH = 1; cpu_2050.mem_state = 0; START = 1;
#endif
    nwait = 0;
    do {
#ifdef M30
        m_step(); io_flag = 1;
#else
        cycle_2050(); symx_concretize(&cpu_2050.ROAR, sizeof cpu_2050.ROAR);
#ifdef TRACE
        if (getenv("FULL")) printf("%03x/%x ", cpu_2050.ROAR, cpu_2050.IA_REG);
#endif
#endif
        if (io_flag) for (i = 0; i < 4; i++) for (d = chan[i]; d; d = d->next) test_step(d);
        io_flag = !io_flag;
        if (done()) { DBG("\n%d cycles\n", n); return 1; }
    } while (++n < max);
    DBG("\nno end after %d\n", n);
    return 0;
}
static const uint8_t P400[] = { 0x9c, 0, 0, 0, 0x47, 0x70, 0x04, 0x20, 0x82, 0, 0x04, 0x10 };
static const uint8_t P420[] = { 0x05, 0x40, 0x82, 0, 0x04, 0x18 };
static const uint8_t P430[] = { 0xd2, 0x0f, 0x04, 0x80, 0, 0x38, 0x92, 0x50, 0, 0x7f, 0x82, 0, 0x04, 0x10 };
static const uint8_t P450[] = { 0xd2, 0x0f, 0x04, 0x90, 0, 0x38, 0x82, 0, 0x04, 0x18 };
/* TIO until not busy; BALR 4; move the CSW; restore it; TIO; BALR 5; wait */
static const uint8_t P408[] = { 0x47, 0xf0, 0x04, 0x60 }, P460[] = { 0x9d, 0, 0, 0, 0x47, 0x20, 0x04, 0x60, 0x05, 0x40, 0xd2, 0x07, 0x04, 0x98, 0x00, 0x40,
    0xd2, 0x07, 0x00, 0x40, 0x04, 0xa0, 0x9d, 0, 0, 0, 0x05, 0x50, 0x82, 0, 0x04, 0x18 };
static uint32_t daddr;
static void io_setup(uint32_t addr) {
    int i;
    m_init();
    dv.bus_func = (void *)test_dev; dv.dev = (void *)&cx; dv.addr = daddr = addr; dv.next = 0;
    chan[addr >> 8] = &dv;
    for (i = 0; i < 16; i++) m_setreg(i, 0);
    m_setpsw(0, 0, 4, 0, 0);
    code(0x400, P400, sizeof P400); setb(0x402, addr >> 8); setb(0x403, addr & 255);
    code(0x420, P420, sizeof P420); code(0x430, P430, sizeof P430); code(0x450, P450, sizeof P450);
    setw(0x410, 0xff060000); setw(0x414, 0x14000408);
    setw(0x418, 0x00060000); setw(0x41c, 0x00000000);
    setw(0x40, 0xffffffff); setw(0x44, 0xffffffff);
    setw(0x68, 0x00060000); setw(0x6c, 0); setw(0x70, 0x00060000); setw(0x74, 0);
    setw(0x78, 0x00040000); setw(0x7c, 0x00000430);
}
static uint8_t caw_hi;
static void ccw(int i, int cmd, uint32_t a, int flags, int count) { setw(0x500 + 8 * i, (cmd << 24) | a); setw(0x504 + 8 * i, (flags << 24) | count); }
/* ---- reference channel ---- */
#define CD 0x80
#define CC 0x40
#define SLI 0x20
#define SKIP 0x10
#define CE 0x08
#define DE 0x04
#define UC 0x02
#define UE 0x01
#define SM 0x40
static struct { int cc, ints, st, imm, cnt, cntopen, st2, open, ops, il_either, prot; uint32_t addr, key; uint8_t cmd[4], out[4][16]; int nout[4]; const char *known; } R;
static int ref_fetch(uint32_t *ca, int *cmd, uint32_t *da, int *fl, int *n, int first, int dchain) {
    int c, tic = 0, oldcmd = *cmd;
    if (*ca & 7) return 0x20;
    for (;;) {
        if (*ca + 8 > MEMSZ) { *ca += 8; return 0x20; }
        c = ld(*ca, 1); *da = ld(*ca + 1, 3); *fl = ld(*ca + 4, 1); *n = ld(*ca + 6, 2);
        if ((c & 15) == 8) {
            if (first || tic) { *ca += 8; return 0x20; }
            if (*da & 7) { *ca += 8; return 0x20; }
            *ca = *da; tic = 1; continue;
        }
        *ca += 8;
        if (dchain) *cmd = oldcmd; else { if ((c & 15) == 0) return 0x20; *cmd = c; }
        if (*fl & 7) return 0x20;
        if (*n == 0) return 0x20;
        return 0;
    }
}
static void ref_sio(void) {
    uint32_t ca = ld(0x49, 3), da = 0; int key, e, cmd = 0, fl = 0, n = 0, op = 0, i, first = 1, st, len, imm, want, ctl;
    key = caw_hi >> 4;
    R.key = key;
#ifdef M30
    if (symx_case == 0x11) R.known = "selector channel: data chaining, or command chaining after a length mismatch";
#endif
    if (caw_hi & 15) { R.cc = 1; R.st = 0x20; return; }
    for (;;) {
        e = ref_fetch(&ca, &cmd, &da, &fl, &n, first, 0);
        if (e) { if (first) { R.cc = 1; R.st = 0x20; return; } R.ints = 1; R.st = e | (R.st2 << 8); R.addr = ca; R.cntopen = 1; R.st = 0x20; R.open |= 2; return; }
        R.cmd[op] = cmd; R.ops = op + 1;
        /* the device's view */
        imm = 0; st = CE | DE; len = dev_len[op]; ctl = 0;
        switch (cmd) {
        case 0x01: case 0x02: case 0x0c: case 0x12: case 0x2c: break;
        case 0x04: len = 1; break;
        case 0x03: imm = 1; break;
        case 0x13: imm = 1; ctl = 1; break;
        default: imm = 1; st |= UC; break;
        }
        if (imm) {
            int chst = 0;
            if (st == (CE | DE)) st |= dev_x[op];
            if (dev_sms[op]) st |= SM;
            if (fl & CD) chst = 0x40;
#ifdef M30      /* known findings: one collective assertion for everything such a program shows */
            if (fl & CC) {
                if (symx_case & 1) { if (dev_x[op]) R.known = "immediate command with chaining and unit check or exception, selector channel"; }
                else if (dev_sms[op]) R.known = "immediate command with chaining and status modifier, multiplexer channel";
            }
#endif
            if (ctl) { /* channel end now, device end later */
                if (!(fl & CC)) { R.cc = 1; R.st = CE; R.imm = 1; R.ints = 0; R.open |= 4; R.st2 = st & ~CE; return; }
            }
            if ((st & ~(CE | DE | SM)) || !(fl & CC) || chst) {
                if (first) { R.cc = 1; R.imm = 1; R.st = chst | (st << 8); R.st = (st << 8) | chst; return; }
                R.ints = 1; R.st = (st << 8) | chst; R.addr = ca; R.cnt = n; R.cntopen = 1; return;
            }
        } else {
            int want = len, il = 0, chst = 0, k = 0, dc = 0;
            while (k < want) {
                if (n == 0) {
                    if (fl & CD) {
                        e = ref_fetch(&ca, &cmd, &da, &fl, &n, 0, 1);
                        if (e) { chst |= e; R.cntopen = 1; break; }
                        dc = 1; continue;
                    }
                    il = 1; break;
                }
                if (cmd & 1) { if (da >= MEMSZ) { chst |= 0x20; R.cntopen = 1; break; } R.out[op][k] = RM[da]; R.nout[op] = k + 1; }
                else if (!(fl & SKIP)) {
                    if (da >= MEMSZ) { chst |= 0x20; R.cntopen = 1; break; }
                    if (key != 0 && SK[da >> 11] != key) { chst |= 0x10; R.cntopen = 1; break; }
                    RM[da] = cmd == 4 ? 0 : dev_buf[op][k];
                }
                k++; n--; da += (cmd & 15) == 0x0c ? -1 : 1;
            }
            if (!chst && n != 0) il = 1;
            if (!chst && n == 0 && (fl & CD)) R.open |= 1;       /* ended exactly where data chaining was due */
            if (il && (!(fl & SLI) || (fl & CD))) chst |= 0x40;
            st |= dev_x[op];
            if (dev_sms[op]) st |= SM;
            if (chst || !(fl & CC) || (st & ~(CE | DE | SM))) {
                R.addr = ca; R.cnt = n; R.ints = 1; R.st = (st << 8) | chst;
                if (chst & 0x30) R.il_either = 1;
                if (chst & 0x10) R.prot = 1;
                if (cmd == 0x12) { R.ints = 2; R.st = (CE << 8) | chst; R.st2 = (st & ~CE) << 8; }
                return;
            }
        }
        /* command chaining */
        if (dev_sms[op]) ca += 8;
        first = 0; op++;
        if (op > 3) symx_end();
    }
}
static int polled, allok = 1; static const char *one;
static void A(int c, const char *l) { if (!one) symx_assert(c, l); else allok &= c != 0; }
static void check_io(int max) {
    int i, k, ok;
    ref_sio();
    DBG("want cc %d ints %d st %04x st2 %04x addr %x cnt %x open %d ops %d\n", R.cc, R.ints, R.st, R.st2, R.addr, R.cnt, R.open, R.ops);
    if (R.ints == 1) { setb(0x7f, 0x50); }
    if (R.known) one = R.known;
    ok = io_run(0x400, one ? 3000 : max);
#ifdef TRACE
    printf("got r4 %08x r5 %08x 480: %08x %08x %08x %08x  490: %08x %08x %08x %08x  csw %08x %08x ops %d cmds %02x %02x %02x\n", m_getreg(4), m_getreg(5), mw(0x480), mw(0x484), mw(0x488), mw(0x48c), mw(0x490), mw(0x494), mw(0x498), mw(0x49c), mw(0x40), mw(0x44), dev_nop, dev_cmds[0], dev_cmds[1], dev_cmds[2]);
    for (i = 0; i < 64; i += 4) printf("%08x%s", mw(0x600 + i), i == 60 ? "\n" : " ");
#endif
    A(ok, "the program ends");
    if (!ok) { if (one) symx_assert(0, one); symx_end(); }
    if (polled && R.ints) {
        A(mw(0x480) == 0 && mw(0x490) == 0, "no interruption");
        A(((m_getreg(4) >> 28) & 3) == 1, "condition code of TIO with pending status");
        A(mw(0x498) == ((R.key << 28) | R.addr), "CSW key and command address stored by TIO");
        A((mw(0x49c) >> 16) == R.st, "CSW status stored by TIO");
        if (!R.cntopen) A((mw(0x49c) & 0xffff) == R.cnt, "CSW residual count stored by TIO");
        A(((m_getreg(5) >> 28) & 3) == 0, "condition code of TIO after the status was cleared");
        A(mw(0x40) == 0xffffffff && mw(0x44) == 0xffffffff, "CSW unchanged by the second TIO");
        symx_reach("polled");
    } else if (R.ints == 0) {
        A(((m_getreg(4) >> 28) & 3) == R.cc, "condition code of SIO");
        A(mw(0x480) == 0 && mw(0x490) == 0, "no interruption");
        if (R.cc == 1) {
            A(mw(0x44) == ((R.st << 16) | 0xffff), "status stored by SIO");
            A(mw(0x40) == 0xffffffff, "only the status half of the CSW is replaced");
        } else A(mw(0x40) == 0xffffffff && mw(0x44) == 0xffffffff, "CSW unchanged");
        symx_reach("refused");
    } else {
        uint32_t b = R.ints == 1 ? 0x490 : 0x480;
        A(m_getreg(4) == 0, "condition code of SIO");
        if (!(R.open & 1)) {
        A(mw(b) == (0xff060000 | daddr), "I/O old PSW: masks, key and unit address");
        A((mw(b + 4) & 0x3fffffff) == 0x14000408, "I/O old PSW: instruction address");
        A(mw(b + 8) == ((R.key << 28) | R.addr), "CSW key and command address");
        if (R.prot) A((mw(b + 12) >> 16) & 0x10, "protection check indicated");
        else A(((mw(b + 12) >> 16) & ~(R.il_either ? 0x40 : 0)) == (R.st & ~(R.il_either ? 0x40 : 0)), "CSW status");
        if (!R.cntopen) A((mw(b + 12) & 0xffff) == R.cnt, "CSW residual count");
        if (R.ints == 2) {
            A(mw(0x490) == (0xff060000 | daddr), "second I/O old PSW");
            A((mw(0x49c) >> 16) == R.st2, "device end status");
        }
        symx_reach(R.ints == 2 ? "two interruptions" : "interruption");
        }
    }
    A(dev_nop == R.ops, "operations started on the device");
    for (i = 0; i < R.ops && i < 4; i++) {
        A(dev_cmds[i] == R.cmd[i], "command byte");
        if (R.cmd[i] & 1) for (k = 0; k < R.nout[i]; k++) A(dev_buf[i][k] == R.out[i][k], "data written to the device");
    }
    for (k = 0x5f0; k < 0x660; k++) A(m_getmem(k) == RM[k], "storage contents");
    for (k = 0x7f0; k < 0x810; k++) A(m_getmem(k) == RM[k], "storage contents");
    for (k = 0x500; k < 0x540; k++) A(m_getmem(k) == RM[k], "channel program unchanged");
    for (k = 0x5f0; k < 0x660; k++) A(m_memparity(k), "storage parity");
    if (one) symx_assert(allok, one);
    symx_observe(m_getreg(4)); symx_observe(mw(0x44));
}
static void devdata(void) { int i, k; for (i = 0; i < 3; i++) for (k = 0; k < 4; k++) dev_buf[i][k] = symx_u8("data"); }

static void noparm(int sel) { cx.burst = sel ? 1 : symx_choice(2, "burst"); cx.burst_max = 3; dev_delay = symx_choice(2, "delay") * 7; }
static void syncmem(uint32_t a, int n) { int i; for (i = 0; i < n; i++) setb(a + i, symx_u8("mem")); }
/* symx_case: bit 0 the channel (0 multiplexer, 1 selector), bits 1-3 a variant, the rest the kind of scenario */
void harness(void) {
    static const uint16_t AD[] = { 0x00f, 0x10f };
    static const uint8_t CM[] = { 0x01, 0x02, 0x0c, 0x04, 0x03, 0x2c };
    static const uint8_t FL[] = { 0, SLI, SKIP, CC, CC | SLI, CD, CD | SLI };
    int sel = symx_case & 1, v = symx_case >> 4, t = (symx_case >> 1) & 7, c = 0, f = 0, n = 0, i, k = 0; uint32_t a, x;
    io_setup(AD[sel]);
    caw_hi = 0;
    switch (v) {
    case 0:                 /* one operation: flags, count, device length, alignment, delay, burst */
        c = CM[t]; f = FL[symx_choice((c & 1) ? 2 : 3, "flags")]; n = 1 + symx_choice(4, "count");
        dev_len[0] = 1 + symx_choice(4, "len"); a = 0x608 + symx_choice(4, "align");
        noparm(sel);
        devdata(); syncmem(0x600, 16);
        ccw(0, c, a, f, n);
        caw_hi = (symx_u8("key") & 0xf) << 4;
        setw(0x48, 0x500 | ((uint32_t)caw_hi << 24));
        for (i = 0; i < MEMSZ >> 11; i++) { SK[i] = caw_hi >> 4; m_setskey(i << 11, SK[i]); }
        break;
    case 1: case 9:         /* two chained operations or data-chained CCWs of any lengths */
    case 2:                 /* commands chained with matching lengths */
        c = CM[t]; f = v == 2 ? CC : FL[3 + symx_choice(4, "flags")]; n = 1 + symx_choice(v == 1 ? 2 : 3, "count"); x = v == 1 ? 2 : 3;
        for (i = 0; i < 3; i++) dev_len[i] = v == 2 || i == 2 ? n : 1 + symx_choice(3, "len");
        if (c == 4) if (v == 2) n = 1;
        a = 0x608 + (v == 2 ? symx_choice(4, "align") : 0);
        if (v == 1) { cx.burst = sel ? 1 : symx_choice(2, "burst"); cx.burst_max = 3; dev_delay = cx.burst * 7; } else noparm(sel);
        dev_de_delay = 20;
        devdata(); syncmem(0x600, 0x30);
        ccw(0, c, a, f, n);
        k = v == 1 ? CM[symx_choice(sel ? 1 : 3, "cmd2")] : CM[symx_choice(5, "cmd2")]; n = v == 2 ? n : 1 + symx_choice(x, "count2");
        if (v == 2) { if (k != 4) { n = 1 + symx_choice(3, "count2"); dev_len[1] = n; } else n = dev_len[1] = 1; }
        ccw(1, k, 0x618, v == 2 ? 0 : FL[symx_choice(2, "flags2")], n);
        setw(0x48, 0x500);
        break;
    case 3:                 /* nothing is started when the CAW or the first CCW is invalid */
        noparm(sel); a = 0x500; x = 0;
        ccw(0, 2, 0x608, 0, 4);
        switch (t) {
        case 0: a = 0x500 | (symx_u8("caw") & 7); symx_assume(a != 0x500); break;
        case 1: x = symx_u8("key") & 15; symx_assume(x != 0); break;
        case 2: ccw(0, 8 | (symx_u8("op") & 0xf0), 0x510, 0, 4); ccw(2, 2, 0x608, 0, 4); break;
        case 3: x = symx_u8("op"); symx_assume((x & 15) == 0); setb(0x500, x); x = 0; break;
        case 4: x = symx_u8("flags"); symx_assume((x & 7) != 0 && (x & 8) == 0); setb(0x504, x); x = 0; break;
        case 5: setw(0x504, symx_u8("flags") & 0xf0 ? 0x20000000 : 0); break;
        }
        caw_hi = x;
        setw(0x48, a | (x << 24));
        break;
    case 4:                 /* one operation with all interruptions masked off, ended by TIO */
        c = CM[t]; n = 1 + symx_choice(4, "count"); dev_len[0] = c == 4 ? n = 1 : n; noparm(sel);
        a = 0x608; devdata(); syncmem(0x600, 16); ccw(0, c, a, 0, n); setw(0x48, 0x500);
        code(0x408, P408, sizeof P408); code(0x460, P460, sizeof P460); setw(0x4a0, 0xffffffff); setw(0x4a4, 0xffffffff);
        setb(0x462, AD[sel] >> 8); setb(0x463, AD[sel] & 255); setb(0x478, AD[sel] >> 8); setb(0x479, AD[sel] & 255);
        polled = 1; break;
    case 5:                 /* ending status of the device; chaining stops unless it is channel end and device end */
        c = CM[t]; n = 1 + symx_choice(3, "count"); if (c == 4) n = 1; f = symx_choice(2, "chain") ? CC : 0; for (i = 0; i < 3; i++) dev_len[i] = n;
        a = 0x608; noparm(sel); devdata(); syncmem(0x600, 0x20);
        dev_x[0] = symx_choice(2, "op") == 0 ? symx_u8("status") & (UC | UE) : 0;
        ccw(0, c, a, f, n); ccw(1, 2, 0x618, 0, n);
        setw(0x48, 0x500);
        break;
    case 6:                 /* transfer in channel and status modifier */
        n = 1 + symx_choice(2, "count"); for (i = 0; i < 3; i++) dev_len[i] = n;
        noparm(sel); devdata(); syncmem(0x600, 0x20);
        dev_sms[0] = symx_choice(2, "modifier"); k = symx_choice(3, "tic");
        c = CM[t]; ccw(0, c, 0x608, CC, c == 4 ? 1 : n);
        x = symx_u8("op") & 0xf0; a = symx_u8("tic");
        ccw(1, k == 0 ? 8 | x : 2, k == 0 ? 0x520 : 0x618, CC, k == 0 ? a : n);
        ccw(2, k == 1 ? 8 : 1, k == 1 ? 0x520 : 0x610, 0, n);
        ccw(3, 8, k == 2 ? 0x528 : 0x520, 0, 0);
        ccw(4, 2, 0x61c, 0, n);
        setw(0x48, 0x500);
        break;
    case 7:                 /* storage protection and the end of storage */
        c = CM[t]; n = 1 + symx_choice(4, "count"); dev_len[0] = n; noparm(sel); devdata();
        if (c & 1) for (i = 0; i < 8; i++) setb(0xfff8 + i, symx_u8("mem"));
        syncmem(0x7f8, 16);
        a = symx_choice(2, "end") ? MEMSZ - ((c & 15) == 0x0c ? 1 : n) - symx_choice(2, "pos") : 0x7fe + symx_choice(4, "pos");
        ccw(0, c, a, 0, n);
        caw_hi = (symx_u8("key") & 0xf) << 4; symx_assume(caw_hi);
        setw(0x48, 0x500 | ((uint32_t)caw_hi << 24));
        for (i = 0; i < MEMSZ >> 11; i++) { SK[i] = caw_hi >> 4; if (i == 1) { SK[i] = symx_u8("skey") & 15; } m_setskey(i << 11, SK[i]); }
        break;
    }
#ifndef M30     /* known findings of the Model 50: programs that show them get one collective assertion */
    {
        int rb = (c & 15) == 0x0c, two = v == 1 || v == 2 || v == 9, len = c == 4 ? 1 : dev_len[0];
        if (two && (k & 15) == 0x0c) rb = 1;
        if (!sel) {
            if (v == 3 && t == 4) R.known = "multiplexer: invalid flag bits not refused";
            if (v == 3 && t == 5) R.known = "multiplexer: zero count not refused";
            if (v == 0 && (c & 1) && c != 3 && len != n) R.known = "multiplexer: residual count of a write that ends early";
            if (v == 0 && f == SKIP) R.known = "multiplexer: skip flag";
            if ((two || (v == 5 && f) || v == 6) && !cx.burst && !dev_delay) R.known = "multiplexer: chaining with a fast device";
            if (v == 6 && !dev_sms[0]) R.known = "multiplexer: chaining with TIC";
        } else if (v != 3) {
            if ((v == 0 || v == 7) && len < n && c != 3) R.known = "selector: residual count when the device ends early";
            if (v == 5 && f && dev_x[0]) R.known = "selector: chaining after an unusual ending status";
            if (v == 5 && c == 3 && dev_x[0]) R.known = "selector: unusual status of an immediate command";
            if (rb) R.known = "selector: read backward";
        }
    }
#endif
    check_io(60000);
}
