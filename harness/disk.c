/* Disk drives behind their real, microprogrammed control units: 2311 on a
   2841 and 2314 on a 2844. A test channel runs channel programs with symbolic
   data against an image whose records are symbolic as well; the data read and
   the image afterwards are compared with a model of a count-key-data track. */
#include "symx.h"
#include "vfs.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "config.h"
#include "device.h"
#include "event.h"
#include "xlat.h"
#include "dasd.h"
#ifdef D2844
#include "model2844.h"
typedef struct _2844_context CTX;
#define STEP step_2844
#define DTYPE "2314"
#define DCODE 0x14
#define HEADS 20
#define TSIZE 7680
#define IDLE 0x5b6
#define IDX 7294
void step_2844(void *);
#else
#include "model2841.h"
typedef struct _2841_context CTX;
#define STEP step_2841
#define DTYPE "2311"
#define DCODE 0x11
#define HEADS 10
#define TSIZE 4096
#define IDLE 0x5b6
#define IDX 3717
void step_2841(void *);
#endif
int log_level;
#define NCYL 3
#define CYL (TSIZE * HEADS)
static uint8_t mem[1024];
static CTX *ctx;
static struct _dasd_t *dk;
static device_t *dev;

static long budget;
static void tick(void) {
    int i;
    symx_assert(--budget > 0, "a channel program ends");
    if (budget <= 0) symx_end();
    for (i = 0; i < 2; i++) { symx_concretize(&ctx->WX, 2); step_disk(); }
    advance();
}
static uint16_t par(uint16_t v) { return v | odd_parity[v & 0xff]; }
/* One channel program on a selector channel. Returns the final status (unit status in the low byte,
   0x100 not operational, 0x200 busy); R.* tell where it stopped. */
static struct { int ccw, cnt, len; } R;
static uint16_t tags_in, bus_in = 0x100;
static void bus(uint16_t tags, uint16_t out) {
    tags_in = (tags_in & IN_TAGS) | tags;
    dev->bus_func(dev, &tags_in, out, &bus_in);
    tick();
}
#define GW(a) (((uint32_t)mem[a] << 24) | (mem[(a) + 1] << 16) | (mem[(a) + 2] << 8) | mem[(a) + 3])
static uint16_t run(uint8_t unit, int caw) {
    uint16_t tags, out, st; int cmd, addr, flags, cnt, wr, i, first, chend, q;
    int sup = 0;
    budget = 400000;
next:
#ifdef NATIVE
    printf("ccw %x %02x budget %ld\n", caw, mem[caw], budget);
#endif
    for (;;) { cmd = mem[caw]; addr = GW(caw) & 0xffffff; flags = mem[caw + 4]; cnt = (mem[caw + 6] << 8) | mem[caw + 7]; caw += 8; if (cmd == 8) caw = addr; else break; }
    R.ccw = caw; R.cnt = cnt; R.len = 0; wr = cmd & 1; chend = 0; out = 0x100;
    tags = CHAN_OPR_OUT | sup;
    for (i = 0; i < 50; i++) bus(tags, out);
    out = par(unit); tags |= CHAN_ADR_OUT; bus(tags, out);
    tags |= CHAN_SEL_OUT | CHAN_HLD_OUT;
    for (q = 0;; q++) {
        bus(tags, out);
        if (tags_in & CHAN_SEL_IN) return 0x100;
        if ((tags_in & (CHAN_OPR_IN | CHAN_STA_IN)) == CHAN_STA_IN) {   /* busy */
            st = 0x200 | (bus_in & 0xff); tags = CHAN_OPR_OUT;
            while (tags_in & (CHAN_OPR_IN | CHAN_STA_IN)) bus(tags, out);
            return st;
        }
        if (tags_in & CHAN_OPR_IN) tags &= ~CHAN_ADR_OUT;
        if ((tags_in & (CHAN_ADR_IN | CHAN_OPR_IN)) == (CHAN_ADR_IN | CHAN_OPR_IN)) break;
    }
    symx_assert(bus_in == par(unit), "the addressed unit answers");
    tags &= ~CHAN_SUP_OUT;
    out = par(cmd);
    do { if (tags_in & CHAN_ADR_IN) tags |= CHAN_CMD_OUT; else tags &= ~CHAN_CMD_OUT; bus(tags, out); } while (!(tags_in & CHAN_STA_IN));
    tags &= ~CHAN_CMD_OUT;
    for (first = 1;; first = 0) {
        if (!first) {       /* data until status */
            for (;;) {
                bus(tags, out);
                symx_assert(tags_in & CHAN_OPR_IN, "the control unit stays connected");
                if (tags_in & CHAN_STA_IN) break;
                if (!(tags_in & CHAN_SRV_IN)) continue;
                if (cnt == 0) { tags |= CHAN_CMD_OUT; R.len = !(flags & 0x20); }
                else {
                    tags |= CHAN_SRV_OUT; cnt--;
                    if (wr) out = par(mem[addr++]); else { symx_assert(bus_in == par(bus_in & 0xff), "data arrive with good parity"); if (!(flags & 0x10)) mem[addr] = bus_in; addr++; }
                }
                while (tags_in & CHAN_SRV_IN) bus(tags, out);
                tags &= ~(CHAN_SRV_OUT | CHAN_CMD_OUT);
            }
        }
        st = bus_in & 0xff;
        symx_concretize(&st, 2);
        symx_assert(bus_in == par(st), "status arrives with good parity");
        tags |= CHAN_SRV_OUT; if (!first && (flags & 0x40)) tags |= CHAN_SUP_OUT;
        while (tags_in & CHAN_STA_IN) bus(tags, out);
        tags &= ~CHAN_SRV_OUT;
        R.cnt = cnt;
        if (cnt && !chend && !first && !(flags & 0x20)) R.len = 1;
        if ((st & 0xb3) || (R.len && (st & SNS_CHNEND))) break;
        if (st & SNS_DEVEND) {
            if (!(flags & 0x40)) break;
            sup = tags & CHAN_SUP_OUT; tags = CHAN_OPR_OUT | sup;
            while (tags_in & (CHAN_OPR_IN | CHAN_STA_IN)) bus(tags, out);
            if (st & SNS_SMS) caw += 8;
            goto next;
        }
        if (st & SNS_CHNEND) { chend = 1; if (!(flags & 0x40)) break; }
    }
    tags = CHAN_OPR_OUT;
    while (tags_in & (CHAN_OPR_IN | CHAN_STA_IN | CHAN_SRV_IN)) bus(tags, out);
    return st;
}
/* accept status presented later (device end of a seek, control unit end) */
static uint16_t wait_dev(void) {
    uint16_t tags = CHAN_OPR_OUT, out = 0x100, st; int u;
    budget = 100000;
    while (!(tags_in & CHAN_REQ_IN)) bus(tags, out);
    tags |= CHAN_SEL_OUT | CHAN_HLD_OUT;
    while ((tags_in & (CHAN_ADR_IN | CHAN_OPR_IN)) != (CHAN_ADR_IN | CHAN_OPR_IN)) bus(tags, out);
    u = bus_in & 0xff;
    tags |= CHAN_CMD_OUT;
    while (tags_in & CHAN_ADR_IN) bus(tags, out);
    tags &= ~CHAN_CMD_OUT;
    while (!(tags_in & CHAN_STA_IN)) bus(tags, out);
    st = bus_in & 0xff;
    tags |= CHAN_SRV_OUT;
    while (tags_in & CHAN_STA_IN) bus(tags, out);
    tags = CHAN_OPR_OUT;
    while (tags_in & (CHAN_OPR_IN | CHAN_STA_IN | CHAN_SRV_IN)) bus(tags, out);
    return st | (u << 8);
}
static void ccw(int at, int cmd, int addr, int flags, int cnt) { uint8_t *p = mem + at; p[0] = cmd; p[1] = 0; p[2] = addr >> 8; p[3] = addr; p[4] = flags; p[5] = 0; p[6] = cnt >> 8; p[7] = cnt; }
#define CC 0x40
#define MASKBAD 0x27
/* ---- model of the image ---- */
struct rec { uint8_t cnt[8], key[16], dat[32]; };
static uint8_t *img;            /* the bytes of the file as they should be */
static struct vfile *F;
static uint8_t *trk(int c, int h) { return img + 512 + (long)c * CYL + h * TSIZE; }
static int put(uint8_t *p, int c, int h, int r, int kl, int dl, const uint8_t *k, const uint8_t *d) {
    p[0] = c >> 8; p[1] = c; p[2] = h >> 8; p[3] = h; p[4] = r; p[5] = kl; p[6] = dl >> 8; p[7] = dl;
    if (kl) memcpy(p + 8, k, kl); if (dl) memcpy(p + 8 + kl, d, dl);
    return 8 + kl + dl;
}
static const uint8_t zero[32];
static int tc, th;              /* track worked on */
static uint8_t K1[4], D1[8], K2[4], D2[8];
static int KL1, DL1, KL2, DL2;
static void image(void) {
    int c, h; uint8_t *p; long size = 512 + (long)NCYL * CYL;
    img = calloc(1, size);
    memcpy(img, "CKD_P370", 8); img[8] = HEADS; img[12] = TSIZE & 0xff; img[13] = TSIZE >> 8; img[16] = DCODE; img[18] = 203;
    for (c = 0; c < NCYL; c++) for (h = 0; h < HEADS; h++) {
        p = trk(c, h); p[1] = c >> 8; p[2] = c; p[4] = h; p += 5;
        p += put(p, c, h, 0, 0, 8, zero, zero);
        if (c == tc && h == th) { p += put(p, c, h, 1, KL1, DL1, K1, D1); p += put(p, c, h, 2, KL2, DL2, K2, D2); }
        memset(p, 0xff, 4);
    }
    F = vfs_create("d.ckd", img, size, size);
}
/* the file must equal the model; only the bytes up to the end mark of a track count */
static void check_image(const char *what) {
    long i; int c, h, bad = 0; symx_assert(F->size == 512 + (long)NCYL * CYL, "the file keeps its size");
    for (c = 0; c < NCYL; c++) for (h = 0; h < HEADS; h++) {
        uint8_t *p = trk(c, h), *q = F->data + (p - img), *e = p + 5;
        while ((e[0] & e[1] & e[2] & e[3]) != 0xff) e += 8 + e[5] + (e[6] << 8) + e[7];
        e += 4;
#ifdef NATIVE
        if (memcmp(p, q, e - p)) { printf("%d %d is ", c, h); for (i = 0; i < e - p + 8; i++) printf("%02x ", q[i]); printf("\nshould be "); for (i = 0; i < e - p + 8; i++) printf("%02x ", p[i]); puts(""); }
#endif
        if (c == tc && h == th) for (i = 0; i < e - p; i++) bad |= p[i] ^ q[i];
        else for (i = 0; i < e - p; i++) if (p[i] != q[i]) bad |= 1;
    }
    symx_assert(!bad, what);
}
static void setup(void) {
    int i; budget = 1000;
    image();
    init_event(); disk = NULL;
#ifdef D2844
    dev = model2844_init(0x90);
#else
    dev = model2841_init(NULL, 0x90);
#endif
    ctx = (CTX *)dev->dev;
    ctx->disk[1] = dk = calloc(1, sizeof(struct _dasd_t));
    dasd_settype(dk, DTYPE);
    symx_assert(dasd_attach(dk, "d.ckd", 0) == 1, "the image is attached");
    ctx->WX = 0;
    for (i = 0; i < 20 && ctx->WX != IDLE; i++) STEP(ctx);
    dk->cpos = IDX - 40;        /* shortly before the index mark */
}
static uint16_t sense(int at) { uint16_t s; ccw(0x1f0, 4, at, 0x20, 6); s = run(0x91, 0x1f0); if (s & 0x200) { wait_dev(); s = run(0x91, 0x1f0); } return s; }
/* seek + file mask in front of the program at 0x110 */
static void prefix(int c, int h, int mask) {
    uint8_t *p = mem + 0x200; p[0] = p[1] = 0; p[2] = c >> 8; p[3] = c; p[4] = h >> 8; p[5] = h; mem[0x208] = mask;
    ccw(0x100, 0x07, 0x200, CC, 6); ccw(0x108, 0x1f, 0x208, CC, 1);
}
static void search_id(int at, int c, int h, int r) { uint8_t *p = mem + 0x210; p[0] = c >> 8; p[1] = c; p[2] = h >> 8; p[3] = h; p[4] = r; ccw(at, 0x31, 0x210, CC, 5); ccw(at + 8, 8, at, 0, 1); }
#define OK(s) symx_assert((s) == (SNS_CHNEND | SNS_DEVEND) && !R.len && !R.cnt, "the channel program completes")
static void flush(void) { sense(0x1e0); dasd_detach(dk); }

#ifdef NATIVE
#define SHOW() printf("s=%x ccw=%x cnt=%d len=%d budget=%ld\n", s, R.ccw, R.cnt, R.len, budget); for (i = 0; i < 24; i++) printf("%02x ", b[i]); puts("")
#else
#define SHOW()
#endif
void harness(void) {
    int i, n, c = symx_case, sc = c & 0xf; uint16_t s; uint8_t *b = mem + 0x240, *w = mem + 0x280;
    static const struct { uint8_t kl1, dl1, kl2, dl2; } G[] = { { 2, 4, 2, 2 }, { 3, 3, 0, 5 }, { 0, 1, 1, 4 }, { 0, 6, 4, 1 }, { 1, 2, 1, 3 }, { 3, 2, 3, 1 }, { 4, 5, 4, 4 }, { 0, 3, 3, 2 } };
    KL1 = G[(c >> 4) & 7].kl1; DL1 = G[(c >> 4) & 7].dl1; KL2 = G[(c >> 4) & 7].kl2; DL2 = G[(c >> 4) & 7].dl2;
    tc = (c >> 8) & 3; th = (c >> 10) & 31;
    symx_make(K1, 4, "k1"); symx_make(D1, 6, "d1"); symx_make(K2, 4, "k2"); symx_make(D2, 5, "d2");
    setup();
    switch (sc) {
    case 0:                     /* read count, key and data of R1, then R2 */
        prefix(tc, th, 0xc0); search_id(0x110, tc, th, 0); ccw(0x120, 0x1e, 0x240, CC, 8 + KL1 + DL1); ccw(0x128, 0x1e, 0x260, 0, 8 + KL2 + DL2);
        s = run(0x91, 0x100); SHOW();
        OK(s);
        for (i = 0; i < KL1; i++) symx_assert(b[8 + i] == K1[i], "the key read is the key on the track");
        for (i = 0; i < DL1; i++) symx_assert(b[8 + KL1 + i] == D1[i], "the data read are the data on the track");
        b = mem + 0x260;
        for (i = 0; i < KL2; i++) symx_assert(b[8 + i] == K2[i], "the key read is the key on the track");
        for (i = 0; i < DL2; i++) symx_assert(b[8 + KL2 + i] == D2[i], "the data read are the data on the track");
        flush(); check_image("reading leaves the image unchanged");
        symx_reach("read");
        break;
    case 1:                     /* write data of R1 */
    case 2:                     /* write key and data of R1 */
        symx_make(w, 16, "w");
        n = (sc == 2 ? KL1 : 0) + DL1;
        prefix(tc, th, 0xc0); search_id(0x110, tc, th, 1); ccw(0x120, sc == 1 ? 0x05 : 0x0d, 0x280, 0, n);
        s = run(0x91, 0x100); SHOW();
        OK(s);
        { uint8_t *p = trk(tc, th) + 5 + 16 + 8; if (sc == 1) p += KL1; memcpy(p, w, n); }
        prefix(tc, th, 0xc0); search_id(0x110, tc, th, 1); ccw(0x120, 0x0e, 0x240, 0, KL1 + DL1);
        s = run(0x91, 0x100); SHOW();
        OK(s);
        for (i = 0; i < KL1 + DL1; i++) symx_assert(b[i] == trk(tc, th)[5 + 16 + 8 + i], "what was written is read back");
        flush();
        check_image("a write changes the record's field and nothing else");
        symx_reach("written");
        break;
    case 3:                     /* write count, key and data behind R1 */
        symx_make(w, 8, "w");
        put(mem + 0x280, tc, th, 2, KL2, DL2, w, w + KL2); n = 8 + KL2 + DL2;
        { uint8_t t[16]; memcpy(t, w, 8); put(w, tc, th, 2, KL2, DL2, t, t + 4); memcpy(trk(tc, th) + 5 + 16 + 8 + KL1 + DL1, w, n); memset(trk(tc, th) + 5 + 16 + 8 + KL1 + DL1 + n, 0xff, 4); }
        prefix(tc, th, 0xc0); search_id(0x110, tc, th, 1); ccw(0x120, 0x1d, 0x280, 0, n);
        s = run(0x91, 0x100); SHOW();
        OK(s);
        prefix(tc, th, 0xc0); search_id(0x110, tc, th, 1); ccw(0x120, 0x1e, 0x240, 0, n);
        s = run(0x91, 0x100); SHOW();
        if ((s & 0x210) == 0x210) { wait_dev(); s = run(0x91, 0x100); SHOW(); }    /* erasing to the end of the track */
        OK(s);
        for (i = 0; i < n; i++) symx_assert(b[i] == w[i], "the formatted record is read back");
        flush();
        check_image("a format write replaces the rest of its track and nothing else");
        symx_reach("formatted");
        break;
    case 4:                     /* search by key, then read the data */
        symx_make(w, 4, "w");
        { int m1 = KL1 == KL2, m2 = 1; for (i = 0; i < KL2; i++) { m1 &= w[i] == K1[i]; m2 &= w[i] == K2[i]; }
        prefix(tc, th, 0xc0); search_id(0x110, tc, th, 0); ccw(0x120, 0x29, 0x280, CC | 0x20, KL2); ccw(0x128, 8, 0x120, 0, 0); ccw(0x130, 0x06, 0x240, 0x20, 8);
        s = run(0x91, 0x100); SHOW();
        if (m1) { symx_assert(s == 0xc && R.cnt == 8 - DL1, "a search finds the first record with the key"); for (i = 0; i < DL1; i++) symx_assert(b[i] == D1[i], "the data of the record found are read"); symx_reach("found the first"); }
        else if (m2) { symx_assert(s == 0xc && R.cnt == 8 - DL2, "a search finds the record with the key"); for (i = 0; i < DL2; i++) symx_assert(b[i] == D2[i], "the data of the record found are read"); symx_reach("found the second"); }
        else { symx_assert((s & 0x102) == 2, "a search for a key that is not there ends with unit check"); s = sense(0x260); symx_assert(mem[0x261] & 0x08, "and no record found"); symx_reach("not found"); }
        }
        break;
    case 5: {                   /* seek anywhere */
        int ok;
        symx_make(w, 6, "seek");
        symx_assume(w[3] < 3 || w[3] > 0xc6);
        memcpy(mem + 0x200, w, 6); mem[0x208] = 0xc0;
        ccw(0x100, 0x07, 0x200, CC, 6); ccw(0x108, 0x1f, 0x208, CC, 1); ccw(0x110, 0x1a, 0x240, CC, 5); ccw(0x118, 0x16, 0x248, 0, 16);
        s = run(0x91, 0x100); SHOW();
        ok = !w[0] && !w[1] && !w[2] && w[3] < 203 && !w[4] && w[5] < HEADS;
        if (!ok) { symx_assert((s & 0x102) == 2, "a seek to an address that does not exist is rejected"); s = sense(0x260); symx_assert(mem[0x260] & 0x80 || mem[0x261] & 4, "with a seek check"); symx_reach("rejected"); }
        else if (w[3] < 3) { OK(s); symx_assert(b[0] == 0 && b[1] == 0 && b[2] == w[3] && b[3] == 0 && b[4] == w[5], "a seek arrives at its cylinder and head"); symx_assert(b[9] == w[3] && b[11] == w[5], "and record zero is that track's"); symx_reach("arrived"); }
        break; }
    case 6: {                   /* the file mask */
        int ok, m, fmt;
        symx_make(&mem[0x278], 1, "mask"); symx_make(w, 16, "w");
        prefix(tc, th, 0); mem[0x208] = mem[0x278];
        put(mem + 0x290, tc, th, 2, KL2, DL2, w, w + KL2);
        fmt = (c >> 15) & 1;
        search_id(0x110, tc, th, 1); if (fmt) ccw(0x120, 0x1d, 0x290, 0, 8 + KL2 + DL2); else ccw(0x120, 0x05, 0x280, 0, DL1);
        s = run(0x91, 0x100); SHOW();
        m = mem[0x278];
        ok = !(m & MASKBAD) && (m >> 6 == 0 || m >> 6 == 3 || (m >> 6 == 2 && !fmt));
        if (ok) {
            OK(s);
            if (fmt) { memcpy(trk(tc, th) + 5 + 16 + 8 + KL1 + DL1, mem + 0x290, 8 + KL2 + DL2); memset(trk(tc, th) + 5 + 16 + 16 + KL1 + DL1 + KL2 + DL2, 0xff, 4); }
            else memcpy(trk(tc, th) + 5 + 16 + 8 + KL1, w, DL1);
            s = sense(0x260); symx_reach("permitted");
        } else {
            symx_assert((s & 0x102) == 2, "a write the file mask forbids ends with unit check"); symx_reach("refused");
        }
        flush();
        check_image("a write takes place exactly if the file mask permits it");
        break; }
    case 7: {                   /* write home address, record zero and a record: the whole track is new */
        static uint8_t ha[5]; uint8_t *t = trk(tc, th);
        symx_make(w, 8, "w"); symx_make(mem + 0x2c8, 8, "r0");
        ha[2] = tc; ha[4] = th; memcpy(mem + 0x2b0, ha, 5);
        put(mem + 0x2c0, tc, th, 0, 0, 8, w, mem + 0x2c8);
        put(mem + 0x290, tc, th, 1, KL2, DL2, w, w + KL2);
        prefix(tc, th, 0xc0); ccw(0x110, 0x19, 0x2b0, CC, 5); ccw(0x118, 0x15, 0x2c0, CC, 16); ccw(0x120, 0x1d, 0x290, 0, 8 + KL2 + DL2);
        s = run(0x91, 0x100); SHOW();
        OK(s);
        memcpy(t, ha, 5); memcpy(t + 5, mem + 0x2c0, 16); memcpy(t + 21, mem + 0x290, 8 + KL2 + DL2); memset(t + 29 + KL2 + DL2, 0xff, 4);
        if ((c >> 15) & 1) {    /* look at it from another cylinder and back */
            prefix(2 - tc, th, 0xc0); ccw(0x110, 0x1a, 0x240, 0, 5);
            s = run(0x91, 0x100); if (s & 0x200) { wait_dev(); s = run(0x91, 0x100); }
            OK(s);
            prefix(tc, th, 0xc0); ccw(0x110, 0x1a, 0x240, CC, 5); ccw(0x118, 0x16, 0x248, CC, 16); ccw(0x120, 0x1e, 0x260, 0, 8 + KL2 + DL2);
            s = run(0x91, 0x100); SHOW();
            OK(s);
            for (i = 0; i < 5; i++) symx_assert(b[i] == ha[i], "the home address written is read back");
            for (i = 0; i < 16; i++) symx_assert(b[8 + i] == mem[0x2c0 + i], "the record zero written is read back");
            for (i = 0; i < 8 + KL2 + DL2; i++) symx_assert(mem[0x260 + i] == mem[0x290 + i], "the record written is read back");
        }
        flush();
        check_image("a new track is on the image and nothing else has changed");
        symx_reach("new track");
        break; }
    }
    symx_end();
}
