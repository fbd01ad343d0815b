/* The 1443 printer on a test channel: what is printed appears in the file, line
   by line, spaced and skipped as commanded by the carriage tape. */
#include "symx.h"
#include "vfs.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "config.h"
#include "device.h"
#include "event.h"
#include "conf.h"
#include "xlat.h"
#include "model1443.h"
int log_level;
#define TICK() advance()
#include "chan.h"
#define UNIT 0x0e
FILE *h_fopen(const char *n, const char *m);
static struct _1443_context *ctx;
int get_option(struct _option *o) { (void)o; return 0; }
void model1443_draw(struct _device *u, void *r, int i) { (void)u; (void)r; (void)i; }
void *model1443_control(struct _device *u, int a, int b, int c) { (void)u; (void)a; (void)b; (void)c; return 0; }
void model1443_init(struct _device *u, void *r) { (void)u; (void)r; }
static uint8_t exp[2048];
static int ne, row;
/* lines (from 0) with a punch in channels 1 to 12 of the standard carriage tape of a 66 line form */
static const uint8_t chan_line[13] = { 0, 0, 6, 12, 18, 24, 30, 36, 42, 62, 48, 54, 60 };
static void put(char c) { exp[ne++] = c; }
static void nl(void) { put('\r'); put('\n'); if (++row == 66) { put('\f'); row = 0; } }
static uint8_t glyph(uint8_t e) {
    static const char p[] = "\x4b.\x4c<\x4d(\x4e+\x50&\x5b$\x5c*\x5d)\x5e;\x60-\x61/\x6b,\x6c%\x6d_\x6e>\x6f?\x7a:\x7b#\x7c@\x7d'\x7e=\x7f\"";
    int l = e & 15, i;
    if (e == 0x40) return ' ';
    if (e >= 0xf0 && l < 10) return '0' + l;
    if ((e & 0x3f) <= 0x29 && (e & 0x80) && l > 0 && l < 10 && (e >> 4 & 3) < 3 && !((e >> 4 & 3) == 2 && l == 1)) return (e & 0x40 ? 'A' : 'a') + ((e >> 4) & 3) * 9 + l - 1 - ((e >> 4 & 3) == 2);
    for (i = 0; p[i]; i += 2) if ((uint8_t)p[i] == e) return p[i + 1];
    return e < 0x40 ? '.' : 0;
}
static uint8_t look(uint8_t e) { static uint8_t t[256]; static int done; int i; if (!done) for (done = 1, i = 0; i < 256; i++) t[i] = glyph(i); return t[e]; }
static void file_is(void) {
    struct vfile *f = vfs_find("p"); int i;
    symx_assert(f->size == ne, "the file holds exactly the lines printed");
    if (f->size != ne) symx_end();
    for (i = 0; i < ne; i++) if (exp[i]) symx_assert(f->data[i] == exp[i], "each character is printed where it was sent");
}
static int special;         /* the paper may have moved over channel 9 or 12 */
static void move(int cmd) {
    int l = (cmd >> 3) & 15;
    if (!(cmd & 0x80)) { while (l--) { special |= row >= 59 && row < 64; nl(); } return; }
    special = row >= 59 || chan_line[l] >= 59 || chan_line[l] <= row;
    if (chan_line[l] <= row) { put('\r'); put('\n'); put('\f'); row = 0; }    /* on the next form */
    while (row != chan_line[l]) nl();
}
static void print(int cmd, int n, int ns) {
    static int serial; int i, k, st; char nm[4] = "l0"; uint8_t *w = mem + 0x200;
    nm[1] += serial++;
    if (ns) symx_make(w, ns, nm);
    for (i = ns; i < n; i++) w[i] = 0xc1 + (i % 9);
    ccw(0x40, cmd, 0x200, SLI, n);
    st = run(UNIT, 0x40);
    i = row; k = ne; special = 0; move(cmd); row = i; ne = k;
    symx_assert(st == SNS_CHNEND || (special && (st & ~(SNS_UNITCHK | SNS_UNITEXP)) == SNS_CHNEND), "channel end when the line is in the buffer");
    if ((cmd & 7) == 1) {
        k = n < 120 ? n : 120;
        symx_assert(R.cnt == n - k, "a line holds 120 characters");
        while (k > 1 && w[k - 1] == 0x40) k--;
        for (i = 0; i < k; i++) put(look(w[i]));
    }
    special = 0;
    move(cmd);
    k = 0;
    if (symx_case / 1000 % 10 && (serial & 1)) {
        ccw(0x40, 4, 0x700, SLI, 1); st = run(UNIT, 0x40);
        symx_assert((st & 0x200) && (st & SNS_BSY), "while the paper moves the unit is busy"); symx_reach("busy");
        for (i = 0; i < 8; i++) symx_assert(run(UNIT ^ (1 << i), 0x40) == 0x100, "no other unit answers");
        k = SNS_CTLEND;
    }
    cm_stack = symx_case / 10000 % 10;
    st = wait_dev(UNIT);
    symx_assert(special || st == (SNS_DEVEND | k), "device end when the paper has moved");
    file_is();
    symx_reach((cmd & 7) == 1 ? "printed" : "moved");
}
static void senseis(int s) { int st; ccw(0x40, 4, 0x700, SLI, 1); st = run(UNIT, 0x40); symx_assert(!(st & ~(SNS_CHNEND | SNS_DEVEND | SNS_UNITCHK)) && mem[0x700] == s, "sense tells why"); }
/* a command (n 0) or the n-th byte with bad parity */
static void badbus(int cmd, int n) {
    int st; static int serial; char nm[4] = "p0"; nm[1] += serial++;
    symx_make(mem + 0x200, 3, nm);
    ccw(0x40, cmd, 0x200, SLI, 3);
    cm_bad = n; st = run(UNIT, 0x40); cm_bad = -1;
    symx_assert(st == (SNS_CHNEND | SNS_DEVEND | SNS_UNITCHK), "bad parity on the bus is a unit check");
    file_is(); senseis(0x20); file_is(); symx_reach("bus out");
}
void harness(void) {
    static struct _option o; int c = symx_case, k, st; uint8_t b, old[3] = "x\n";
    static const uint8_t rows[] = { 0, 5, 6, 30, 59, 63, 64, 65 };
    cm_mpx = 1;
    init_event();
    o.addr = UNIT;
    vfs_create("p", old, 2, 2048);
    symx_assert(model1443_create(&o) == 1, "created");
    dev = find_chan(UNIT, 0xff); ctx = (struct _1443_context *)dev->dev;
    put('x'); put('\n');
    if (c % 1000 == 500) {
        ccw(0x40, 1, 0x200, SLI, 3); st = run(UNIT, 0x40);
        symx_assert(st == (SNS_CHNEND | SNS_DEVEND | SNS_UNITCHK), "without paper the printer asks for intervention"); file_is(); symx_reach("intervention"); symx_end();
    }
    ctx->file = h_fopen("p", "a"); ctx->ready = 1;
    row = ctx->row = rows[c % 10];
    switch (c / 100 % 10) {
    case 0: print(0x09, 6, 3); print(0x01, 3, 2); print(0x1b, 1, 0); print(0x11, 2, 1); break;
    case 1:                                         /* any spacing at the end of the form */
        symx_make(&b, 1, "space"); symx_assume(b <= 3); symx_concretize(&b, 1);
        print(b << 3 | 1, 2, 1); if (b) print(b << 3 | 3, 1, 0); print(0x89, 3, 0); break;
    case 2:                                         /* any channel, twice */
        symx_make(&b, 1, "channel"); symx_assume(b >= 1 && b <= 12); symx_concretize(&b, 1);
        print(0x80 | b << 3 | 1, 4, 1); print(0x80 | b << 3 | 3, 1, 0); print(0x0b, 1, 0); break;
    case 3: print(0x09, 125, 3); print(0x09, 120, 0); print(0x09, 119, 0); break;
    case 6: badbus(0x09, 0); badbus(0x0b, 0); badbus(0x89, 0); print(0x09, 5, 2); badbus(0x09, 1); badbus(0x11, 3); print(0x09, 4, 2); break;
    case 4:                                         /* any command it does not have */
        symx_make(&b, 1, "command");
        symx_assume((b & 7) > 4 || (b & 7) == 2 || ((b & 7) == 4 && b != 4) || ((b & 5) == 1 && ((b & 0x80) ? !(b & 0x78) || (b & 0x78) > 0x60 : (b & 0x78) > 0x18)));
        ccw(0x40, 0, 0x200, SLI, 3); mem[0x40] = b;
        st = run(UNIT, 0x40);
        symx_assert(st == (SNS_CHNEND | SNS_DEVEND | SNS_UNITCHK), "an unknown command is refused");
        file_is(); senseis(0x80); symx_reach("rejected"); print(0x09, 3, 2); break;
    }
    (void)k;
    symx_end();
}
