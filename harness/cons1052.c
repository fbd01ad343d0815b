/* The 1052 console on a test channel with its telnet terminal: what a program
   writes appears on the terminal, what is typed for a read reaches the program. */
#include "symx.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <arpa/inet.h>
#include "config.h"
#include "device.h"
#include "event.h"
#include "conf.h"
#include "xlat.h"
int log_level, log_enable;
int get_option(struct _option *o) { (void)o; return 0; }
static int h_socket(void) { return 3; }
static int h_zero(void) { return 0; }
static int h_accept(void) { return 5; }
static int h_select(int n, fd_set *r, void *w, void *e, void *t);
static long h_send(int fd, const void *b, unsigned long n, int f);
static long h_recv(int fd, void *b, unsigned long n, int f);
#define socket(...) h_socket()
#define setsockopt(...) h_zero()
#define bind(...) h_zero()
#define listen(...) h_zero()
#define accept(...) h_accept()
#define select h_select
#define send h_send
#define recv h_recv
#define close(...) h_zero()
#include "model1052/model1052.c"
#undef select
#undef send
#undef recv
SDL_Thread *SDL_CreateThread(int (*f)(void *), const char *name, void *arg) { (void)f; (void)name; (void)arg; return 0; }
void SDL_WaitThread(SDL_Thread *t, int *r) { (void)t; (void)r; }
static struct _1052_context *ctx;
static int nested;
static void tick(void) {            /* the terminal thread gets round whenever there is output */
    advance();
    if (ctx->out_flg || ctx->out_cr) { nested = 1; model1052_thrd(ctx); nested = 0; ctx->running = 1; }
}
#define TICK() tick()
#include "chan.h"
#define UNIT 0x1f
static uint8_t term[256], expt[256], want[64], chunk[16];
static int nt, ne, nw, pend, step, tn, op, got_esc;
static long h_send(int fd, const void *b, unsigned long n, int f) {
    unsigned long i; (void)f;
    symx_assert(fd == 5, "output goes to the terminal");
    for (i = 0; i < n; i++) term[nt++] = ((const uint8_t *)b)[i];
    return n;
}
static long h_recv(int fd, void *b, unsigned long n, int f) { int k = pend; (void)fd; (void)n; (void)f; memcpy(b, chunk, k); pend = 0; return k; }
static void terminal(void) {
    int i;
    symx_assert(nt == ne, "the terminal shows exactly what was written and typed");
    if (nt != ne) symx_end();
    for (i = 0; i < ne; i++) symx_assert(term[i] == expt[i], "each character appears as it was sent");
}
static uint8_t glyph(uint8_t e) {
    static const char p[] = "\x4b.\x4c<\x4d(\x4e+\x50&\x5b$\x5c*\x5d)\x5e;\x60-\x61/\x6b,\x6c%\x6d_\x6e>\x6f?\x7a:\x7b#\x7c@\x7d'\x7e=\x7f\"";
    int l = e & 15, i;
    if (e == 0x40) return ' ';
    if (e >= 0xf0 && l < 10) return '0' + l;
    if ((e & 0x3f) <= 0x29 && (e & 0x80) && l > 0 && l < 10 && (e >> 4 & 3) < 3 && !((e >> 4 & 3) == 2 && l == 1)) return (e & 0x40 ? 'A' : 'a') + ((e >> 4) & 3) * 9 + l - 1 - ((e >> 4 & 3) == 2);
    for (i = 0; p[i]; i += 2) if ((uint8_t)p[i] == e) return p[i + 1];
    return 0;
}
static uint8_t shown[256], key[128];            /* 0: not in the standard graphics */
static void tables(void) { int i; for (i = 0; i < 256; i++) { shown[i] = glyph(i); if (shown[i]) key[shown[i]] = i; } }
/* a program writes n characters of which the first ns are symbolic */
static void wr(int cmd, int n, int ns) {
    static int serial; int i, st; char nm[4] = "w0"; uint8_t *w = mem + 0x200;
    nm[1] += serial++;
    symx_make(w, ns, nm);
    for (i = 0; i < ns; i++) symx_assume(shown[w[i]]);
    for (; i < n; i++) w[i] = 0xc1 + i % 9;
    for (i = 0; i < n; i++) expt[ne++] = shown[w[i]];
    if (cmd == 9) { expt[ne++] = '\r'; expt[ne++] = '\n'; }
    ccw(0x40, cmd, 0x200, SLI, n);
    st = run(UNIT, 0x40);
    symx_assert(st == (SNS_CHNEND | SNS_DEVEND), "a write ends normally");
    symx_assert(R.cnt == 0, "all characters are taken");
    for (i = 0; i < 20; i++) bus(CHAN_OPR_OUT, 0x100);
    terminal();
    symx_reach("written");
}
/* n bytes arrive from the terminal: telnet commands are for the terminal, the rest is typed */
static void type(int n, int ns, const char *fixed) {
    static int serial; int i; char nm[4] = "k0"; uint8_t c;
    nm[1] += serial++;
    if (ns) symx_make(chunk, ns, nm);
    for (i = ns; i < n; i++) chunk[i] = fixed[i - ns];
    pend = n;
    for (i = 0; i < n; i++) {
        c = chunk[i];
        if (i == ns) symx_assume(tn == 0);          /* the end key is not part of a telnet command */
        if (tn == 0) {
            if (c == 255) { tn = 1; continue; }
            if (i >= ns && c == '\r') { expt[ne++] = '\r'; expt[ne++] = '\n'; continue; }
            if (i >= ns && c == 3) { expt[ne++] = '\r'; expt[ne++] = '\n'; continue; }
            if (i < ns) symx_assume(c != '\r' && c != '\f' && c != 27 && c != 3 && (c >= 128 || key[c]));
            want[nw++] = c; expt[ne++] = c;
        } else if (tn == 1) {
            if (c == 255) { want[nw++] = c; expt[ne++] = c; tn = 0; symx_reach("escaped"); }
            else if (c == (uint8_t)TN_BRK) tn = 0;
            else tn = 2;
        } else { tn = 0; symx_reach("telnet command"); }
    }
}
static void startread(int n) {
    memset(mem + 0x100, 0x5a, 32);
    ccw(0x40, 0x0a, 0x100, SLI, n); cm_split = 1; nw = 0;
    symx_assert(run(UNIT, 0x40) == 0x400, "a read waits for the operator");
}
static void endread(int n, int ue) {
    int i, st;
    cm_split = 0; st = run(RESUME, 0);
    symx_assert(st == (SNS_CHNEND | SNS_DEVEND | ue), "the end key ends the read");
    symx_assert(R.cnt == n - nw, "count of characters typed");
    for (i = 0; i < 32; i++) {
        if (i >= nw) symx_assert(mem[0x100 + i] == 0x5a, "nothing is stored beyond the characters typed");
        else if (want[i] < 128) symx_assert(mem[0x100 + i] == key[want[i]], "characters typed are delivered in order");
    }
    for (i = 0; i < 20; i++) bus(CHAN_OPR_OUT, 0x100);
    symx_reach("read");
}
static void senseis(int s) { int st; ccw(0x40, 4, 0x700, SLI, 1); st = run(UNIT, 0x40); symx_assert(st == (SNS_CHNEND | SNS_DEVEND) && mem[0x700] == s, "sense tells why"); }
static void reject(void) {
    int st; uint8_t c;
    symx_make(&c, 1, "command"); symx_assume(c != 0 && c != 1 && c != 9 && c != 10 && c != 3 && c != 4 && c != 8);   /* 8 is no command but a transfer in the channel */
    ccw(0x40, 0, 0x200, SLI, 3); mem[0x40] = c;
    st = run(UNIT, 0x40);
    symx_assert(st == (SNS_CHNEND | SNS_DEVEND | SNS_UNITCHK), "an unknown command is refused");
    senseis(0x80); terminal(); symx_reach("rejected");
}
static void quiet(void) { int i; budget = 400000; for (i = 0; i < 13000; i++) bus(CHAN_OPR_OUT, 0x100); symx_assert(!(tags_in & CHAN_REQ_IN), "an idle unit asks for nothing"); }
static void finish(void) { terminal(); symx_end(); }
/* bad parity on the command (0) or the n-th character */
static void badbus(int cmd, int n) {
    int i, st;
    memset(mem + 0x200, 0xc1, 4);
    ccw(0x40, cmd, 0x200, SLI, 4);
    cm_bad = n; st = run(UNIT, 0x40); cm_bad = -1;
    symx_assert(st == (SNS_CHNEND | SNS_DEVEND | SNS_UNITCHK), "bad parity on the bus is a unit check");
    for (i = 1; i < n; i++) expt[ne++] = 'A';
    for (i = 0; i < 20; i++) bus(CHAN_OPR_OUT, 0x100);
    senseis(0x20); terminal(); symx_reach("bus out");
}
static void busy(void) {
    int i;
    cm_split = 0;
    ccw(0x40, 4, 0x700, SLI, 1); symx_assert(run(UNIT, 0x40) == (0x200 | SNS_BSY), "during a read the unit is busy");
    for (i = 0; i < 8; i++) symx_assert(run(UNIT ^ (1 << i), 0x40) == 0x100, "no other unit answers");
    symx_reach("busy");
}
/* what happens before the terminal thread looks at its sockets for the n-th time */
static void script(int n) {
    switch (symx_case % 10) {
    case 0: if (n == 0) { wr(1, 3, 3); wr(9, 2, 2); wr(1, 12, 1); senseis(0); finish(); } break;
    case 1: if (n == 0) { startread(20); type(5, 4, "\r"); } else { endread(20, 0); quiet(); finish(); } break;
    case 2: if (n == 0) { ctx->in_ptr = ctx->out_ptr = 253; /* after many lines */ startread(20); type(3, 3, ""); } else if (n == 1) { busy(); type(3, 2, "\r"); } else { endread(20, 0); finish(); } break;
    case 3: if (n == 0) { startread(8); type(3, 2, "\x03"); } else { endread(8, SNS_UNITEXP); finish(); } break;
    case 4: if (n == 0) { reject(); wr(9, 3, 2); ccw(0x40, 3, 0, SLI, 1); symx_assert(run(UNIT, 0x40) == (SNS_CHNEND | SNS_DEVEND), "no operation ends at once"); finish(); } break;
    case 5: if (n == 0) { chunk[0] = 27; pend = 1; } else { cm_stack = symx_case / 10; symx_assert(wait_dev(UNIT) == SNS_ATTN, "the request key gives attention"); symx_reach("attention"); quiet(); wr(1, 2, 2); finish(); } break;
    case 7: if (n == 0) { badbus(9, 0); badbus(1, 0); badbus(1, 1); badbus(1, 3); badbus(10, 0); quiet(); wr(9, 2, 1); finish(); } break;
    case 8: if (n == 0) { startread(8); type(2, 1, "\x03"); } else if (n == 1) { endread(8, SNS_UNITEXP); startread(8); type(4, 2, "C\r"); } else { endread(8, 0); quiet(); finish(); } break;
    case 6: if (n == 0) { startread(2); type(5, 3, "B\r"); } else { cm_split = 0; symx_assert(run(RESUME, 0) == (SNS_CHNEND | SNS_DEVEND), "the count ends the read"); quiet(); symx_reach("short"); symx_end(); } break;
    }
}
static int h_select(int n, fd_set *r, void *w, void *e, void *t) {
    (void)n; (void)w; (void)e; (void)t;
    FD_ZERO(r);
    if (nested) { ctx->running = 0; return 0; }
    if (step++ == 0) { FD_SET(3, r); return 1; }
    if (step == 2) { nt = 0; }                      /* the telnet negotiation is not constrained */
    script(step - 2);
    if (pend) { FD_SET(5, r); return 1; }
    return 0;
}
void harness(void) {
    int i;
    cm_mpx = symx_case < 100;
    tables();
    init_event();
    dev = model1052_init(0, UNIT); ctx = (struct _1052_context *)dev->dev;
    budget = 1000; bus(0, 0x100); bus(CHAN_OPR_OUT, 0x100);
    model1052_thrd(ctx);
}
