/* The 1442 card reader punch on a test channel: cards with symbolic holes are
   read, punched and stacked; compared with a three-station model of the card path. */
#include "symx.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "config.h"
#include "device.h"
#include "event.h"
#include "xlat.h"
#include "card.h"
#include "model1442.h"
int log_level;
#define TICK() advance()
#include "chan.h"
#define UNIT 0x0c
#define NC 4
static struct _1442_context *ctx;
static const int scol[4] = { 0, 1, 40, 79 };
/* model */
static uint16_t deck[NC][80];                   /* card number i as it is now (punching changes it) */
static int hop, ncard, rd = -1, pu = -1, pcol, eof, rdy, sns;
static int stk[2][NC + 1], nst[2];
static void mfeed(int s) {                      /* the cards move one station */
    if (hop == ncard && !eof) { sns |= 0x40; rdy = 0; return; }
    if (pu >= 0) { stk[s][nst[s]++] = pu; pu = -1; pcol = 0; }
    if (rd >= 0) { pu = rd; rd = -1; }
    rdy = 0;
    if (hop < ncard) { rd = hop++; rdy = hop < ncard || eof; }
    if (rdy) sns &= ~0x40; else sns |= 0x40;
}
static int conv(uint16_t h, int *bad) { uint16_t e = hol_to_ebcdic(h); *bad = e == 0x100; return *bad ? 0 : e; }
static void stations(void) {
    int i, k, s;
    symx_assert(ctx->rdr_full == (rd >= 0) && ctx->pch_full == (pu >= 0), "cards are at the stations they have moved to");
    for (i = 0; i < 80; i++) {
        if (rd >= 0) symx_assert(ctx->rdr_card[i] == deck[rd][i], "the card at the read station is unchanged");
        if (pu >= 0) symx_assert(ctx->pch_card[i] == deck[pu][i], "the card at the punch station carries its punches");
    }
    for (s = 0; s < 2; s++) {
        symx_assert(stack_size(ctx->stack[s]) == nst[s], "every card is in the stacker selected");
        for (k = 0; k < nst[s]; k++) for (i = 0; i < 80; i++) symx_assert((*ctx->stack[s]->images)[k][i] == deck[stk[s][k]][i], "stacked cards keep their punches and order");
    }
}
static uint8_t sense(void) { uint16_t st; ccw(0x40, 4, 0x700, SLI, 1); st = run(UNIT, 0x40); symx_assert(st == (SNS_CHNEND | SNS_DEVEND), "sense ends normally"); return mem[0x700]; }
/* one operation: kind 'r' read n, 'w' write n without feed, 'f' write n and feed, 'm' feed alone; s = stacker */
static void op(int kind, int n, int s) {
    static int serial; int i, cmd, bad = 0, nb, ex, st, st2, m; uint8_t *b = mem + 0x100, *w = mem + 0x200;
    char nm[4] = "w0"; nm[1] += serial++;
    cmd = (kind == 'r' ? 0x02 : kind == 'w' ? 0x01 : kind == 'f' ? 0x81 : 0x83) | (s ? 0x20 : 0);
    memset(b, 0x5a, 100);
    if (kind == 'w' || kind == 'f') { symx_make(w, 3, nm); for (i = 3; i < n; i++) w[i] = 0xc1 + (i & 7); }
    ccw(0x40, cmd, kind == 'r' ? 0x100 : 0x200, SLI, n);
    st = run(UNIT, 0x40);
    sns &= 0x40;
    if ((kind == 'r' || kind == 'm') && !rdy) {
        sns |= 0x40;
        symx_assert(st == (SNS_CHNEND | SNS_DEVEND | SNS_UNITCHK), "without a card the reader asks for intervention");
        symx_assert(sense() == sns, "intervention required");
        symx_reach("intervention");
        return;
    }
    if ((kind == 'w' || kind == 'f') && pu < 0) {
        symx_assert(st == (SNS_CHNEND | SNS_DEVEND | (sns ? SNS_UNITCHK : 0)), "without a card there is nothing to punch");
        symx_reach("no card");
        return;
    }
    if (kind == 'r') {
        nb = n < 80 ? n : 80;
        for (i = 0; i < nb; i++) { ex = conv(deck[rd][i], &m); bad |= m; symx_assert(b[i] == ex, "a column is read as the character punched in it"); }
        if (n < 80) { conv(deck[rd][n], &m); symx_assume(!m); }   /* the column behind may have been looked at */
        for (; i < 100; i++) symx_assert(b[i] == 0x5a, "nothing is stored beyond the columns read");
        symx_assert(R.cnt == n - nb, "count of columns read");
        if (bad) sns |= 8;
    }
    if (kind == 'w' || kind == 'f') { for (i = 0; i < n; i++) { if (pcol < 80) deck[pu][pcol++] |= ebcdic_to_hol(w[i]); } symx_assert(R.cnt == 0, "all bytes are punched"); }
    if (kind == 'w') { symx_assert(st == (SNS_CHNEND | SNS_DEVEND | (sns ? SNS_UNITCHK : 0)), "punching without feed ends at once"); symx_reach("punched"); stations(); return; }
    symx_assert(st == SNS_CHNEND || kind == 'm' , "channel end comes when the data are transferred");
    ex = SNS_DEVEND;
    if (!(st & SNS_DEVEND)) {
        if (symx_case / 100 % 10 == 0 || kind == 'm') { ccw(0x40, 4, 0x700, SLI, 1); symx_assert(run(UNIT, 0x40) == (0x200 | SNS_BSY), "while a card moves the unit is busy"); ccw(0x40, cmd, 0x100, SLI, n); symx_assert(run(UNIT, 0x40) == (0x200 | SNS_BSY), "while a card moves the unit is busy"); symx_reach("busy"); }
        m = rd; i = hop == ncard && eof;
        if (i) { ex |= SNS_UNITEXP; eof = 0; } /* the last card stays at the read station */
        mfeed(s);
        if (i) ;
        else if (sns) ex |= SNS_UNITCHK;
        cm_stack = symx_case / 10000 % 10;
        st2 = wait_dev(UNIT);
        symx_assert(st2 == ex, "device end comes when the card has moved, with unit exception behind the last card and unit check for bad columns");
        symx_reach(i ? "last card" : bad ? "data check" : kind == 'r' ? "read" : kind == 'f' ? "punched and fed" : "fed");
    } else symx_assert(0, "a feed ends with the card");
    stations();
    if (sns) symx_assert(sense() == sns, "sense tells why");
}
/* any command byte with a code or modifier the 1442 does not have */
static void reject(void) {
    static int serial; uint8_t c; int st; char nm[4] = "c0"; nm[1] += serial++;
    symx_make(&c, 1, nm);
    symx_assume((c & 7) > 4 || ((c & 7) == 4 && c != 4) || ((c & 7) == 2 && (c & 0xdc)) || ((c & 5) == 1 && (c & 0x5c)));
    ccw(0x40, 0, 0x100, SLI, 10); mem[0x40] = c;
    sns &= 0x40;
    st = run(UNIT, 0x40);
    symx_assert(st == (SNS_CHNEND | SNS_DEVEND | SNS_UNITCHK), "an unknown command is refused");
    sns |= 0x80; stations(); symx_assert((sense() & 0xc0) == sns, "command reject"); symx_reach("rejected");
}
/* a punch command with bad parity on the command (0) or the n-th byte */
static void badbus(int n) {
    int st; uint8_t *w = mem + 0x200; static int serial; char nm[4] = "b0"; nm[1] += serial++;
    symx_make(w, 3, nm);
    ccw(0x40, 0x81, 0x200, SLI, 3);
    cm_bad = n; st = run(UNIT, 0x40); cm_bad = -1;
    symx_assert(st == (SNS_CHNEND | SNS_DEVEND | SNS_UNITCHK), "bad parity on the bus is a unit check");
    if (n == 2 && pcol < 80) deck[pu][pcol++] |= ebcdic_to_hol(w[0]);
    symx_assert((sense() & ~8) == (sns = (sns & 0x40) | 0x20), "bus out check");
    stations(); symx_reach("bus out");
}
void harness(void) {
    int i, k, c = symx_case, pr = c / 100 % 10;
    static uint16_t h[4 * NC];
    cm_mpx = (c / 1000) & 1;
    ncard = c / 10 % 10; eof = c % 10 & 1;
    init_event();
    dev = model1442_init(UNIT); ctx = (struct _1442_context *)dev->dev;
    symx_make(h, sizeof h, "holes");
    blank_deck(ctx->feed, ncard);
    for (k = 0; k < ncard; k++) {
        for (i = 0; i < 80; i++) deck[k][i] = i % 9 == 3 ? 0x800 | (0x100 >> (i / 9)) : 0;
        for (i = 0; i < 4; i++) if (pr != 3 || k == 0) deck[k][scol[i]] = h[4 * k + i] & 0xfff;
        for (i = 0; i < 80; i++) (*ctx->feed->images)[k][i] = deck[k][i];
    }
    ctx->eof_flag = eof;
    model1442_feed(ctx); mfeed(0);
    ccw(0x40, 2, 0x100, SLI, 1);
    for (i = 0; i < 8; i++) symx_assert(run(UNIT ^ (1 << i), 0x40) == 0x100, "no other unit answers");
    switch (pr) {
    case 0: op('r', 80, 0); op('f', 3, 1); break;
    case 1: op('r', 2, 1); op('r', 90, 0); op('w', 3, 0); op('f', 70, 1); break;
    case 2: op('m', 1, 0); op('w', 3, 1); op('w', 79, 0); op('r', 1, 1); break;
    case 5: op('r', 80, 0); badbus(0); badbus(1); badbus(2); op('f', 2, 1); break;
    case 6: op('r', 80, 1); op('f', 3, 0); op('m', 1, 1); op('r', 1, 0); break;
    case 4: op('r', 2, 0); reject(); op('w', 4, 1); reject(); op('r', 80, 1); break;
    case 3: for (i = 0; i < 5; i++) op('r', 80, i & 1); break;
    }
    symx_end();
}
