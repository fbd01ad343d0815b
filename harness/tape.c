/* Tape images: histories of write record / write mark / read forward / read
   backward / rewind / re-attach against a list-of-blocks model, and reading of
   arbitrary files.  symx_case = mode*100 + format*10 + sub:
   mode 0 histories on a short tape, 1 the same just around the 32 KB buffer
   limit, 2 arbitrary file contents, 3 a foreign (reference-encoded) tape. */
#include "symx.h"
#include "vfs.h"
#include <string.h>
#include <stdlib.h>
#include "tape.h"
int symx_case;
int log_level, log_enable;
#define MAXB 10
static struct blk { int mark, n, big; uint8_t d[4]; } B[MAXB];
static int nb, p, tail = 1, fmt, atbot, deep;
static struct _tape_buffer T;
static uint8_t val(struct blk *b, int i) { return b->big ? (uint8_t)((i * 7 + 5) & 0x3f) | 0x20 : b->d[i]; }
static void attach(int ring) {
    symx_assert(tape_attach(&T, "t", fmt, ring, 1) == 1, "attach succeeds");
    symx_assert(tape_ready(&T) && tape_at_loadpt(&T) && tape_ring(&T) == ring, "attached tape is ready at load point");
    p = 0; atbot = 1;
}
static void finish(const char *l) { symx_assert(tape_finish_rec(&T) == TAPE_STATUS_OK, l); }
static void put(struct blk *b) {
    int i;
    if (b->mark) {
        symx_assert(tape_write_mark(&T) == TAPE_STATUS_OK, "write mark accepted");
        if (symx_case & 1) finish("mark finished");
    } else {
        symx_assert(tape_write_start(&T) == TAPE_STATUS_OK, "write start accepted");
        for (i = 0; i < b->n; i++) symx_assert(tape_write_frame(&T, val(b, i)) == TAPE_STATUS_OK, "frame written");
        finish("record finished");
    }
    atbot = 0;
    symx_assert(!tape_at_loadpt(&T), "not at load point after writing");
}
static void do_write(int mark, int n, int big) {
    struct blk *b;
    symx_assume(p < MAXB);
    if (p < nb) { tail = 0; symx_reach("overwrite"); }
    b = &B[p]; b->mark = mark; b->n = n; b->big = big;
    if (!mark && !big) {
        symx_make(b->d, n, "data");
        if (fmt == TYPE_P7B) { int i; for (i = 0; i < n; i++) symx_assume(b->d[i] < 0x80); symx_assume(b->d[0] != 0x0f); }
    }
    put(b);
    p++; nb = p;
}
static void do_forw(int stop) {
    int r, i; uint8_t c; struct blk *b;
    if (p == nb && !tail) symx_assume(0);
    r = tape_read_forw(&T);
    if (p == nb) { symx_assert(r == TAPE_STATUS_EOT, "end of tape reported after the last block"); symx_reach("eot"); atbot = 0; return; }
    b = &B[p];
    atbot = 0;
    if (b->mark) {
        symx_assert(r == TAPE_STATUS_MARK, "tape mark read as a mark");
        symx_assert(tape_read_frame(&T, &c) == TAPE_STATUS_MARK, "no data under a mark");
        symx_reach("mark");
    } else {
        symx_assert(r == TAPE_STATUS_OK, "record start found");
        for (i = 0; i < b->n && i < stop; i++) {
            symx_assert(tape_read_frame(&T, &c) == TAPE_STATUS_OK, "frame read");
            symx_assert(c == val(b, i), "frame holds what was written");
        }
        if (i == b->n && stop > b->n) symx_assert(tape_read_frame(&T, &c) == TAPE_STATUS_EOB, "end of block after the last frame");
        symx_reach("read");
    }
    finish("read finished");
    p++;
}
static void do_back(int stop) {
    int r, i; uint8_t c; struct blk *b;
    r = tape_read_back(&T);
    if (p == 0) { symx_assert(r == TAPE_STATUS_BOT, "load point reported before the first block"); symx_assert(tape_at_loadpt(&T), "at load point"); atbot = 1; symx_reach("bot"); return; }
    b = &B[p - 1];
    if (b->mark) {
        symx_assert(r == TAPE_STATUS_MARK, "tape mark read backward as a mark");
        symx_assert(tape_read_frame(&T, &c) == TAPE_STATUS_MARK, "no data under a mark");
        symx_reach("bmark");
    } else {
        symx_assert(r == TAPE_STATUS_OK, "record found backward");
        for (i = b->n - 1; i >= 0 && b->n - 1 - i < stop; i--) {
            symx_assert(tape_read_frame(&T, &c) == TAPE_STATUS_OK, "frame read backward");
            symx_assert(c == val(b, i), "frame read backward holds what was written");
        }
        if (i < 0 && stop > b->n) symx_assert(tape_read_frame(&T, &c) == TAPE_STATUS_EOB, "end of block after the first frame");
        symx_reach("back");
    }
    finish("backward read finished");
    p--;
}
static void do_rewind(void) {
    int i, r;
    symx_assert(tape_start_rewind(&T) == TAPE_STATUS_OK, "rewind starts");
    for (i = 0; i < 3; i++) { r = tape_rewind_frames(&T, 1000000); if (r == TAPE_STATUS_BOT) break; symx_assert(r == TAPE_STATUS_OK, "rewinding"); }
    symx_assert(r == TAPE_STATUS_BOT && tape_at_loadpt(&T), "rewind ends at load point");
    p = 0; atbot = 1;
}
static void do_reattach(int ring) {
    tape_detach(&T);
    symx_assert(!tape_ready(&T) && vfs_open_count == 0, "detached");
    attach(ring);
}
static void step(int kinds) {
    switch (symx_choice(kinds, "op")) {
    case 0: do_write(0, 1 + symx_choice(2, "len"), 0); break;
    case 1: do_forw(9); break;
    case 2: do_back(9); break;
    case 3: do_write(1, 0, 0); break;
    case 4: do_rewind(); break;
    case 5: do_reattach(1); break;
    case 6: do_forw(symx_choice(2, "stop")); break;
    case 7: do_back(symx_choice(2, "stop")); break;
    }
}
static void verify(void) {   /* the whole tape, both ways, as the model has it */
    int n = nb, k;
    do_reattach(0);
    for (k = 0; k < n; k++) do_forw(9);
    if (tail) { do_forw(9); }
    for (k = 0; k < n; k++) do_back(9);
    do_back(9);
    symx_assert(tape_write_start(&T) == TAPE_STATUS_WRP && tape_write_mark(&T) == TAPE_STATUS_WRP, "no write without a ring");
    tape_detach(&T);
    symx_assert(vfs_open_count == 0, "file closed");
}
static void history(void) {
    int k, ops = deep ? 6 : 5;
    vfs_create("t", NULL, 0, 256);
    attach(1);
    for (k = 0; k < ops; k++) step(8);
    verify();
    symx_reach("end");
}
/* a first record that ends just at the end of the 32 KB buffer */
static void boundary(void) {
    int k, over = fmt == TYPE_P7B ? 0 : 8, n;
    vfs_create("t", NULL, 0, 70000);
    attach(1);
    n = 32768 - over - 6 + (symx_case % 10) * 2 + symx_choice(2, "fill");
    do_write(0, n, 1);
    do_write(symx_choice(2, "mark"), 2, 0);
    for (k = 0; k < (deep ? 4 : 3); k++) switch (symx_choice(4, "op")) {
    case 0: do_write(0, 2, 0); break;
    case 1: do_forw(9); break;
    case 2: do_back(1); break;
    case 3: do_rewind(); break;
    }
    n = nb; do_reattach(0);
    for (k = 0; k < n; k++) do_forw(k ? 9 : 3);
    if (tail) do_forw(9);
    for (k = n; k > 1; k--) do_back(9);
    tape_detach(&T);
    symx_reach("end");
}
/* any file: no memory error, every operation ends */
static void robust(void) {
    static uint8_t f[24]; int k, i, r = 0, n = symx_choice(deep ? 21 : 14, "size"), fl = symx_case % 10, wrote = 0; uint8_t c = 0;
    symx_make(f, n, "file");
    vfs_create("t", f, n, 256);
    attach(1);
    if (fl) fl = 1 + symx_choice(4, "fault");     /* the host refuses reads or writes from some operation on */
    for (k = 0; k < 4; k++) { if (fl - 1 == k) vfs_fail_read = vfs_fail_write = 1; switch (symx_choice(4, "op")) {
    case 0: r = tape_read_forw(&T);
        if (r == TAPE_STATUS_OK) { for (i = 0; i < 3; i++) if (tape_read_frame(&T, &c) != TAPE_STATUS_OK) break; tape_finish_rec(&T); }
        break;
    case 1: r = tape_read_back(&T);
        if (r == TAPE_STATUS_OK) { for (i = 0; i < 3; i++) if (tape_read_frame(&T, &c) != TAPE_STATUS_OK) break; tape_finish_rec(&T); }
        break;
    case 2: wrote = 1; if (tape_write_start(&T) == TAPE_STATUS_OK) { tape_write_frame(&T, 0x41); tape_finish_rec(&T); } break;
    case 3: wrote = 1; tape_write_mark(&T); break;
    } }
    vfs_fail_read = vfs_fail_write = 0;
    tape_start_rewind(&T);
    if (fl && !wrote) {        /* a host failure that has gone leaves no trace */
        static struct _tape_buffer U; int q; uint8_t d = 0;
        tape_attach(&U, "t", fmt, 0, 1);
        for (k = 0; k < 2; k++) {
            r = tape_read_forw(&T); q = tape_read_forw(&U); symx_assert(r == q, "same block after a transient failure");
            for (i = 0; r == TAPE_STATUS_OK && i < 2; i++) { r = tape_read_frame(&T, &c); q = tape_read_frame(&U, &d); symx_assert(r == q && (r != TAPE_STATUS_OK || c == d), "same data after a transient failure"); }
            tape_finish_rec(&T); tape_finish_rec(&U);
        }
        tape_detach(&U); symx_reach("transient");
    }
    tape_detach(&T);
    symx_assert(vfs_open_count == 0, "file closed");
    symx_reach("robust");
}
/* a tape written by another program, in the documented format */
static void foreign(void) {
    static uint8_t f[64]; int k, n = 0, i, l;
    for (k = 0; k < (deep ? 4 : 3); k++) {
        struct blk *b = &B[k];
        l = symx_choice(4, "kind");
        if (l == 0) { b->mark = 1; if (fmt == TYPE_P7B) f[n++] = 0x8f; else { memset(f + n, 0, 4); n += 4; } continue; }
        b->n = l; symx_make(b->d, l, "data");
        if (fmt == TYPE_P7B) { for (i = 0; i < l; i++) { symx_assume(b->d[i] < 0x80); f[n++] = b->d[i] | (i ? 0 : 0x80); } symx_assume(b->d[0] != 0x0f); continue; }
        f[n] = l; f[n + 1] = f[n + 2] = f[n + 3] = 0; n += 4;
        for (i = 0; i < l; i++) f[n++] = b->d[i];
        if (fmt == TYPE_TAP && (l & 1)) f[n++] = 0;
        f[n] = l; f[n + 1] = f[n + 2] = f[n + 3] = 0; n += 4;
    }
    nb = k;
    if (fmt != TYPE_P7B && (symx_case & 1)) { memset(f + n, 0xff, 4); n += 4; }
    vfs_create("t", f, n, 256);
    attach(1);
    for (k = 0; k < 3; k++) switch (symx_choice(4, "op")) {
    case 0: do_forw(9); break;
    case 1: do_back(9); break;
    case 2: do_forw(1); break;
    case 3: do_back(1); break;
    }
    for (k = 0; p < nb; k++) do_forw(9);
    do_forw(9);
    do_write(0, 1, 0);
    verify();
    symx_reach("end");
}
void harness(void) {
    int mode = symx_case / 100 % 10;
    deep = symx_case / 1000; fmt = symx_case / 10 % 10;
    switch (mode) { case 0: history(); break; case 1: boundary(); break; case 2: robust(); break; case 3: foreign(); break; }
}
