/* Card codes, decks and hoppers (device/card.c). */
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include "vfs.h"
#include "card.h"
int symx_case, log_level, log_enable;
static int LMAX = 6; /* symbolic characters per deck; thorough cases (100+) use 10 */
/* Standard EBCDIC card code, from the structure of the code. */
static uint16_t dig(int n) { return n == 0 ? 0x200 : n > 9 ? 0 : 0x100 >> (n - 1); }
static uint16_t ebc_punch(int e) {
    static const uint16_t z8[4] = { 0xA00, 0xC00, 0x600, 0xE00 };
    static const uint16_t z0[4] = { 0x800, 0x400, 0x200, 0x000 };
    static const uint16_t zl0[4] = { 0xB03, 0xD03, 0x703, 0xF03 };
    int hi = e >> 4, lo = e & 15, k = hi & 3;
    uint16_t d = lo >= 10 ? (dig(8) | dig(lo - 8)) : dig(lo);
    switch (hi >> 2) {
    case 0: if (lo == 0) return zl0[k]; if (lo == 8) return z0[k] | 3; if (lo == 9) return z0[k] | 0x103; return z0[k] | 1 | d;
    case 1: if (e == 0x40) return 0; if (e == 0x50) return 0x800; if (e == 0x60) return 0x400; if (e == 0x70) return 0xE00;
            if (e == 0x61) return 0x300; if (e == 0x6A) return 0xC00;
            if (lo == 9) return z0[k] | 0x102; if (lo < 9) return z8[k] | 1 | d; return z0[k] | d;
    case 2: if (lo == 0) return z8[k] | 0x102; return z8[k] | d;
    default: if (e == 0xC0) return 0xA00; if (e == 0xD0) return 0x600; if (e == 0xE0) return 0x282; if (e == 0xE1) return 0x701; if (e == 0xF0) return 0x200;
            if (lo >= 10) return z8[k] | 1 | d; return z0[k] | d;
    }
}
/* EBCDIC graphic for the characters whose card code all conventions share */
static int ebc_of(int c) {
    static const char sp[] = ".<(|&!$*);-/,%_>?:#@'=\"";
    static const uint8_t se[] = { 0x4b, 0x4c, 0x4d, 0x4f, 0x50, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x60, 0x61, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x7a, 0x7b, 0x7c, 0x7d, 0x7e, 0x7f };
    int i;
    if (c >= '0' && c <= '9') return 0xF0 + c - '0';
    if (c >= 'A' && c <= 'I') return 0xC1 + c - 'A';
    if (c >= 'J' && c <= 'R') return 0xD1 + c - 'J';
    if (c >= 'S' && c <= 'Z') return 0xE2 + c - 'S';
    if (c >= 'a' && c <= 'i') return 0x81 + c - 'a';
    if (c >= 'j' && c <= 'r') return 0x91 + c - 'j';
    if (c >= 's' && c <= 'z') return 0xA2 + c - 's';
    if (c == ' ') return 0x40;
    for (i = 0; sp[i]; i++) if (sp[i] == c) return se[i];
    return -1;
}
static int ebc29(int c) { return c == '+' ? 0x4e : ebc_of(c); }
static uint16_t SPEC[256], A29[128]; /* A29: expected card code for text, 0xffff when the check leaves it open */
static void init(void) {
    int i;
    for (i = 0; i < 256; i++) SPEC[i] = ebc_punch(i);
    for (i = 0; i < 128; i++) { int e = ebc29(i); A29[i] = e >= 0 ? SPEC[e] : i < 32 || i == 127 ? 0xfff : 0xffff; }
}
static void t_codes(void) {
    struct card_context *c = init_card_context();
    uint8_t e = symx_u8("ebcdic");
    uint16_t h = ebcdic_to_hol(e);
    symx_assert(h == SPEC[e], "EBCDIC byte has its standard card code");
    symx_assert(hol_to_ebcdic(h) == e, "EBCDIC -> card code -> EBCDIC is the identity");
    symx_observe(h);
    uint16_t x = symx_u16("punches"); symx_assume(x < 4096);
    uint16_t r = hol_to_ebcdic(x);
    symx_assert(r <= 0x100, "reverse code is a byte or the invalid mark");
    if (r < 0x100) symx_assert(SPEC[r] == x, "reverse code is the byte punched so");
    symx_observe(r);
    uint8_t a = symx_u8("ascii");
    uint16_t p = ascii_to_hol(a);
    if (a >= 128 || a < 32 || a == 127) symx_assert(p & 0xf000, "no card code for a control or 8-bit character");
    else { int q = ebc_of(a); symx_assert(p < 4096, "card code has 12 rows"); if (q >= 0) symx_assert(p == SPEC[q], "ASCII character has its standard card code"); }
    symx_observe(p);
    uint8_t b = hol_to_ascii(x);
    symx_assert(b == 0xff || (b >= 32 && b < 127), "card code translates to a printable character or to the invalid mark");
    if (b != 0xff && A29[b & 127] != 0xffff) symx_assert(A29[b & 127] == x, "card code translates to the character punched so");
    uint8_t g = symx_u8("graphic"); symx_assume(g < 128);
    if (A29[g] < 4096 && A29[g] != 0xfff) symx_assert(hol_to_ascii(A29[g]) == g, "graphic character survives card and back");
    symx_observe(b);
    (void)c;
    symx_reach("codes");
}
/* reference reader for text lines that are not ~ lines */
static uint16_t R[8][80]; static int nr;
static void ref_text(const uint8_t *b, int n) {
    int i = 0;
    nr = 0;
    while (i < n) {
        int col = 0;
        memset(R[nr], 0, sizeof R[nr]);
        while (i < n && b[i] != '\n') {
            if (b[i] == '\t') { col = (col | 7) + 1; i++; continue; }
            if (b[i] != 0 && b[i] != '\r') { if (col < 80) R[nr][col] = b[i] > 127 ? 0xfff : A29[b[i]]; col++; }
            i++;
        }
        i++;
        nr++;
    }
}
static void chk_deck(struct card_context *c, int cols) {
    int i, j; uint16_t img[80];
    symx_assert(hopper_size(c) == nr, "one card per line");
    for (i = 0; i < nr; i++) {
        memset(img, 0xee, sizeof img);
        int r = read_card(c, &img);
        symx_assert(r == 1, "every card can be read");
        symx_assert(hopper_size(c) == nr - 1 - i, "reading takes one card");
        for (j = 0; j < 80; j++) { symx_assert(R[i][j] == 0xffff || img[j] == R[i][j], "columns hold the punches of the line"); symx_assert(img[j] < 4096, "twelve rows"); }
        symx_observe(img[0]); symx_observe(img[1]); symx_observe(img[79]);
    }
    symx_assert(read_card(c, &img) == 0, "an empty hopper gives no card");
}
static void t_text(int pre, int n, int auto_) {
    uint8_t b[128]; int i;
    struct card_context *c = init_card_context();
    c->mode = auto_ ? MODE_AUTO : MODE_TEXT;
    memset(b, 'A', sizeof b);
    symx_make(b + pre, n, "text");
    for (i = 0; i < pre + n; i++) {
        if (i == 0 || b[i - 1] == '\n') symx_assume(b[i] != '~');
        if (pre) symx_assume(b[i] != '\r');
    }
    ref_text(b, pre + n);
    vfs_create("deck", b, pre + n, 200);
    symx_assert(read_deck(c, "deck") == 1, "deck is read");
    chk_deck(c, 80);
    symx_assert(vfs_open_count == 0, "file closed");
    symx_reach("text");
}
static void t_special(void) {
    uint8_t b[64]; int i, n = 0, k = symx_choice(4, "kind"), up = symx_choice(2, "upper");
    static const char *nm[4] = { "raw", "eor", "eof", "eoi" };
    struct card_context *c = init_card_context();
    c->mode = symx_choice(2, "auto") ? MODE_TEXT : MODE_AUTO;
    nr = 2; memset(R, 0, sizeof R);
    b[n++] = '~'; for (i = 0; i < 3; i++) b[n++] = nm[k][i] - (up ? 32 : 0);
    if (k == 0) {
        int d = symx_choice(3, "columns") + 1, j;
        for (i = 0; i < d; i++) for (j = 0; j < 4; j++) { uint8_t q = symx_u8("digit"); symx_assume(q >= '0' && q <= '7'); b[n++] = q; R[0][i] = (R[0][i] << 3) | (q - '0'); }
    } else R[0][0] = k == 1 ? 07 : k == 2 ? 015 : 017;
    if (symx_choice(2, "cr")) b[n++] = '\r';
    b[n++] = '\n';
    uint8_t q = symx_u8("next"); symx_assume(q > ' ' && q < 127 && q != '~');
    b[n++] = q; b[n++] = '\n';
    R[1][0] = A29[q];
    vfs_create("deck", b, n, 200);
    symx_assert(read_deck(c, "deck") == 1, "deck is read");
    chk_deck(c, 80);
    symx_reach("special");
}
static void t_round(int mode) {
    struct card_context *c = init_card_context(), *d = init_card_context();
    uint16_t img[2][80], o[80]; int i, k;
    /* columns that are symbolic: 0, 1, 40, 79 or any other four neighbours */
    int g = mode == MODE_BIN ? 0 : symx_choice(21, "columns"), pos[4] = { 0, 1, 40, 79 };
    if (g) for (i = 0; i < 4; i++) pos[i] = 4 * (g - 1) + i;
    c->mode = d->mode = mode;
    memset(img, 0, sizeof img);
    for (k = 0; k < 2; k++) {
        int n = k == 0 ? (mode == MODE_BIN ? 80 : mode == MODE_AUTO && g ? 1 : LMAX > 6 || mode == MODE_OCTAL ? 4 : 3) : 1;
        if (mode == MODE_AUTO && g && !k) { int t = symx_choice(4, "column"), u = pos[0]; pos[0] = pos[t]; pos[t] = u; }
        for (i = 0; i < n; i++) { uint16_t v = symx_u16("column"); symx_assume(v < 4096); int p = mode == MODE_BIN && !k ? i : pos[(i + k) % 4]; img[k][p] = v; }
        if (g > 1 && k == 0 && mode != MODE_EBCDIC) img[0][0] = symx_choice(2, "valid") ? 0x900 : 0xfff;
        if (mode == MODE_AUTO) symx_assume(img[k][0] != 0xF02);
        if (mode == MODE_EBCDIC) for (i = 0; i < 80; i++) if (img[k][i]) symx_assume(hol_to_ebcdic(img[k][i]) != 0x100);
        symx_assert(stack_card(c, &img[k]) == 0, "card stacked");
    }
    symx_assert(save_deck(c, "deck") == 0, "deck saved");
    close_deck(c);
    if (mode == MODE_BIN) symx_assert(vfs_find("deck")->size == 320, "binary card takes 160 bytes");
    if (mode == MODE_EBCDIC) symx_assert(vfs_find("deck")->size == 160, "EBCDIC card takes 80 bytes");
    if (mode == MODE_OCTAL) d->mode = MODE_TEXT;
    symx_assert(read_deck(d, "deck") == 1, "deck is read back");
    symx_assert(hopper_size(d) == 2, "as many cards as were saved");
    for (k = 0; k < 2; k++) {
        symx_assert(read_card(d, &o) == 1, "card read back");
        for (i = 0; i < 80; i++) symx_assert(o[i] == img[k][i], "card image survives save and read");
        symx_observe(o[0]); symx_observe(o[79]);
    }
    symx_assert(vfs_open_count == 0, "files closed");
    symx_reach("round");
}
/* binary / EBCDIC files of any length and content; text garbage after ~ */
static void t_robust(int mode) {
    struct card_context *c = init_card_context(); uint8_t b[340]; uint16_t o[80]; int i, n, w;
    c->mode = mode;
    memset(b, 0x40, sizeof b);
    if (mode == MODE_TEXT || mode == MODE_AUTO) { b[0] = '~'; n = 1 + LMAX; symx_make(b + 1, LMAX, "bytes"); }
    else { uint16_t z = symx_u16("length"); symx_assume(z <= 330 && z > 0); symx_concretize(&z, 2); n = z; symx_make(b, 2, "bytes"); symx_make(b + n - 1, 1, "bytes"); }
    vfs_create("deck", b, n, 400);
    symx_assert(read_deck(c, "deck") == 1, "deck is read");
    w = hopper_size(c);
    if (mode == MODE_BIN || mode == MODE_EBCDIC) symx_assert(w == (n + (mode == MODE_BIN ? 159 : 79)) / (mode == MODE_BIN ? 160 : 80), "number of cards follows from the file length");
    symx_assert(w >= 1 && w <= n, "number of cards is bounded by the file");
    for (i = 0; i < w; i++) { int j; symx_assert(read_card(c, &o) == 1, "card can be read"); for (j = 0; j < 80; j++) symx_assert(o[j] < 4096, "twelve rows"); symx_observe(o[0]); }
    symx_reach("robust");
}
/* hopper histories */
static void t_hopper(int big) {
    struct card_context *c = init_card_context(); uint16_t q[16], o[80], img[80]; int hd = 0, tl = 0, k, i, ops = (big ? 3 : 4) + (LMAX > 6), extra = 0;
    c->mode = MODE_TEXT;
    if (big) { extra = 998 + symx_choice(3, "blanks"); blank_deck(c, extra); symx_assert(hopper_size(c) == extra, "blank cards added"); for (i = 0; i < extra - 1; i++) { symx_assert(read_card(c, &o) == 1, "blank read"); } symx_assert(hopper_size(c) == 1, "one left"); q[tl++] = 0; }
    else for (k = symx_choice(5, "before"); k > 0; k--) { memset(img, 0, sizeof img); img[7] = symx_u16("tag"); symx_assume(img[7] < 4096); q[tl++] = img[7]; stack_card(c, &img); }
    for (k = 0; k < ops; k++) {
        int op = symx_choice(big ? 3 : 5, "op");
        if (op == 0) {
            memset(img, 0, sizeof img); img[7] = symx_u16("tag"); symx_assume(img[7] < 4096); q[tl++] = img[7];
            int h0 = hopper_size(c), s0 = stack_size(c);
            symx_assert(stack_card(c, &img) == 0, "card stacked");
            symx_assert(hopper_size(c) == h0 + 1 && stack_size(c) == s0 + 1, "stacking adds one card");
        } else if (op == 1) {
            memset(o, 0xee, sizeof o);
            int r = read_card(c, &o);
            symx_assert(r == (hd < tl), "a card comes exactly when the hopper is not empty");
            if (hd < tl) { for (i = 0; i < 80; i++) symx_assert(o[i] == (i == 7 ? q[hd] : 0), "cards come in the order they were added"); hd++; symx_observe(o[7]); }
        } else if (op == 2) {
            int n = symx_choice(3, "count"); blank_deck(c, n); while (n--) q[tl++] = 0;
            symx_assert(stack_size(c) == hopper_size(c), "read cards are dropped when cards are added");
        } else if (op == 3) { empty_cards(c); hd = tl = 0; symx_assert(stack_size(c) == 0, "emptied"); }
        else { uint8_t t = symx_u8("text"); symx_assume(t > ' ' && t < 127 && t != '~' && A29[t] != 0xffff);
            uint8_t b[12] = "       X\n"; b[7] = t; vfs_create("in", b, 9, 64); symx_assert(read_deck(c, "in") == 1, "deck appended"); q[tl++] = A29[t]; }
        symx_assert(hopper_size(c) == tl - hd, "hopper holds what was added and not read");
    }
    while (hd < tl) { symx_assert(read_card(c, &o) == 1, "drain"); symx_assert(o[7] == q[hd] && o[0] == 0, "cards come in the order they were added"); hd++; }
    symx_assert(read_card(c, &o) == 0, "hopper empty");
    symx_reach("hopper");
}
/* cards stacked while an output file is attached reach the file */
static void t_punch(void) {
    struct card_context *c = init_card_context(), *d = init_card_context(); uint16_t img[3][80], o[80]; int i, n = symx_choice(4, "before"), m = symx_choice(3, "after");
    c->mode = d->mode = MODE_BIN; memset(img, 0, sizeof img);
    symx_assume(n + m <= 3 && n + m > 0);
    for (i = 0; i < 3; i++) { img[i][3] = symx_u16("tag"); symx_assume(img[i][3] < 4096); }
    for (i = 0; i < n; i++) stack_card(c, &img[i]);
    symx_assert(save_deck(c, "out") == 0, "output file attached");
    for (; i < n + m; i++) stack_card(c, &img[i]);
    if (symx_choice(2, "empty")) { empty_cards(c); symx_assert(stack_size(c) == 0, "emptied"); }
    close_deck(c);
    symx_assert(vfs_find("out")->size == 160 * (n + m), "every stacked card is in the file once");
    symx_assert(read_deck(d, "out") == 1 && hopper_size(d) == n + m, "cards read back");
    for (i = 0; i < n + m; i++) { read_card(d, &o); symx_assert(o[3] == img[i][3] && o[0] == 0, "in the order they were stacked"); symx_observe(o[3]); }
    symx_reach("punch");
}
void harness(void) {
    init();
    if (symx_case >= 100) { symx_case -= 100; LMAX = 10; }
    switch (symx_case) {
    case 0: t_codes(); break;
    case 1: t_text(0, LMAX, 0); break;
    case 2: t_text(0, LMAX - 1, 1); break;
    case 3: t_text(77, LMAX + 1, 0); break;
    case 4: t_special(); break;
    case 10: t_round(MODE_AUTO); break;
    case 11: t_round(MODE_BIN); break;
    case 12: t_round(MODE_OCTAL); break;
    case 13: t_round(MODE_EBCDIC); break;
    case 20: t_robust(MODE_BIN); break;
    case 21: t_robust(MODE_EBCDIC); break;
    case 22: t_robust(MODE_TEXT); break;
    case 23: t_robust(MODE_AUTO); break;
    case 30: t_hopper(0); break;
    case 31: t_hopper(1); break;
    case 32: t_punch(); break;
    }
}
