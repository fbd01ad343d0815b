/* Configuration lines.  symx_case: 0 generated name/address parts, 1 generated
   options, 2 word and string limits, 3 a file of several lines, 4 loglevel
   lists, 5 get_integer / get_index; 10+ arbitrary bytes after a fixed start. */
#include "symx.h"
#include "vfs.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "device.h"
#include "conf.h"
#include "logger.h"
int symx_case;
uint64_t step_count;
extern int log_level;
static struct rec { int who, model, dash, slash, addr, flags, nopt; struct { char opt[24]; char str[1100]; int flags; } o[4]; int more; } R[4];
static int nr, limit = 64, loops;
static int grab(int who, struct _option *opt) {
    static struct _option o;
    struct rec *r = &R[nr < 4 ? nr : 3]; int k = 0;
    nr++;
    r->who = who; r->model = opt->model; r->dash = opt->dash_num; r->slash = opt->slash_num; r->addr = opt->addr; r->flags = opt->flags;
    memset(&o, 0x55, sizeof(o));
    while (get_option(&o)) {
        symx_assert(++loops <= limit, "every option read makes progress");
        if (loops > limit) symx_end();
        symx_assert(memchr(o.opt, 0, sizeof(o.opt)) != NULL && memchr(o.string, 0, sizeof(o.string)) != NULL, "words are terminated strings");
        if (k < 4) { strncpy(r->o[k].opt, o.opt, 23); strncpy(r->o[k].str, o.string, 1099); r->o[k].flags = o.flags; }
        k++;
    }
    r->nopt = k;
    return 1;
}
int model2030_create(struct _option *opt) { return grab(1, opt); }
int model2415_create(struct _option *opt) { return grab(2, opt); }
int model1443_create(struct _option *opt) { return grab(3, opt); }
DEV_LIST_STRUCT(2030, CPU_TYPE, CHAR_OPT|NUM_MOD);
DEV_LIST_STRUCT(2415, CTRL_TYPE, CHAR_OPT|NUM_MOD);
DEV_LIST_STRUCT(1443, DEV_TYPE, 0);
static char L[1400]; static int n;
static void put(int c) { L[n++] = c; }
static void puts_(const char *s) { while (*s) put(*s++); }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static void blanks(int min) { int k = min + symx_choice(2, "blanks"); while (k-- > 0) put(symx_case & 1 && !k ? '\t' : ' '); }
static int sym(const char *name, int kind) {   /* 0 digit, 1 hex, 2 letter, 3 alnum, 4 value char, 5 quoted char */
    int c = symx_u8(name);
    switch (kind) {
    case 0: symx_assume(c >= '0' && c <= '9'); break;
    case 1: symx_assume((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')); break;
    case 2: symx_assume((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')); break;
    case 3: symx_assume((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')); break;
    case 4: symx_assume(c > ' ' && c < 0x7f && c != ',' && c != '"' && c != '#'); break;
    case 5: symx_assume(c >= ' ' && c < 0x7f); break;
    }
    return c;
}
static char *finish(int nl) { char *s; put(0); n--; if (nl) { put('\n'); put(0); n--; } s = malloc(n + 1); memcpy(s, L, n + 1); return s; }
static void tailing(void) { switch (symx_choice(3, "tail")) { case 1: put(' '); break; case 2: put(' '); put('#'); put(symx_u8("comment")); if (!L[n - 1]) n--; else puts_("x=1"); break; } }
static int hexv(int c) { return c <= '9' ? c - '0' : up(c) - 'A' + 10; }
static void names(void) {
    int who = symx_choice(4, "who"), model = 0, dash = 0, slash = 0, addr = 0, k, fl = 0, m; char *s; struct rec *r = R; int noaddr = 0;
    static const char *const N[4] = { "2030", "2415", "1443", "7777" };
    if (symx_choice(2, "lead")) put(' ');
    puts_(N[who]);
    if (symx_choice(2, "letter")) { model = sym("model", 2); put(model); model = up(model); }
    m = symx_choice(5, "dashslash");
    if (m == 1 || m == 3) { int d = sym("dash", 0); fl |= 1; dash = d - '0'; put('-'); put(d); if (symx_choice(2, "two")) { d = sym("dash", 0); dash = dash * 10 + d - '0'; put(d); } }
    if (m >= 2) { int d = sym("slash", 0); fl |= 2; slash = d - '0'; put('/'); put(d); }
    if (m == 4) { int d = sym("dash", 0); fl |= 1; dash = d - '0'; put('-'); put(d); }
    if (who != 0) {
        noaddr = symx_choice(5, "addrdigits") ;
        if (noaddr) blanks(1);
        for (k = 0; k < noaddr; k++) { int c = sym("addr", 1); addr = addr * 16 + hexv(c); put(c); }
        noaddr = !noaddr;
    }
    tailing();
    s = finish(symx_choice(2, "newline"));
    k = load_line(s);
    if (who == 3) { symx_assert(nr == 0, "unknown device creates nothing"); symx_reach("unknown"); return; }
    if (noaddr) { symx_assert(k == 0 && nr == 0, "missing address refused"); symx_reach("no address"); return; }
    symx_assert(k == 1 && nr == 1, "device created once");
    symx_assert(r->who == who + 1, "right device type");
    symx_assert(r->model == model, "model letter");
    symx_assert(r->dash == dash && r->slash == slash && r->flags == fl, "submodel and channel numbers");
    if (who) symx_assert(r->addr == (addr & 0xffff), "device address");
    symx_assert(r->nopt == 0, "no options");
    symx_reach("names");
}
static void options(void) {
    int deep = symx_case != 1, no = deep ? 1 : 2, k, i, l; char *s; struct { int nl, hasv, vl, q; char nm[4], v[8]; } O[2];
    puts_(deep && symx_choice(2, "who") ? "2415-6 0c0" : "2030F/1");
    for (k = 0; k < no; k++) {
        switch (k == 0 ? 0 : symx_choice(4, "sep")) { case 0: if (deep) blanks(1); else put(' '); break; case 1: put(','); break; case 2: put(','); put(' '); break; case 3: put(' '); put(','); put('\t'); break; }
        O[k].nl = deep ? 1 + symx_choice(2, "namelen") : 1;
        for (i = 0; i < O[k].nl; i++) { int c = sym("name", 3); put(c); O[k].nm[i] = up(c); }
        O[k].hasv = symx_choice(3, "value");
        O[k].vl = 0; O[k].q = 0;
        if (O[k].hasv) {
            put('=');
            l = deep ? 1 + symx_choice(3, "vallen") : 1;
            if (O[k].hasv == 2) { put('"'); if (deep && symx_choice(2, "emptyq")) l = 0; }
            for (i = 0; i < l; i++) {
                int c = sym("val", O[k].hasv == 2 ? 5 : 4);
                put(c); if (O[k].hasv == 2) { if (c == '"') put('"'); O[k].v[O[k].vl++] = c; } else O[k].v[O[k].vl++] = up(c);
            }
            if (O[k].hasv == 2) put('"');
        }
    }
    if (deep) tailing(); else if (symx_choice(2, "tail")) puts_(" # z=1");
    s = finish(deep ? symx_choice(2, "newline") : 1);
    symx_assert(load_line(s) == 1 && nr == 1, "device created once");
    symx_assert(R[0].nopt == no, "number of options");
    for (k = 0; k < no; k++) {
        symx_assert((int)strlen(R[0].o[k].opt) == O[k].nl && !memcmp(R[0].o[k].opt, O[k].nm, O[k].nl), "option name, in upper case");
        symx_assert(R[0].o[k].flags == !!O[k].hasv, "option has a value exactly if one was given");
        symx_assert((int)strlen(R[0].o[k].str) == O[k].vl && !memcmp(R[0].o[k].str, O[k].v, O[k].vl), "option value");
    }
    symx_reach("options");
}
static void limits(void) {
    int what = symx_choice(7, "what"), l = (what < 4 ? 16 : 1018) + symx_choice(8, "len"), k; char *s;
    if (what == 0) { for (k = 0; k < l; k++) put('7'); }
    else if (what == 1) { puts_("2415-"); for (k = 0; k < l; k++) put('0'); puts_(" 0c0"); }
    else if (what == 2) { puts_("2415 "); for (k = 0; k < l; k++) put('0'); }
    else { puts_("2415 0c0 "); if (what > 3) puts_(what == 4 ? "a=" : "a=\""); for (k = 0; k < l; k++) { int q = what == 6 && k % 128 == 5; put(q ? '"' : 'b'); if (q) put('"'); } if (what >= 5 && symx_choice(2, "close")) put('"'); }
    s = finish(symx_choice(2, "newline"));
    load_line(s);
    if (what == 3 && l < 20) symx_assert(nr == 1 && R[0].nopt == 1 && (int)strlen(R[0].o[0].opt) == l, "long option name kept");
    if (what > 3 && l < 1023) symx_assert(nr == 1 && R[0].nopt == 1 && (int)strlen(R[0].o[0].str) >= l, "long value kept");
    symx_reach("limits");
}
static void file(void) {
    int k, l, m[3], a[3], who[3]; static char f[200]; int fn = 0, cnt = 2 + symx_choice(2, "lines"), made = 0, fail = 0;
    for (k = 0; k < cnt; k++) {
        n = 0; who[k] = symx_choice(4, "who"); m[k] = a[k] = 0;
        if (who[k] == 3) { puts_(symx_choice(2, "c") ? "# 2415 0c0" : "   "); }
        else {
            puts_(who[k] == 0 ? "2030" : who[k] == 1 ? "2415" : "1443");
            if (symx_choice(2, "letter")) { m[k] = sym("model", 2); put(m[k]); m[k] = up(m[k]); }
            if (who[k]) { int c = sym("addr", 1); put(' '); put('0'); put(c); a[k] = hexv(c); }
            if (symx_choice(2, "opt")) { put(' '); put(sym("o", 3)); }
        }
        put('\n');
        for (l = 0; l < n; l++) f[fn++] = L[l];
    }
    vfs_create("cfg", f, fn, 256);
    symx_assert(load_config("none") == 0, "missing file refused");
    symx_assert(load_config("cfg") == 1, "file accepted");
    for (k = 0; k < cnt; k++) if (who[k] != 3) {
        struct rec *r = &R[made++];
        symx_assert(made <= nr, "every device line creates a device");
        symx_assert(r->who == who[k] + 1 && r->model == m[k] && r->dash == 0 && r->slash == 0, "device of this line only");
        if (who[k]) symx_assert(r->addr == a[k], "address of this line");
    }
    symx_assert(made == nr && vfs_open_count == 0, "nothing else created, file closed");
    symx_reach("file");
}
static void loglevel(void) {
    static const struct { const char *n; int m; } T[] = { {"info", LOG_INFO}, {"warn", LOG_WARN}, {"error", LOG_ERROR}, {"trace", LOG_TRACE}, {"itrace", LOG_ITRACE}, {"micro", LOG_MICRO}, {"reg", LOG_REG}, {"mem", LOG_MEM}, {"mpxchn", LOG_MPXCHN}, {"selchn", LOG_SELCHN}, {"device", LOG_DEVICE}, {"console", LOG_CONSOLE}, {"tape", LOG_TAPE}, {"disk", LOG_DISK}, {"card", LOG_CARD}, {"dmicro", LOG_DMICRO}, {"dreg", LOG_DREG}, {"event", LOG_EVENT}, {"freg", LOG_FREG} };
    int k, cnt = symx_choice(3, "count"), want = 0, bad = 0, r, old = symx_u8("old"); 
    log_level = old;
    puts_("loglevel");
    for (k = 0; k < cnt; k++) {
        int i = symx_choice(20, "level"); const char *p;
        put(' '); if (k && symx_case == 4) { n--; puts_(symx_choice(2, "sep") ? ", " : " "); }
        if (i == 19) { puts_("other"); bad = 1; } else { want |= T[i].m; for (p = T[i].n; *p; p++) put(k ? up(*p) : *p); }
    }
    r = load_line(finish(1));
    symx_assert(log_level == (old | want), "exactly the named log levels are added");
    symx_assert(r == !bad, "unknown log level refused");
    symx_reach("loglevel");
}
static char *list[] = { "SIMH", "E11", "P7B", NULL };
static void values(void) {
    static struct _option o; int v = 77, k, l = symx_choice(7, "len"), r, want = 0, dig = 1;
    memset(&o, 0, sizeof(o)); strcpy(o.opt, "X");
    symx_make(o.string, l, "text");
    for (k = 0; k < l; k++) symx_assume(o.string[k] != 0);
    r = get_integer(&o, &v);
    for (k = 0; k < l; k++) { if (o.string[k] < '0' || o.string[k] > '9') dig = 0; else want = want * 10 + o.string[k] - '0'; }
    symx_assert(r == (dig && l > 0), "number accepted exactly if all digits");
    if (r) symx_assert(v == want, "number value");
    k = get_index(&o, list);
    want = !strcmp(o.string, "SIMH") ? 0 : !strcmp(o.string, "E11") ? 1 : !strcmp(o.string, "P7B") ? 2 : -1;
    if (l) symx_assert(k == want, "index of the named choice");
    symx_reach("values");
}
static void robust(void) {
    static const char *const S[] = { "", "2415 0c0 ", "2415 0c0 a=\"", "2030F/1", "loglevel ", "2415-6 ", "2030 x=" };
    int w = symx_case % 10, l = symx_case / 10, k; char *s;
    puts_(S[w]);
    for (k = 0; k < l; k++) { int c = symx_u8("c"); symx_assume(c != 0); put(c); }
    s = finish(0);
    limit = n + 4;
    load_line(s);
    symx_assert(nr <= 1, "one line creates at most one device");
    free(s);
    symx_reach("robust");
}
void harness(void) {
    switch (symx_case) { case 0: names(); return; case 1: case 6: options(); return; case 2: limits(); return; case 3: file(); return; case 4: loglevel(); return; case 5: values(); return; }
    robust();
}
