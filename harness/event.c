/* Event scheduler: histories of add / cancel / advance, with callbacks that
   themselves add or cancel.  symx_case%10: 0 = plain histories, 1 = callbacks
   reschedule, 2 = callbacks cancel, 3 = large delays; symx_case/10: extra
   operations. */
#include "symx.h"
#include <stdlib.h>
#include "event.h"
int symx_case;
#define MAXE 12
struct ref { int used, dev, fn, due, fired, dead, act, atime, adev, afn; } E[MAXE];
static int ne, now, started;
static struct _device D[2];
static int slot[MAXE];
static int heap;
void *h_malloc(size_t n) { heap++; return malloc(n); }
void h_free(void *p) { if (p) heap--; free(p); }
static void cb(int fn, struct _device *dev, void *arg, int iarg);
static void cb0(struct _device *dev, void *arg, int iarg) { cb(0, dev, arg, iarg); }
static void cb1(struct _device *dev, void *arg, int iarg) { cb(1, dev, arg, iarg); }
static _callback FN[2] = { cb0, cb1 };
static void h_add(int dev, int fn, int t, int act, int atime, int adev, int afn) {
    int i = ne++;
    E[i].used = 1; E[i].dev = dev; E[i].fn = fn; E[i].due = now + t; E[i].act = act; E[i].atime = atime; E[i].adev = adev; E[i].afn = afn;
    int r = add_event(&D[dev], FN[fn], t, &slot[i], 100 + i);
    symx_assert(r == 0, "add accepted");
    if (t == 0) symx_assert(E[i].fired == 1, "zero delay runs at once");
    else symx_assert(E[i].fired == 0, "non-zero delay does not run at once");
}
static int pend(int i) { return E[i].used && !E[i].fired && !E[i].dead; }
static void h_cancel(int dev, int fn) {
    int i, k = -1, tie = 0;
    for (i = 0; i < ne; i++) if (pend(i) && E[i].dev == dev && E[i].fn == fn) {
        if (k < 0 || E[i].due < E[k].due) { k = i; tie = 0; }
        else if (E[i].due == E[k].due) tie = 1;
    }
    symx_assume(!tie);
    if (k >= 0) { E[k].dead = 1; symx_reach("cancelled"); }
    cancel_event(&D[dev], FN[fn]);
}
static void cb(int fn, struct _device *dev, void *arg, int iarg) {
    int i = iarg - 100;
    symx_assert(i >= 0 && i < ne, "argument delivered");
    if (i < 0 || i >= ne) symx_end();
    symx_assert(arg == &slot[i], "pointer argument delivered");
    symx_assert(dev == &D[E[i].dev] && fn == E[i].fn, "right device and callback");
    symx_assert(!E[i].dead, "cancelled event never fires");
    symx_assert(!E[i].fired, "fires at most once");
    symx_assert(E[i].due == now, "fires exactly when due");
    E[i].fired = 1;
    if (E[i].act == 1) { symx_reach("readd"); h_add(E[i].adev, E[i].afn, E[i].atime, 0, 0, 0, 0); }
    if (E[i].act == 2) { symx_reach("cb cancel"); h_cancel(E[i].adev, E[i].afn); }
}
static void tick(void) {
    int i, n = 0;
    now++;
    advance();
    for (i = 0; i < ne; i++) {
        if (E[i].used && !E[i].dead && E[i].due <= now) symx_assert(E[i].fired, "due event has fired");
        if (pend(i)) n++;
    }
    symx_observe(n);
    symx_assert(heap == n, "storage is held exactly for pending events");
}
void harness(void) {
    int i, k, xc = symx_case / 10, adds = 0, ops;
    symx_case %= 10;
    ops = (symx_case == 0 ? 5 : symx_case == 3 ? 3 : 4) + xc;
    int maxt = symx_case == 0 ? 3 : symx_case == 3 ? 0x3fffffff : 2;
    init_event();
    for (k = 0; k < ops; k++) {
        int op = k ? symx_choice(3, "op") : 0;
        if (op == 0) {
            int act = 0, at = 0, ad = 0, af = 0;
            symx_assume(adds < (symx_case == 1 ? 2 : 3) + xc); adds++;
            int key = adds == 1 ? 0 : symx_choice(symx_case == 0 ? 3 : 2, "key"), dev = key & 1, fn = key >> 1;
            uint32_t t = symx_u32("delay"); symx_assume(t <= maxt);
            if (symx_case == 1) { act = symx_choice(2, "act"); if (act) { at = symx_u8("adelay"); symx_assume(at <= 2); ad = symx_choice(2, "adev"); af = 0; } }
            if (symx_case == 2) { act = symx_choice(2, "act") * 2; if (act) { ad = symx_choice(2, "adev"); af = 0; } }
            h_add(dev, fn, t, act, at, ad, af);
        } else if (op == 1) {
            int key = symx_choice(symx_case == 0 ? 3 : 2, "key"), dev = key & 1, fn = key >> 1;
            h_cancel(dev, fn);
        } else tick();
    }
    for (i = 0; i < 4; i++) tick();
    for (i = 0; i < ne; i++) if (symx_case != 3) symx_assert(!pend(i), "nothing left pending");
    if (symx_case != 3) symx_assert(heap == 0, "no storage left");
    /* the queue is usable again afterwards */
    h_add(0, 0, 1, 0, 0, 0, 0); tick(); symx_assert(E[ne - 1].fired, "queue usable afterwards");
    symx_reach("end");
}
int log_level, log_enable;
