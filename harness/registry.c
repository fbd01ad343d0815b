/* Device registry: add_chan, find_chan, del_chan, add_disk, del_disk,
   step_disk, system_init and system_shutdown of device.c against a plain list. */
#include <stdint.h>
#include <stdlib.h>
#include "device.h"
#include "symx.h"
int symx_case;
#define ND 3
static struct _device dv[ND]; static int inits[ND], closes[ND], on[ND], seq[ND], nseq, order[ND], norder;
static uint16_t ad[ND];
static int drv[ND], steps[ND], stepped;
static void xinit(struct _device *d, void *r) { int i = d - dv; symx_assert(i >= 0 && i < ND && r == (void *)drv, "initialisation arguments"); inits[i]++; if (norder < ND) order[norder++] = i; }
static void xclose(struct _device *d) { int i = d - dv; symx_assert(i >= 0 && i < ND, "close argument"); closes[i]++; }
static void xstep(void *p) { int i = (int *)p - drv; symx_assert(i >= 0 && i < ND, "argument of the disk step"); steps[i]++; stepped++; }
static void check(int nchk, uint32_t c0) {
    int i, j, k; uint16_t a, m; struct _device *f, *w = 0;
    for (i = 0; i < ND; i++) inits[i] = closes[i] = 0;
    norder = 0;
    system_init(drv); system_shutdown();
    for (i = 0; i < ND; i++) symx_assert(inits[i] == on[i] && closes[i] == on[i], "every attached device is initialised and closed once, no other");
    for (k = 0; k < nchk; k++) {
        a = (((c0 + symx_choice(3, "chan")) & 7) << 8) | symx_u8("addr"); m = symx_u8("mask");
        f = find_chan(a, m); w = 0;
        for (j = 0; j < ND; j++) {      /* the earliest added one that matches */
            int best = 0;
            for (i = 0; i < ND; i++) if (on[i] && (ad[i] >> 8) == (a >> 8) && ((ad[i] ^ a) & m) == 0 && (!w || seq[i] < seq[w - dv])) w = &dv[i];
        }
        symx_assert(f == w, "device found by address and mask");
        symx_reach(f ? "found" : "absent");
    }
}
void harness(void) {
    int n = symx_case >= 10 ? 6 : 5, i, k, x, cnt[ND], had = 0;
    for (i = 0; i < ND; i++) { dv[i].init_device = i == 2 ? 0 : xinit; dv[i].close_device = xclose; on[i] = cnt[i] = 0; }
    dv[2].init_device = xinit;
    if (symx_case % 10 == 0) {           /* channels */
        uint32_t c0 = symx_choice(8, "chan");
        for (k = 0; k < n; k++) {
            i = symx_choice(ND, "device");
            if (!on[i]) {
                uint16_t ch = symx_choice(2, "chan") ? c0 : (c0 + 1) & 7;
                ad[i] = (ch << 8) | symx_u8("addr");
                dv[i].next = &dv[i];
                add_chan(&dv[i], ad[i]); on[i] = 1; seq[i] = nseq++;
            } else { del_chan(&dv[i], ad[i]); on[i] = 0; had = 1; }
            for (x = 0; x < ND; x++) if (on[x]) symx_assert(dv[x].addr == ad[x], "device address");
        }
        check(1, c0);
        /* removing a device that is not attached changes nothing */
        for (i = 0; i < ND; i++) if (!on[i]) del_chan(&dv[i], c0 << 8);
        check(0, c0);
        symx_reach(had ? "removed" : "only added");
    } else {                             /* disks */
        uint64_t base = symx_live_heap();
        for (k = 0; k < n; k++) {
            i = symx_choice(ND, "drive");
            if (!on[i]) { add_disk(xstep, &drv[i]); on[i] = 1; } else { del_disk(&drv[i]); on[i] = 0; had = 1; }
            if (symx_choice(2, "step")) { step_disk(); for (x = 0; x < ND; x++) cnt[x] += on[x]; }
            for (x = 0; x < ND; x++) symx_assert(steps[x] == cnt[x], "every registered drive is stepped once per cycle, no other");
        }
        for (i = 0; i < ND; i++) if (!on[i]) del_disk(&drv[i]);
        step_disk();
        for (x = 0; x < ND; x++) symx_assert(steps[x] == cnt[x] + on[x], "every registered drive is stepped once per cycle, no other");
        for (i = 0; i < ND; i++) if (on[i]) del_disk(&drv[i]);
        step_disk(); symx_assert(stepped == cnt[0] + cnt[1] + cnt[2] + on[0] + on[1] + on[2], "no drive left");
        symx_assert(symx_live_heap() == base, "no list element left allocated");
        symx_reach("disks");
    }
    symx_observe(stepped);
}
