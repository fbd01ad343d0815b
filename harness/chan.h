/* A test channel on the standard I/O interface. The including file defines
   TICK() (one unit of time passes) and sets dev. cm_mpx selects a multiplexor
   channel, which lets the device disconnect, or a selector channel. */
static uint8_t mem[2048];
static struct _device *dev;
static int cm_mpx, cm_stack;      /* cm_stack: status presented later is stacked so many times first */
static int cm_bad = -1;           /* the bus-out transfer (0 command, 1.. data) sent with bad parity */
static long budget;
static int cm_split;              /* run() returns 0x400 after the initial status; run(RESUME) goes on */
static struct { int caw, cmd, addr, flags, cnt, wr, sup, unit; } S;
#define RESUME 0xff
static struct { int ccw, cnt, len, sent; } R;
static uint16_t tags_in, bus_in = 0x100;
static uint16_t par(uint16_t v) { return v | odd_parity[v & 0xff]; }
static void bus(uint16_t tags, uint16_t out) {
    symx_assert(--budget > 0, "a channel program ends");
    if (budget <= 0) symx_end();
    tags_in = (tags_in & IN_TAGS) | tags;
    dev->bus_func(dev, &tags_in, out, &bus_in);
    TICK();
}
#define GW(a) (((uint32_t)mem[a] << 24) | (mem[(a) + 1] << 16) | (mem[(a) + 2] << 8) | mem[(a) + 3])
/* answer a request: the device puts up its address, the channel says proceed */
static uint16_t poll(uint16_t tags, int unit) {
    tags |= CHAN_SEL_OUT | CHAN_HLD_OUT;
    while ((tags_in & (CHAN_ADR_IN | CHAN_OPR_IN)) != (CHAN_ADR_IN | CHAN_OPR_IN)) bus(tags, 0x100);
    symx_assert(bus_in == par(unit), "the device asks for service with its own address");
    tags |= CHAN_CMD_OUT;
    while (tags_in & CHAN_ADR_IN) bus(tags, 0x100);
    if (cm_mpx) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);
    return tags & ~CHAN_CMD_OUT;
}
/* One channel program. Returns the final status (0x100 not operational, 0x200 busy). */
static uint16_t run(uint8_t unit, int caw) {
    uint16_t tags, out, st; int cmd, addr, flags, cnt, wr, i, first, chend, q;
    int sup = 0;
    budget = 400000;
    if (unit == RESUME) { unit = S.unit; caw = S.caw; addr = S.addr; flags = S.flags; cnt = S.cnt; wr = S.wr; chend = 0; out = 0x100; tags = CHAN_OPR_OUT; goto data; }
next:
    for (;;) { cmd = mem[caw]; addr = GW(caw) & 0xffffff; flags = mem[caw + 4]; cnt = (mem[caw + 6] << 8) | mem[caw + 7]; caw += 8; if (cmd == 8) caw = addr; else break; }
    R.ccw = caw; R.cnt = cnt; R.len = 0; R.sent = 0; wr = cmd & 1; chend = 0; out = 0x100;
    tags = CHAN_OPR_OUT | sup;
    for (i = 0; i < 10; i++) bus(tags, out);
    out = par(unit); tags |= CHAN_ADR_OUT; bus(tags, out);
    tags |= CHAN_SEL_OUT | CHAN_HLD_OUT;
    for (q = 0;; q++) {
        bus(tags, out);
        if (tags_in & CHAN_SEL_IN) return 0x100;
        if ((tags_in & CHAN_SEL_OUT) && !(tags_in & (CHAN_OPR_IN | CHAN_STA_IN)) && q > 20) return 0x100;
        if ((tags_in & (CHAN_OPR_IN | CHAN_STA_IN)) == CHAN_STA_IN) {   /* busy */
            st = 0x200 | (bus_in & 0xff); tags = CHAN_OPR_OUT;
            while (tags_in & (CHAN_OPR_IN | CHAN_STA_IN)) bus(tags, out);
            return st;
        }
        if (tags_in & CHAN_OPR_IN) tags &= ~CHAN_ADR_OUT;
        if ((tags_in & (CHAN_ADR_IN | CHAN_OPR_IN)) == (CHAN_ADR_IN | CHAN_OPR_IN)) break;
    }
    symx_assert(bus_in == par(unit), "the addressed unit answers");
    tags &= ~CHAN_SUP_OUT;
    out = par(cmd) ^ (cm_bad == 0 ? 0x100 : 0);
    do { if (tags_in & CHAN_ADR_IN) tags |= CHAN_CMD_OUT; else tags &= ~CHAN_CMD_OUT; bus(tags, out); } while (!(tags_in & CHAN_STA_IN));
    tags &= ~CHAN_CMD_OUT;
    if (cm_mpx) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);
    for (first = 1;; first = 0) {
        if (!first) {       /* data until status */
data:
            first = 0;
            for (;;) {
                bus(tags, out);
                if (!(tags_in & CHAN_OPR_IN)) {
                    symx_assert(cm_mpx, "the device stays connected to a selector channel");
                    tags = CHAN_OPR_OUT;
                    if (tags_in & CHAN_REQ_IN) tags = poll(tags, unit);
                    continue;
                }
                if (tags_in & CHAN_STA_IN) break;
                if (!(tags_in & CHAN_SRV_IN)) continue;
                if (cnt == 0) { tags |= CHAN_CMD_OUT; R.len = !(flags & 0x20); }
                else {
                    tags |= CHAN_SRV_OUT; cnt--;
                    if (wr) { out = par(mem[addr++]) ^ (++R.sent == cm_bad ? 0x100 : 0); } else { symx_assert(bus_in == par(bus_in & 0xff), "data arrive with good parity"); if (!(flags & 0x10)) mem[addr] = bus_in; addr++; }
                }
                while (tags_in & CHAN_SRV_IN) bus(tags, out);
                tags &= ~(CHAN_SRV_OUT | CHAN_CMD_OUT);
            }
        }
        st = bus_in & 0xff;
        symx_concretize(&st, 2);
        symx_assert(bus_in == par(st), "status arrives with good parity");
        tags |= CHAN_SRV_OUT; if (!first && (flags & 0x40)) tags |= CHAN_SUP_OUT;
        while (tags_in & CHAN_STA_IN) bus(tags, out);
        tags &= ~CHAN_SRV_OUT;
        R.cnt = cnt;
        if (cm_split && first && !st) {
            tags = CHAN_OPR_OUT; for (i = 0; i < 20; i++) bus(tags, out);
            S.unit = unit; S.caw = caw; S.addr = addr; S.flags = flags; S.cnt = cnt; S.wr = wr;
            return 0x400;
        }
        if (cnt && !chend && !first && !(flags & 0x20)) R.len = 1;
        if ((st & 0xb3) || (R.len && (st & SNS_CHNEND))) break;
        if (st & SNS_DEVEND) {
            if (!(flags & 0x40)) break;
            sup = tags & CHAN_SUP_OUT; tags = CHAN_OPR_OUT | sup;
            while (tags_in & (CHAN_OPR_IN | CHAN_STA_IN)) bus(tags, out);
            if (st & SNS_SMS) caw += 8;
            goto next;
        }
        if (st & SNS_CHNEND) { chend = 1; if (!(flags & 0x40)) break; }
    }
    tags = CHAN_OPR_OUT;
    while (tags_in & (CHAN_OPR_IN | CHAN_STA_IN | CHAN_SRV_IN)) bus(tags, out);
    return st;
}
/* accept status presented later (device end); the unit address in the high byte */
static uint16_t wait_dev(int unit) {
    uint16_t tags = CHAN_OPR_OUT, out = 0x100, st, st2; int k;
    budget = 400000;
    while (!(tags_in & CHAN_REQ_IN)) bus(tags, out);
    tags = poll(tags, unit);
    while (!(tags_in & CHAN_STA_IN)) bus(tags, out);
    st = bus_in & 0xff;
    symx_concretize(&st, 2);
    symx_assert(bus_in == par(st), "status arrives with good parity");
    if (cm_stack > 0) {
        cm_stack--;
        tags |= CHAN_CMD_OUT;
        while (tags_in & (CHAN_STA_IN | CHAN_OPR_IN)) bus(tags, out);
        for (k = 0; k < 5; k++) bus(CHAN_OPR_OUT | CHAN_SUP_OUT, out);
        symx_assert(!(tags_in & CHAN_REQ_IN), "stacked status is not offered while the channel suppresses it");
        st2 = wait_dev(unit);
        symx_assert(st2 == st, "stacked status comes again unchanged");
        return st2;
    }
    tags |= CHAN_SRV_OUT;
    while (tags_in & CHAN_STA_IN) bus(tags, out);
    tags = CHAN_OPR_OUT;
    while (tags_in & (CHAN_OPR_IN | CHAN_STA_IN | CHAN_SRV_IN)) bus(tags, out);
    return st;
}
static void ccw(int at, int cmd, int addr, int flags, int cnt) { uint8_t *p = mem + at; p[0] = cmd; p[1] = 0; p[2] = addr >> 8; p[3] = addr; p[4] = flags; p[5] = 0; p[6] = cnt >> 8; p[7] = cnt; }
#define CC 0x40
#define SLI 0x20
