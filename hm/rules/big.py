"""C14 C17 C25: large blocks - guards, pages, quarantine, resizing."""
from .. import term as tm, flow, heap as hp, small as sm, large as lg, walk
from ..ctx import ToolError, calls

PAGE = 4096


def up(n):
    return (n + PAGE - 1) // PAGE * PAGE


def where(o, e=None):
    return e.ins if e is not None else (o.p.endins if o.p is not None else None)


def fresh(cx, frac=0, total=64):
    h = hp.Heap(cx, total)
    h.pages = walk.Space()
    h.frac = frac
    return h


def user(h):
    """page mappings that belong to large blocks (not the tables)"""
    return [(a, b, p) for a, b, p in h.pages.r if not (hp.TA <= a < hp.TA + (1 << 33) or hp.TB <= a < hp.TB + (1 << 33) or 0x5000000000 <= a < 0x6000000000)]


def mapped(h):
    return [(a, b, p) for a, b, p in user(h) if p is not None]


def merged(rs):
    out = []
    for a, b, p in sorted(rs):
        if out and out[-1][1] == a and out[-1][2] == p:
            out[-1] = (out[-1][0], b, p)
        else:
            out.append((a, b, p))
    return out


def hexes(rs):
    return ["%#x-%#x:%s" % x for x in rs][:6]


def entry(h, p):
    t = [x for x in h.table() or [] if x[0] == p]
    return t[0] if len(t) == 1 else None


def fenced(p, s, g, prot=3):
    return [(p - g, p, 0), (p, p + up(s), prot), (p + up(s), p + up(s) + g, 0)]


def sizes_for(cx):
    top = sm.table(cx, "size_classes")[-1]
    out = [top + 1, top + PAGE, top + PAGE + 1, top * 2, top * 2 + 1, top * 3, top * 4 - 5, 1 << 20, (1 << 20) + 1, (1 << 21) - 7, 5 << 20, (1 << 25) - 1,
           1 << 25, (1 << 25) + 1, 1 << 30, (1 << 32) + 5, 3 << 40]
    if cx.tier == "thorough":
        out += [top + k * 12345 for k in range(1, 60)]
    return out


# -- C17 -----------------------------------------------------------------------------------------------------
def c17(cx):
    RB, RG, RS, RM, RF = ("a new large block is exactly usable pages between two guards", "guards are random and recorded",
                          "shrinking keeps guards on both sides", "the allocator's own state is fenced", "releasing covers block and both guards")
    o = hp.Ops(cx)
    made = 0
    grow = {}
    for al in (None, 1 << 13, 1 << 16, 1 << 21, 1 << 34):
        for n in sizes_for(cx) if al in (None, 1 << 21) else sizes_for(cx)[::4] + [1, PAGE, PAGE + 1]:
            for frac in (0, 1):
                for m in (0x7a0000003000, 0x7a0000000000) if al else (0x7a0000003000,):
                    h = fresh(cx, frac)
                    for y in o.insert(h, m, n, al or False):
                        if y.end != "ret":
                            continue
                        t = y.st.table()
                        if not t:
                            continue
                        made += 1
                        p, s, g = t[0]
                        cx.obl(RB)
                        what = "a block of %d bytes%s" % (n, ", aligned to %d" % al if al else "")
                        if None in (p, s, g) or s < n:
                            cx.fail(RB, where(y), "%s is recorded as %s" % (what, t[0]), y.p)
                            continue
                        if not al and y.ret != p:
                            cx.fail(RB, where(y), "%s is recorded at another address than returned" % what, y.p)
                        cx.obl(RG)
                        if g < PAGE or g % PAGE:
                            cx.fail(RG, where(y), "%s has guards of %d bytes" % (what, g), y.p)
                        grow.setdefault((al, n), set()).add(g)
                        if merged(mapped(y.st)) != merged(fenced(p, s, g)):
                            cx.fail(RB, where(y), "%s (guards of %d): pages are %s, expected %s" %
                                    (what, g, hexes(merged(mapped(y.st))), hexes(fenced(p, s, g))), y.p)
    if not made:
        raise ToolError("no large block could be made")
    for (al, n), gs in grow.items():
        cx.obl(RG)
        if n >= 1 << 20 and len(gs) < 2:
            cx.fail(RG, "h_malloc.c: guard size", "a block of %d bytes always has guards of %s" % (n, sorted(gs)))
    # shrinking and freeing
    for n0 in (3 << 20, 40 << 20):
        for frac in (0, 1):
            h = fresh(cx, frac)
            y = [x for x in o.insert(h, 0x7a0000003000, n0) if x.end == "ret" and x.ret]
            if len(y) != 1:
                continue
            h, p = y[0].st, y[0].ret
            e0 = entry(h, p)
            if not e0:
                continue
            g = e0[2]
            for n in [x for x in sizes_for(cx) if x < n0]:
                for z in o.realloc(h, p, n):
                    if z.end != "ret" or z.ret != p:
                        continue
                    e1 = entry(z.st, p)
                    if e1 == e0:
                        continue
                    cx.obl(RS)
                    if not e1 or e1[1] < n or e1[2] != g:
                        cx.fail(RS, where(z), "shrinking %d to %d bytes records %s" % (n0, n, e1), z.p)
                        continue
                    got = merged(x for x in mapped(z.st) if x[0] < p + up(e1[1]) + g)
                    want = fenced(p, e1[1], g)
                    tail = [x for x in mapped(z.st) if x[2] not in (0, None) and x[0] >= p + up(e1[1])]
                    cov = walk.Space()
                    cov.r = list(z.st.pages.r)
                    if cov.prots(p - g, p) != {0} or cov.prots(p, p + up(e1[1])) != {3} or cov.prots(p + up(e1[1]), p + up(e1[1]) + g) != {0} or tail:
                        cx.fail(RS, where(z), "shrinking %d to %d bytes leaves pages %s, expected %s" % (n0, n, hexes(got), hexes(want)), z.p)
            # release without quarantine: everything goes
            s = h.copy()
            for z in o.free(s, p):
                if z.end != "ret":
                    continue
                held = quarantined(z.st)
                cx.obl(RF)
                left = mapped(z.st)
                rng = (p - g, p + up(e0[1]) + g)
                if held:
                    if held != [(rng[0], rng[1] - rng[0])]:
                        cx.fail(RF, where(z), "a freed block of %d bytes is held as %s, it spans %s" % (n0, held, (rng[0], rng[1] - rng[0])), z.p)
                elif left:
                    cx.fail(RF, where(z), "a freed block of %d bytes leaves %s mapped" % (n0, hexes(merged(left))), z.p)
    for x, st in initial(cx):
        n = 0
        for a, ln in st.areas:
            rs = [r for r in st.pages.r if r[0] < a + up(ln) and r[1] > a]
            acc = [r for r in rs if r[2] not in (0, None)]
            if not acc:
                continue
            n += 1
            cx.obl(RM)
            if acc[0][0] < a + PAGE or acc[-1][1] > a + up(ln) - PAGE:
                cx.fail(RM, x.p.endins, "bookkeeping at %#x-%#x is accessible at %s: no guard page is left" % (a, a + up(ln), hexes(acc)), x.p)
        for a, ln, b in st.protected:
            cx.obl(RM)
            if not any(q <= a - PAGE and a + ln + PAGE <= q + up(l2) for q, l2 in st.ever) and a != flow.gaddr("ro"):
                cx.fail(RM, b.ins, "bookkeeping of %d bytes is made accessible without guard pages around" % ln, x.p)


def quarantined(h):
    """ranges held by the region quarantine"""
    out = []
    for (st, f, a), v in h.mem.items():
        if st in ("quarantine_info",) and f == "p" and v:
            out.append((v, h.mem.get((st, "size", a))))
        if st == "region_allocator" and f in ("quarantine_random", "quarantine_queue") and v and (a - qoff(h, f)) % 16 == 0:
            out.append((v, h.mem.get((st, f, a + 8))))
    return sorted(out, key=repr)


def qoff(h, f):
    return hp.RA


def initial(cx, fracs=None):
    """outcomes of initialisation: (outcome, state) with random draws lowest and highest"""
    key = ("_initial",)
    if key in cx._runs:
        return cx._runs[key]
    out = []
    for fn in cx.inits(True):
        m = flow.Machine(cx.run(fn, cut=True, assume_init=False), limit=3000)
        for frac in fracs or (0, 1, lambda b: (b * 5) // 7 if b else 0):
            h = hp.Heap(cx)
            h.pages = walk.Space()
            h.frac = frac
            for k in list(h.mem):
                if k[0] in ("ro", "region_allocator"):
                    h.mem[k] = 0
            h.maps = [0x10000000000 * i + 0x3000 for i in range(1, 40)]
            h.areas, h.ever, h.protected = [], [], []

            def orc(e, av, s, tr):
                if e.name == "sysconf":
                    return PAGE
                if e.name in ("pthread_atfork", "pthread_mutex_init", "pthread_mutexattr_init", "pkey_alloc", "prctl"):
                    return 0
                if e.name == "getauxval":
                    return 0
                r = s.oracle(e, av, s, tr)
                if e.name in ("mmap", "mmap64") and av[0] in (0, None):
                    s.areas = s.areas + [(r, av[1])]
                    s.ever = s.ever + [(r, av[1])]
                if e.name in ("mprotect", "pkey_mprotect") and av[2] == 3 and av[0] is not None:
                    s.protected = s.protected + [(av[0], av[1], e)]
                if e.name == "munmap":
                    s.areas = [x for x in s.areas if x[0] != av[0]]
                return r
            for y in m.run(h, {}, orc):
                if y.end == "ret" and y.st.mem.get(("ro", "slab_region_end", flow.gaddr("ro"))):
                    out.append((y, y.st))
    if not out:
        raise ToolError("no successful initialisation was found")
    cx._runs[key] = out
    return out


# -- C14 -----------------------------------------------------------------------------------------------------
def c14(cx):
    RP, RC, RU, RF, RR = ("freed pages are replaced or purged before they are held", "ranges are held or unmapped, each exactly once",
                          "large ranges are unmapped at once", "the queue releases the oldest range", "the random stage swaps the drawn slot")
    o = hp.Ops(cx)
    ql, rl = cx.opt("REGION_QUARANTINE_QUEUE_LENGTH"), cx.opt("REGION_QUARANTINE_RANDOM_LENGTH")
    skip = cx.opt("REGION_QUARANTINE_SKIP_THRESHOLD") if ql or rl else 0

    def block(n, i=0, frac=0, total=64):
        h = fresh(cx, frac, total)
        y = [x for x in o.insert(h, 0x7a0000000000 + (i << 40), n) if x.end == "ret" and x.ret]
        if len(y) != 1:
            raise ToolError("no block of %d bytes could be made" % n)
        return y[0].st, y[0].ret, entry(y[0].st, y[0].ret)

    def judge(z, p, e0, what, lo=None, hi=None, before=()):
        lo = p - e0[2] if lo is None else lo
        hi = p + up(e0[1]) + e0[2] if hi is None else hi
        seq = [(e, a, r) for e, a, r in z.calls() if e.name in ("mmap", "mmap64", "munmap", "madvise", "mremap", "mprotect") and
               a[0] is not None and lo <= a[0] < hi]
        held = quarantined(z.st)
        rng = (lo, hi - lo)
        gone = [(a[0], up(a[1])) for e, a, r in z.calls("munmap") if r == 0]
        unq = [e for e, a, r in z.calls("munmap")]
        cx.obl(RC)
        new = [x for x in held if x not in before]
        for x in gone:
            if x != rng and x not in before:
                cx.fail(RC, unq[0].ins, "%s unmaps %#x bytes at %#x, no range of that extent was freed" % (what, x[1], x[0]), z.p)
        if (rng in [(a, up(b or 0)) for a, b in new]) + (rng in gone) != 1:
            cx.fail(RC, where(z), "%s: the range %#x+%#x is %s; held are %s, unmapped %s" % (what, lo, hi - lo,
                    "both held and unmapped" if rng in gone else "neither held nor unmapped", ["%#x+%s" % x for x in held][:3], ["%#x+%#x" % x for x in gone][:3]), z.p)
        want = sorted(list(before) + [rng], key=repr)
        have = sorted([(a, up(b or 0)) for a, b in held] + gone, key=repr)
        if have != sorted([(a, up(b)) for a, b in want], key=repr):
            cx.fail(RC, where(z), "%s: ranges are lost or duplicated (%d held or freed before, %d after)" % (what, len(want), len(have)), z.p)
        return seq, held, gone

    top = sm.table(cx, "size_classes")[-1]
    small = [top + 1, 1 << 20, 3 << 20] + ([skip - 1, skip - PAGE] if skip > (1 << 20) else [])
    large = [skip, skip * 2, skip + (skip >> 2) + 1] if skip else [top + 1, 1 << 20, 64 << 20]
    for n in small + large:
        for frac in (0, 1):
            h, p, e0 = block(n, 0, frac)
            size = e0[1]
            hold = bool(ql or rl) and size < skip
            for fails in ((), ("mmap",), ("mmap", "madvise")):
                s = h.copy()
                s.fails = set(fails)
                for z in o.free(s, p):
                    if z.end != "ret":
                        continue
                    seq, held, gone = judge(z, p, e0, "freeing %d bytes" % n)
                    if hold:
                        cx.obl(RP)
                        if not held:
                            cx.fail(RP, where(z), "a freed block of %d bytes is not held, the quarantine takes sizes below %d" % (size, skip), z.p)
                            continue
                        # order: pages replaced, then stored
                        st = False
                        done = False
                        for k, e, a, v in z.trace:
                            if k == "store" and v in (p - e0[2],) and e.loc.st in ("region_allocator", "quarantine_info"):
                                st = True
                            if k == "call" and e.name in ("mmap", "mmap64", "madvise") and a[0] == p and a[1] == size:
                                good = e.name != "madvise" and a[2] == 0 and a[3] is not None and a[3] & 0x10 or e.name == "madvise" and a[2] == 4
                                if not good:
                                    cx.fail(RP, e.ins, "freed pages are not replaced by an inaccessible fixed mapping (%s)" % (a[1:4],), z.p)
                                if st:
                                    cx.fail(RP, e.ins, "freed pages are replaced after the range entered the quarantine", z.p)
                                done = done or v not in (hp.M64, 0xffffffff) or e.name == "madvise"
                        if not done:
                            cx.fail(RP, where(z), "pages of a freed block of %d bytes are neither replaced nor purged (%s failing)" % (size, list(fails)), z.p)
                        if z.st.pages.prots(p, p + up(size)) - {0} and not fails:
                            cx.fail(RP, where(z), "pages of a freed block of %d bytes stay accessible" % size, z.p)
                    else:
                        cx.obl(RU)
                        if held or [(p - e0[2], up(size) + 2 * e0[2])] != gone or len([x for x in seq if x[0].name == "munmap"]) != 1:
                            cx.fail(RU, where(z), "freeing %d bytes: held %s, unmapped %s" % (size, held, gone), z.p)
            # the unmapping of a large range fails: it is purged
            if not hold:
                s = h.copy()
                s.fails = {"munmap"}
                for z in o.free(s, p):
                    cx.obl(RU)
                    pg = [a for e, a, r in z.calls("madvise") if a[0] is not None]
                    if z.end == "ret" and not any(a[0] <= p and a[0] + up(a[1]) >= p + size and a[2] == 4 for a in pg):
                        cx.fail(RU, where(z), "a range of %d bytes that cannot be unmapped is not purged" % size, z.p)
            # cutting off a tail
            if n >= 1 << 20:
                for m in (top + 1, n // 2):
                    for z in o.realloc(h, p, m):
                        e1 = entry(z.st, p)
                        if z.end != "ret" or z.ret != p or not e1 or e1[1] >= size:
                            continue
                        lo = p + up(e1[1]) + e0[2]
                        judge(z, p, e0, "shrinking %d to %d bytes" % (size, e1[1]), lo, p + up(size) + e0[2])
                        cx.obl(RP)
                        if z.st.pages.prots(lo, p + up(size)) & {1, 3} or quarantined(z.st) and "unknown" in z.st.pages.prots(lo, p + up(size) + e0[2]):
                            cx.fail(RP, where(z), "the tail cut off when shrinking %d to %d bytes stays accessible" % (size, e1[1]), z.p)
                        if (quarantined(z.st) != []) != (bool(ql or rl) and size - e1[1] < skip):
                            cx.fail(RU, where(z), "a tail of %d bytes is %sheld" % (size - e1[1], "" if quarantined(z.st) else "not "), z.p)
    if not (ql or rl):
        return
    # ageing: which range leaves when
    N = (ql + (1 if rl else 0)) + 3
    N = min(N, 1200)
    h = fresh(cx, 0, 64)
    order, left, free_ = [], [], None
    n = 1 << 20
    drop = []
    for i in range(N):
        y = [x for x in o.insert(h, 0x7a0000000000 + (i << 32), n) if x.end == "ret" and x.ret]
        e0 = entry(y[0].st, y[0].ret)
        z = [x for x in o.free(y[0].st, y[0].ret) if x.end == "ret"]
        if len(z) != 1:
            raise ToolError("freeing in a described state gives %d outcomes" % len(z))
        z = z[0]
        order.append(e0[0] - e0[2])
        gone = [a[0] for e, a, r in z.calls("munmap")]
        cx.obl(RF)
        k = i - ql - (1 if rl else 0)
        want = [order[k]] if k >= 0 else []
        if gone != want:
            cx.fail(RF, where(z), "free number %d releases %s; with %d queue and (same slot drawn) 1 random place %s is due" %
                    (i + 1, ["number %d" % (order.index(g) + 1) if g in order else hex(g) for g in gone],
                     ql, "number %d" % (k + 1) if k >= 0 else "nothing"), z.p)
            break
        h = z.st
        h.pages = walk.Space()
    if not rl:
        return
    # random stage
    h = fresh(cx, 0, 64)
    slots = {}
    for i, d in enumerate([0, rl - 1, 0, rl // 2, rl - 1, 0]):
        h.frac = lambda b, d=d: d if b == rl else 0
        y = [x for x in o.insert(h, 0x7a0000000000 + (i << 32), n) if x.end == "ret" and x.ret]
        e0 = entry(y[0].st, y[0].ret)
        z = [x for x in o.free(y[0].st, y[0].ret) if x.end == "ret"][0]
        b = [a[-1] for e, a, r in z.calls() if e.name.startswith("get_random_") and "uniform" in e.name]
        cx.obl(RR)
        if rl not in b:
            cx.fail(RR, where(z), "the random stage draws below %s, it has %d places" % (b, rl), z.p)
            break
        me = e0[0] - e0[2]
        out = slots.get(d)
        slots[d] = me
        held = [x[0] for x in quarantined(z.st)]
        rnd = [v for (st, f, a), v in z.st.mem.items() if f == "quarantine_random" and v in order_of(slots)]
        gone = [a[0] for e, a, r in z.calls("munmap")]
        if out is not None and ql and out not in held:
            cx.fail(RR, where(z), "the range displaced from the drawn place is not passed on to the queue", z.p)
        if out is not None and not ql and gone != [out]:
            cx.fail(RR, where(z), "the range displaced from the drawn place is not released", z.p)
        if set(slots.values()) - set(held):
            cx.fail(RR, where(z), "a range is displaced from a place that was not drawn", z.p)
        h = z.st
        h.pages = walk.Space()


def order_of(slots):
    return set(slots.values())


PROPS = {
    "C14": dict(
        rule=c14, configs=["default", "light", "plain"], thorough=["stats", "bigq", "nozero"],
        floor={"freed pages are replaced or purged before they are held": 20, "ranges are held or unmapped, each exactly once": 60,
               "large ranges are unmapped at once": 20, "the queue releases the oldest range": 100, "the random stage swaps the drawn slot": 6},
        technique="abstract interpretation of path summaries over page-mapping and quarantine states (conservation of freed ranges)",
        explain="The path summaries of free and shrinking realloc are applied to described states: every freed range must afterwards be "
                "either held or unmapped, exactly once and with its exact extent, its pages replaced first; the order in which ranges "
                "leave is followed through the full length of the quarantine.",
        decides="all paths for sizes on both sides of the threshold, each kernel call failing, one full cycle of the quarantine"),
    "C17": dict(
        rule=c17, configs=["default", "plain"], thorough=["light", "stats", "mte"],
        floor={"a new large block is exactly usable pages between two guards": 60, "guards are random and recorded": 60,
               "shrinking keeps guards on both sides": 20, "the allocator's own state is fenced": 4, "releasing covers block and both guards": 4},
        technique="abstract interpretation of path summaries over a page-protection map",
        explain="The mapping, protection and unmapping calls on each path are applied to a page map; for every successful allocation the map "
                "must be exactly guard, usable pages, guard as recorded in the table, with at least one guard page and a guard that "
                "depends on the draw; shrinking, freeing and initialisation are followed the same way.",
        decides="all paths for sizes and alignments at the breakpoints, extreme draws of the guard size"),
}
