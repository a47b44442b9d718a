"""C25: realloc."""
from .. import term as tm, flow, heap as hp, small as sm, large as lg, walk
from ..ctx import ToolError
from .big import PAGE, up, where, fresh, user, mapped, merged, hexes, entry, quarantined

R25 = ("failure leaves the old block as it was", "success keeps the data", "a moved block is released exactly once, afterwards",
       "copies stay inside both blocks", "staying in place keeps a sufficient block")


def class_starts(cx):
    """offsets into the slab region at which each class (of arena 0, and the last arena) begins"""
    if getattr(cx, "_cstart", None):
        return cx._cstart
    K, ptr = sm.class_term(cx, "malloc_usable_size")
    ro = flow.gaddr("ro")

    def cls(a):
        def f(t):
            if t == ptr or t.op == "arg" and t.a[0] == "arg0":
                return a
            if t.op == "ld" and t.a[1] == "slab_region_start":
                return hp.SLAB
            return None
        return tm.value(K, f, {})
    n = sm.nclasses(cx)
    if cls(hp.SLAB) != 0:
        raise ToolError("the class of an address could not be evaluated")
    lo, hi = 0, 1 << 46
    while hi - lo > 1:
        m = (lo + hi) // 2
        v = cls(hp.SLAB + m)
        if v is not None and v >= 1:
            hi = m
        else:
            lo = m
    out = [hi * k for k in range(n)]
    for k, a in enumerate(out):
        if cls(hp.SLAB + a) != k or cls(hp.SLAB + a + hi - 1) != k:
            raise ToolError("class regions are not evenly spaced")
    cx._cstart = out
    return out


def released_small(o, z, p):
    return [(i, e, a) for i, (k, e, a, v) in enumerate(z.trace) if k == "call" and e.name in o.heavy and e.name != o.small and
            a and e.name in o.releasers]


def c25(cx):
    o = hp.Ops(cx)
    o.releasers = {x[0] for x in releasers(cx) if x[1]}
    o.described |= o.releasers
    starts = class_starts(cx)
    sc, c = sm.table(cx, "size_classes"), sm.canary_size(cx)
    mx = sc[-1]
    thorough = cx.tier == "thorough"
    sizes = [0, 1, 16 - c, 17, 100, 128 - c, 1024 - c, 1024, mx - c, mx - c + 1, mx, mx + 1, mx + PAGE, mx * 2, 1 << 20, (1 << 21) - 7, 3 << 20,
             (32 << 20) - 1, 32 << 20, (32 << 20) + 1, 40 << 20, 1 << 30]
    sizes = sorted({max(0, x) for x in sizes})
    olds = []
    for k in sorted(set(list(range(0, len(sc), 1 if thorough else 4)) + [0, 1, len(sc) - 1])):
        olds.append(("slab", k, starts[k] + hp.SLAB + 0x40000))
    for n in [mx + 1, mx + PAGE, 1 << 20, (1 << 21) - 7, 3 << 20, 32 << 20, 40 << 20, 1 << 30]:
        olds.append(("large", n, None))
    for al, n in ((1 << 13, 1), (1 << 13, PAGE + 1), (1 << 16, mx), (1 << 21, 3 << 20), (1 << 21, 40 << 20), (1 << 13, mx - 100)):
        olds.append(("large", n, al))
    cases = [()] + [("mmap",), ("mprotect",), (o.small,), ("mremap",), ("mmap", "madvise")]
    cases += [(("mmap", 1),), (("mmap", 2),), ("munmap",), ("mremap", ("mmap", 1)), ("mremap", ("mmap", 2))]
    for kind, n0, al in olds:
        if kind == "slab":
            p = al
            old = sc[n0] - c if sc[n0] else 0
            h0 = fresh(cx, 0)
            e0 = None
        else:
            h = fresh(cx, 1)
            y = [x for x in o.insert(h, 0x7a0000003000, n0, al or False) if x.end == "ret" and x.st.table()]
            if len(y) != 1:
                raise ToolError("no block of %d bytes could be made" % n0)
            h0 = y[0].st
            e0 = h0.table()[0]
            p, old = e0[0], e0[1]
        for n in sizes:
            for fails in cases:
                s = h0.copy()
                s.frac = 0
                s.fails = set(fails)
                s.maps = [0x7b0000000000, 0x7b8000000000, 0x7b9000000000]
                what = "realloc of %s of %s%d bytes to %d" % ("a slab block" if kind == "slab" else "a large block",
                                                              "(aligned to %d) " % al if kind != "slab" and al else "", old, n)
                if fails:
                    what += " with %s failing" % ", ".join(str(x) for x in fails)
                for z in o.realloc(s, p, n):
                    judge(cx, o, z, p, n, old, kind, e0, c, mx, sc, what)


def judge(cx, o, z, p, n, old, kind, e0, c, mx, sc, what):
    RF, RD, RR, RC, RI = R25
    if z.end == "fatal":
        cx.obl(RF)
        cx.fail(RF, where(z), "%s aborts: %s" % (what, z.msg), z.p)
        return
    if z.end != "ret":
        if z.end in ("loops", "undecided"):
            raise ToolError("%s: a loop does not end" % what)
        return
    rel = released_small(o, z, p)
    cop = [(i, e, a) for i, (k, e, a, v) in enumerate(z.trace) if k == "memcpy"]
    mov = [(i, e, a) for i, (k, e, a, v) in enumerate(z.trace) if k == "call" and e.name == "mremap" and v is not None and v != hp.M64]
    ent = entry(z.st, p)
    ret = z.ret
    if ret is None:
        raise ToolError("%s: the result is not known" % what)
    top = p + up(old)
    if ret in (0, p):
        R = RF if ret == 0 else RI
        cx.obl(R)
        keep = old if ret == 0 else min(old, n)
        if rel:
            cx.fail(R, rel[0][1].ins, "%s returns %s but releases the block" % (what, "NULL" if ret == 0 else "it"), z.p)
        if kind == "large":
            if ret == 0 and ent != e0:
                cx.fail(R, where(z), "%s returns NULL, the entry of the block becomes %s (was %s)" % (what, ent, e0), z.p)
            if ret == p and (not ent or ent[1] < n):
                cx.fail(R, where(z), "%s returns the block, its entry is %s" % (what, ent), z.p)
            if z.st.pages.prots(p, p + keep) != {3}:
                cx.fail(R, where(z), "%s returns %s, the block's pages are no longer all mapped" % (what, "NULL" if ret == 0 else "it"), z.p)
            if ret == 0 and merged(x for x in user(z.st) if x[1] > p - e0[2] and x[0] < top + e0[2]) != \
                    merged([(p - e0[2], p, 0), (p, top, 3), (top, top + e0[2], 0)]):
                cx.fail(R, where(z), "%s returns NULL and leaves the block's pages changed" % what, z.p)
        elif ret == p and old < n:
            cx.fail(R, where(z), "%s returns the block, which is too small" % what, z.p)
        for i, e, a in cop:
            if a[0] is not None and p <= a[0] < top:
                cx.fail(R, e.ins, "%s overwrites the block" % what, z.p)
        if ret == p and mov:
            cx.fail(R, mov[0][1].ins, "%s moves the pages of a block that stays" % what, z.p)
        return
    # moved
    slab_new = hp.SLAB <= ret < hp.SLABEND
    if slab_new:
        a = [a for e, a, v in z.calls(o.small) if v == ret]
        req = a[0][-1] if a else None
        k = next((i for i, s in enumerate(sc) if req is not None and s >= req and (s or req == 0)), None)
        new = None if k is None else (sc[k] - c if sc[k] else 0)
    else:
        en = entry(z.st, ret)
        new = en[1] if en else None
    cx.obl(RD)
    if new is None or new < n:
        cx.fail(RD, where(z), "%s returns a block of %s bytes" % (what, new), z.p)
        return
    keep = min(old, n)
    got = 0
    datai = -1
    for i, e, a in cop:
        d, sr, ln = a[:3]
        cx.obl(RC)
        if d == ret and sr == p and ln is not None:
            if ln > min(old, new):
                cx.fail(RC, e.ins, "%s copies %d bytes, the blocks have %d and %d" % (what, ln, old, new), z.p)
            got = max(got, ln)
            datai = i
            at = z.st
        elif d is not None and sr is not None:
            cx.fail(RC, e.ins, "%s copies between other places than the blocks" % what, z.p)
    for i, e, a in mov:
        if a[0] == p and len(a) > 4 and a[4] == ret and a[3] is not None and a[3] & 3 == 3 and a[1] is not None and a[2] is not None:
            if kind != "large" or slab_new:
                cx.fail(RD, e.ins, "%s moves pages of a slab block" % what, z.p)
            got = max(got, min(a[1], a[2]))
            datai = i
            if up(a[1]) != up(old) or up(a[2]) != up(new):
                cx.fail(RD, e.ins, "%s moves %d bytes to %d, the blocks have %d and %d" % (what, a[1], a[2], old, new), z.p)
        else:
            cx.fail(RD, e.ins, "%s moves other pages than the block's to the new block" % what, z.p)
    if got < keep:
        cx.fail(RD, where(z), "%s keeps %d bytes, %d are due" % (what, got, keep), z.p)
    cx.obl(RR)
    if kind == "slab":
        if len(rel) != 1 or rel[0][2][0] != p or any(x not in (0, None) for x in rel[0][2][1:2]):
            cx.fail(RR, where(z), "%s releases %s" % (what, [(e.name, [hex(x) if x else x for x in a]) for i, e, a in rel]), z.p)
        elif rel[0][0] < datai:
            cx.fail(RR, rel[0][1].ins, "%s releases the old block before its data are copied" % what, z.p)
        return
    if rel:
        cx.fail(RR, rel[0][1].ins, "%s releases a slab block" % what, z.p)
    if ent:
        cx.fail(RR, where(z), "%s leaves the old block in the table" % what, z.p)
    lo, hi = p - e0[2], top + e0[2]
    held = [x for x in quarantined(z.st) if lo <= x[0] < hi]
    # which pages of the old block are given up, and when
    sp = walk.Space()
    sp.set(lo, hi, 1)
    twice = None
    for i, (k, e, a, v) in enumerate(z.trace):
        if k == "call" and e.name == "munmap" and a[0] is not None and a[1] and lo <= a[0] < hi:
            if v == 0 and None in sp.prots(a[0], a[0] + up(a[1])) or a[0] + up(a[1]) > hi:
                twice = e
            sp.set(a[0], a[0] + up(a[1]), None)
            if i < datai and a[0] < top and a[0] + a[1] > p:
                cx.fail(RR, e.ins, "%s unmaps the old block before its data are moved" % what, z.p)
        if k == "call" and e.name in ("mmap", "mmap64", "madvise") and a[0] is not None and a[1] and a[0] < top and a[0] + a[1] > p and i < datai:
            cx.fail(RR, e.ins, "%s replaces the old block's pages before its data are copied" % what, z.p)
        if k == "call" and e.name == "mremap" and v not in (None, hp.M64) and a[0] == p and a[1]:
            sp.set(p, p + up(a[1]), None)
    for a, b in held:
        if a != lo or up(b or 0) != hi - lo:
            cx.fail(RR, where(z), "%s: the old block is held as %#x+%s, it spans %#x+%#x" % (what, a, b, lo, hi - lo), z.p)
        if None in sp.prots(lo, hi) :
            twice = twice or z
    if twice:
        cx.fail(RR, getattr(twice, "ins", where(z)), "%s gives up pages of the old block twice or beyond its end" % what, z.p)
    if not held and sp.prots(lo, hi) - {None, "unknown"}:
        cx.fail(RR, where(z), "%s leaves pages of the old block mapped: %s" % (what, hexes(merged(sp.r))), z.p)
    if len(held) > 1:
        cx.fail(RR, where(z), "%s holds the old block twice" % what, z.p)


def releasers(cx):
    """(name, ...) of the internally locking functions free hands a slab block or a large block to"""
    from .sizes import Disp
    d = Disp(cx, "free")
    out = []
    for a in (hp.SLAB + (1 << 20), 0x7a0000003000):
        for o, hv in d.at({0: a}, lds={("ro", "slab_region_start"): hp.SLAB, ("ro", "slab_region_end"): hp.SLABEND}):
            for h in hv:
                if h[1] and h[1][0] == a:
                    out.append((h[0], a < hp.SLABEND and a >= hp.SLAB))
    if not out:
        raise ToolError("free hands blocks over to no other function")
    return out


PROPS = {
    "C25": dict(
        rule=c25, configs=["default", "plain", "light"], thorough=["stats", "bigq", "nozero"],
        floor={"staying in place keeps a sufficient block": 300, "success keeps the data": 1500, "copies stay inside both blocks": 1500,
               "a moved block is released exactly once, afterwards": 1500, "failure leaves the old block as it was": 400},
        technique="abstract interpretation of path summaries over block, page-mapping and copy states",
        explain="The path summaries of realloc and of the functions it hands over to are applied to described heaps: old slab blocks of the "
                "classes, large blocks of many sizes and alignments, new sizes at the breakpoints, each kernel call failing. On failure the "
                "entry and pages of the old block must be untouched; on success the data must be copied or moved in full, inside both blocks, "
                "before the one release of the old block.",
        decides="all paths for the described blocks and sizes, with the slab allocator's own result described (C15, C41 cover it)"),
}
