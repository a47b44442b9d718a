"""C18: where slabs are placed - class regions, growth of bookkeeping, skipped slab locations."""
from .. import term as tm, flow, heap as hp, slabs as sb, small as sm, walk
from ..ctx import ToolError
from . import big, resize
from .query import at
from .arena import set_arena, key_of, TA

PAGE = 4096
RB, RR, RD, RI, RV = ("class regions are disjoint and leave a page on both sides", "the base of every class region is random",
                      "dividers match the geometry of the class", "bookkeeping arrays are disjoint and inaccessible at first",
                      "the reservation is inaccessible at first")
RG, RC, RS, RK, RM = ("bookkeeping is accessible before it is used", "slabs stay inside the class region",
                      "exactly the new slab is made accessible", "slab locations are skipped at the configured interval",
                      "bookkeeping grows within its array")


def hashed():
    n = [0]

    def f(b):
        n[0] += 1
        x = n[0] * 0x9e3779b97f4a7c15 & (1 << 64) - 1
        x ^= x >> 29
        x = x * 0xbf58476d1ce4e5b9 & (1 << 64) - 1
        return x % b if b else 0
    return f


def initial(cx):
    """initialised states: (kind of draws, outcome)"""
    out = [(k, z) for k, (z, st) in zip(("lowest", "highest", "other") * 99, big.initial(cx))]
    keep = cx._runs
    cx._runs = {k: v for k, v in keep.items() if k != ("_initial",)}
    try:
        for fn in cx.inits(True):
            out += [("mixed", z) for z, st in big.initial(cx, (hashed(),))]
    finally:
        cx._runs = keep
    return out


def layout(cx, z):
    """class_region_start and slab_info of every class of every arena"""
    s = z.st
    ro = flow.gaddr("ro")
    n = sm.nclasses(cx)
    csz = cx.prog(True).structs["size_class"]["size"]
    start = s.mem.get(("ro", "slab_region_start", ro))
    end = s.mem.get(("ro", "slab_region_end", ro))
    out = {}
    for a in range(cx.opt("N_ARENA")):
        base = s.mem.get(("ro", "size_class_metadata", ro + 8 * a))
        for k in range(n):
            C = None if base is None else base + k * csz
            out[a, k] = (C, s.mem.get(("size_class", "class_region_start", C)), s.mem.get(("size_class", "slab_info", C)))
    return start, end, out


def dividers(z):
    """(field, structure) -> divisor, as recorded by initialisation"""
    gen, out = [], {}
    for k, e, a, v in z.trace:
        if k == "call" and e.name.startswith("libdivide_") and e.name.endswith("_gen"):
            gen.append((e.val, e.name, a[-1]))
        elif k == "store" and e.loc.st == "size_class" and gen and isinstance(a, int) and isinstance(e.val, tm.T):
            if gen[-1][0] is not None and gen[-1][0] in tm.subterms(e.val):
                out.setdefault((e.loc.f, a - (e.loc.sub or 0)), (e, gen[-1][1], gen[-1][2]))
    return out


def init_part(cx):
    P = cx.prog(True)
    n, na = sm.nclasses(cx), cx.opt("N_ARENA")
    st = resize.class_starts(cx)
    win = st[1]
    stride = sb.arena_stride(cx)
    msz = P.structs["slab_metadata"]["size"]
    sc, sl = sm.table(cx, "size_classes", True), sm.table(cx, "size_class_slots", True)
    geo = [(sc[k] or 16, sl[k], ((sc[k] or 16) * sl[k] + PAGE - 1) // PAGE * PAGE) for k in range(n)]
    gaps, infos = {}, {}
    for kind, z in initial(cx):
        start, end, lay = layout(cx, z)
        if start is None or end is None:
            raise ToolError("the slab region could not be evaluated")
        cx.obl(RV)
        if end - start < stride * na:
            cx.fail(RV, at(z), "the reservation has %d bytes for %d arenas of %d" % (end - start, na, stride), z.p)
        area = [(x, y) for x, y in z.st.areas if x <= start < x + y]
        if not area or area[0][0] + area[0][1] < end:
            cx.fail(RV, at(z), "the slab region is not one reservation of its own", z.p)
        pr = z.st.pages.prots(start, end)
        if pr - {0, 0x20}:
            cx.fail(RV, at(z), "part of the slab region is accessible after initialisation", z.p)
        ends = sorted(v[2] for v in lay.values() if v[2] is not None)
        for (a, k), (C, r, info) in lay.items():
            cx.obl(RB)
            lo = start + a * stride + st[k]
            if r is None or info is None:
                cx.fail(RB, at(z), "class %d of arena %d gets no region" % (k, a), z.p)
                continue
            if r % PAGE:
                cx.fail(RB, at(z), "class %d of arena %d starts at %#x, not at a page" % (k, a, r), z.p)
            if r - lo < PAGE or r >= lo + win - PAGE:
                cx.fail(RB, at(z), "class %d of arena %d starts %d bytes into its region of %d (%s draws)" % (k, a, r - lo, win, kind), z.p)
            gaps.setdefault(kind, {})[a, k] = r - lo
            # the array of this class reaches to the next one
            nx = min([x for x in ends if x > info] or [max(x + y for x, y in z.st.areas if x <= info < x + y) if
                     any(x <= info < x + y for x, y in z.st.areas) else info])
            infos.setdefault((a, k), []).append((nx - info) // msz)
            cx.obl(RI)
            if ends.count(info) != 1:
                cx.fail(RI, at(z), "class %d of arena %d shares its bookkeeping array" % (k, a), z.p)
            if info % PAGE:
                cx.fail(RI, at(z), "the bookkeeping array of class %d starts inside a page" % k, z.p)
            q = z.st.pages.prots(info, nx)
            if q != {0} and z.st.mem.get(("size_class", "metadata_allocated", C), 0) in (0, None):
                cx.fail(RI, at(z), "the bookkeeping array of class %d is accessible from the start" % k, z.p)
        dv = dividers(z)
        for (a, k), (C, r, info) in lay.items():
            for f, want in (("size_divisor", geo[k][0]), ("slab_size_divisor", geo[k][2])):
                cx.obl(RD)
                e = dv.get((f, C))
                if e is None or e[2] != want:
                    cx.fail(RD, at(z) if e is None else e[0].ins, "class %d of arena %d: %s divides by %s, expected %d" %
                            (k, a, f, e and e[2], want), z.p)
    # randomness
    for (a, k), lo in gaps.get("lowest", {}).items():
        hi = gaps.get("highest", {}).get((a, k))
        cx.obl(RR)
        if hi is None or hi - lo < (win // 2 - 2 * PAGE) // 2:
            cx.fail(RR, "h_malloc.c: class_region_start", "class %d of arena %d starts at offsets from %s to %s only" % (k, a, lo, hi))
    m = gaps.get("mixed", {})
    cx.obl(RR)
    if m and len(set(m.values())) < len(m) * 9 // 10:
        cx.fail(RR, "h_malloc.c: class_region_start", "%d classes share %d offsets: they are not drawn for each class" %
                (len(m), len(set(m.values()))))
    return gaps, {x: min(v) for x, v in infos.items()}


class Placed(sb.Slabs):
    def __init__(s, cx, gaps, **kw):
        s.gaps = gaps
        super().__init__(cx, **kw)

    def region(s, a, k):
        return hp.SLAB + s.stride * a + s.starts[k] + s.gaps[a, k]

    def copy(s):
        n = super().copy()
        n.gaps = s.gaps
        return n


def fresh_slab(cx, o, ka, s, a, k, c, A, u):
    """malloc of class k when no slab of it has room"""
    st = s.copy()
    st.pages = walk.Space()
    C = s.C(a, k)
    for f, v in (("metadata_count", c), ("metadata_allocated", A), ("metadata_count_unguarded", u)):
        st.set(C, f, v)
    if ka:
        st.mem[ka[0], ka[1], flow.gaddr(TA)] = a
    lo, hi = sm.bracket(cx, k)
    return o.go("malloc", st, {0: hi})


def judge(cx, s, z, a, k, c, A, u, room, what):
    """one slab created (or refused): returns (index, count, allocated, unguarded) or None"""
    S, N, Z = s.geom(k)
    C = s.C(a, k)
    info, msz = s.meta(a, k, 0), s.msz
    open_ = A * msz                             # bytes of bookkeeping accessible
    slabs = []
    for kind, e, x, v in z.trace:
        if kind == "call" and e.name in ("mprotect", "pkey_mprotect", "mmap", "mmap64") and x[0]:
            if info <= x[0] < info + (1 << 30) and v == 0:
                if x[0] <= info + (open_ + PAGE - 1) // PAGE * PAGE and x[2] == 3:
                    open_ = max(open_, x[0] + x[1] - info)
                cx.obl(RM)
                if x[0] + x[1] - info > (room * msz + PAGE - 1) // PAGE * PAGE:
                    cx.fail(RM, e.ins, "%s: %d bytes of bookkeeping made accessible, the array has %d entries of %d" %
                            (what, x[0] + x[1] - info, room, msz), z.p)
            elif hp.SLAB <= x[0] < s.end:
                slabs.append((e, x))
        if kind in ("load", "store", "rmw") and isinstance(x, int) and e.loc.st == "slab_metadata":
            cx.obl(RG)
            if not info <= x < info + (open_ + PAGE - 1) // PAGE * PAGE:
                cx.fail(RG, e.ins, "%s: bookkeeping of slab %d is used, %d bytes are accessible" % (what, (x - info) // msz, open_), z.p)
    acc = s.__class__.get(z.st, C, "metadata_allocated")
    cx.obl(RG)
    if acc is None or acc * msz > (open_ + PAGE - 1) // PAGE * PAGE:
        cx.fail(RG, at(z), "%s: %s entries of bookkeeping are recorded as accessible, %d bytes are" % (what, acc, open_), z.p)
    if z.ret == 0 or z.ret is None:
        for e, x in slabs:
            cx.obl(RS)
            cx.fail(RS, e.ins, "%s: a slab is made accessible although the request fails" % what, z.p)
        return None
    base = s.region(a, k)
    i, off = divmod((z.ret & ((1 << 56) - 1)) - base, Z)
    cx.obl(RC)
    lim = hp.SLAB + a * s.stride + s.starts[k] + s.starts[1] - PAGE
    if i < c or base + (i + 1) * Z > lim:
        cx.fail(RC, at(z), "%s: the new slab is number %d, %d bytes beyond the region's last usable page" %
                (what, i, max(0, base + (i + 1) * Z - lim)), z.p)
    want = [] if k == 0 else [(base + i * Z, Z)]
    got = [(x[0], (x[1] + PAGE - 1) // PAGE * PAGE) for e, x in slabs if x[2] == 3]
    cx.obl(RS)
    if got != want or len(slabs) != len(got):
        cx.fail(RS, slabs[0][0].ins if slabs else at(z), "%s: slab %d of %d bytes, made accessible: %s" %
                (what, i, Z, [("%#x" % (x - base), n) for x, n in got]), z.p)
    g = lambda f: s.__class__.get(z.st, C, f)
    return i, g("metadata_count"), acc, g("metadata_count_unguarded")


def alloc_part(cx, gaps, rooms):
    o = sb.Whole(cx)
    I = cx.opt("GUARD_SLABS_INTERVAL")
    na = cx.opt("N_ARENA")
    ka = key_of(cx, TA) if na > 1 else None
    thorough = cx.tier == "thorough"
    for kind in ("highest", "mixed") if thorough else ("highest",):
        s = Placed(cx, gaps[kind])
        n = s.n
        for a in sorted({0, na - 1}):
            for k in range(n):
                S, N, Z = s.geom(k)
                room = rooms[a, k]
                def go(c, A, u):
                    what = "class %d of arena %d with %d slabs (%d entries, %d since the last skip)" % (k, a, c, A, u)
                    zs = fresh_slab(cx, o, ka, s, a, k, c, A, u)
                    rets = [z for z in zs if z.end == "ret"]
                    if not rets:
                        raise ToolError("no way through for " + what)
                    rs = {judge(cx, s, z, a, k, c, A, u, room, what) for z in rets}
                    if len(rs) != 1:
                        raise ToolError("%d different results for %s" % (len(rs), what))
                    return rs.pop()
                # from the start: every location, and the ones that are skipped
                c = A = u = 0
                used = []
                for step in range(3 * I + 2):
                    r = go(c, A, u)
                    if r is None:
                        cx.obl(RK)
                        cx.fail(RK, "h_malloc.c: slab creation", "class %d of arena %d is refused its slab number %d" % (k, a, len(used)))
                        break
                    i, c, A, u = r
                    used.append(i)
                    if None in (c, A, u):
                        raise ToolError("slab counters of class %d could not be evaluated" % k)
                else:
                    cx.obl(RK)
                    want, x = [], 0
                    while len(want) < len(used):
                        want.append(x)
                        x += 2 if len(want) % I == 0 else 1
                    if used != want:
                        cx.fail(RK, "h_malloc.c: slab creation", "class %d of arena %d uses slab locations %s, with one skipped after every %d expected %s" %
                                (k, a, used[:9], I, want[:9]))
                # growth at every step, up to capacity
                seen = set()
                for _ in range(64):
                    if A in seen:
                        break
                    seen.add(A)
                    nxt = None
                    for c2, u2 in ((A - 1, I - 1), (A, 0), (A + 1, 0)):
                        r = go(c2, A, u2)
                        if r is not None and r[2] > A:
                            nxt = r[2]
                    # the skips go on across the growth
                    far = thorough or a == 0 and len(seen) <= 3
                    for c3 in {max(0, A - I - 1), max(0, A - 1)} if far else ():
                        t, run = (c3, A, 0), []
                        for _ in range(2 * I + 1):
                            r = go(*t)
                            if r is None or None in r:
                                break
                            run.append(r[0])
                            t = r[1:]
                        cx.obl(RK)
                        if any(run[j + I] - run[j] <= I for j in range(len(run) - I)):
                            cx.fail(RK, "h_malloc.c: slab creation", "class %d of arena %d with %d entries of bookkeeping uses slab locations %s: more than %d without a skip" %
                                    (k, a, A, run, I))
                    if nxt is None:
                        break
                    A = nxt
                cx.obl(RC)
                cx.count("bookkeeping sizes", len(seen))
                if len(seen) < 2:
                    cx.fail(RC, "h_malloc.c: slab creation", "the bookkeeping of class %d never grows beyond %d entries" % (k, A))
                for c2 in (A - 2, A - 1, A, A + 1, A + 2):
                    for u2 in {0, I - 1}:
                        go(c2, A, u2)


def c18(cx):
    gaps, rooms = init_part(cx)
    if not all(k in gaps for k in ("lowest", "highest", "mixed")):
        raise ToolError("initialisation with lowest, highest and mixed draws was not found")
    alloc_part(cx, gaps, rooms)
    cx.sample("bookkeeping entries per class: %s" % sorted(set(rooms.values())))


PROPS = {
    "C18": {"rule": c18, "configs": ["default", "plain", "stats", "light"],
            "thorough": ["nozero", "seal", "label", "bigq"],
            "floor": {RB: 100, RR: 90, RD: 200, RI: 100, RG: 1000, RC: 500, RS: 500, RK: 90, RM: 300},
            "explain": "The summarised paths of initialisation are evaluated with lowest, highest and mixed random draws: position of "
                       "every class region inside the window that the address computation gives it, dividers, bookkeeping arrays "
                       "and page protections. The paths of malloc are then evaluated on states in which the class has no slab with room, for every class of the "
                       "first and last arena, from the empty state through three skips and at every bookkeeping size up to capacity: which slab is made, what "
                       "is made accessible and when, and which locations are skipped."},
}
