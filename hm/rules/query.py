"""C30, C31, C44: size queries and trimming, on described states of the whole allocator."""
from .. import term as tm, flow, heap as hp, slabs as sb, small as sm, large as lg
from ..ctx import ToolError
from .big import PAGE, up, fresh, entry

TAGBITS = 0x7f << 56


def populated(cx):
    """a state with slabs in use in the first and the last arena: every class, three slabs, chosen slots"""
    if getattr(cx, "_pop", None) is not None:
        return cx._pop
    s = sb.Slabs(cx)
    q = sm.has_field(cx, "slab_metadata", "quarantine_bitmap")
    s.kinds = []        # (address of the slot, arena, class, slab, slot, what)
    for a in sorted({0, s.narena - 1}):
        for k in range(s.n):
            S, N, Z = s.geom(k)
            for i in (0, 2, 5):
                used = sorted({0, 1, min(63, N - 1), min(64, N - 1), N - 1} - ({1} if i == 2 and N > 1 else set()) - ({0} if i == 5 and N > 2 else set()))
                held = [used[0]] if q and len(used) > 1 and i == 0 else [used[-1]] if q and len(used) > 1 and i == 2 else []
                s.add(a, k, i, used, held)
                for u in range(N) if N < 6 else sorted(set(used) | {0, 1, 2, 62, 65, N - 2}):
                    if u >= N:
                        continue
                    w = "held in quarantine" if u in held else "live" if u in used else "free"
                    s.kinds.append((s.slab(a, k, i) + u * S, a, k, i, u, w))
    cx._pop = s
    return s


def machine(cx, fn, cut=False):
    m = cx.__dict__.setdefault("_qm", {})
    if (fn, cut) not in m:
        m[fn, cut] = flow.Machine(cx.run(fn, cut=cut))
    return m[fn, cut]


def describe(a, k, i, u, S):
    return "slot %d of slab %d of class %d (%d bytes) in arena %d" % (u, i, k, S, a)


def at(z):
    """where an outcome ends: the last construct met"""
    if z.p is not None and z.p.endins is not None:
        return z.p.endins
    for k, e, a, v in reversed(z.trace):
        if e.ins is not None:
            return e.ins
    return "?"


def large_state(cx):
    """a table with live large blocks, one released, and neighbours"""
    o = hp.Ops(cx)
    top = sm.table(cx, "size_classes")[-1]
    h = fresh(cx, 0)
    blocks, base = [], 0x7100000000
    for n in (top + 1, top + PAGE, 3 * top + 17, (1 << 21) - 7, (1 << 25) + 1, 5 << 30):
        z = o.insert(h, base, n)
        r = [x for x in z if x.end == "ret" and x.ret]
        if len(r) != 1:
            raise ToolError("allocating a large block: %d outcomes" % len(r))
        h = r[0].st
        blocks.append((r[0].ret, n))
        base += 0x1000000000
    z = o.insert(h, base, 1 << 20)
    r = [x for x in z if x.end == "ret" and x.ret]
    dead = r[0].ret
    z = [x for x in o.free(r[0].st, dead) if x.end == "ret"]
    if len(z) != 1:
        raise ToolError("freeing a large block: %d outcomes" % len(z))
    return o, z[0].st, blocks, dead


def tags(cx):
    return (0, 5 << 56, 15 << 56) if cx.config in ("mte", "android") else (0,)


def c30(cx):
    RC, RU, RA, RN, RL, RX = ("the size covers the request", "the size is within the slot, without the canary", "pointers that are not the start of a live slot abort",
                              "NULL and zero-size blocks have size 0", "large blocks report their size", "released and interior large pointers abort")
    fn = "malloc_usable_size"
    m = machine(cx, fn)
    s = populated(cx)
    c = sm.canary_size(cx)

    def run(p, st=s):
        return m.run(st, {0: p}, st.oracle, sb.over)
    for z in run(0):
        cx.obl(RN)
        if z.end != "ret" or z.ret != 0:
            cx.fail(RN, at(z), "the usable size of NULL is %s" % (z.ret if z.end == "ret" else z.end), z.p)
    for p, a, k, i, u, w in s.kinds:
        S, N, Z = s.geom(k)
        d = describe(a, k, i, u, S)
        for tg in tags(cx):
            zs = run(p | tg)
            if not zs:
                raise ToolError("no way through %s for %s" % (fn, d))
            if w == "live":
                rets = [z for z in zs if z.end == "ret"]
                cx.obl(RC)
                if not rets:
                    cx.fail(RC, at(zs[0]), "the usable size of %s, which is live, cannot be asked: %s" % (d, zs[0].msg or zs[0].end), zs[0].p)
                for z in zs:
                    if z.end == "fatal" and not any(kk == "load" and e.loc is not None and e.loc.st is None for kk, e, _, _ in z.trace):
                        cx.fail(RC, at(z), "the usable size of %s, which is live, may abort: %s" % (d, z.msg), z.p)
                for z in rets:
                    if k == 0:
                        cx.obl(RN)
                        if z.ret != 0:
                            cx.fail(RN, at(z), "the usable size of a zero-size block is %s" % z.ret, z.p)
                        continue
                    lo, hi = sm.bracket(cx, k)
                    cx.obl(RU)
                    if z.ret is None or z.ret < hi:
                        cx.fail(RC, at(z), "the usable size of %s is %s, less than the %d bytes that may have been asked for" % (d, z.ret, hi), z.p)
                    elif z.ret > S - c:
                        cx.fail(RU, at(z), "the usable size of %s is %d, beyond the %d bytes the caller may use" % (d, z.ret, S - c), z.p)
                if w == "live" and i == 2 and tg == 0 and S > 16:
                    for off in sorted(x for x in {1, 8, 16, S - c, S - 1} if 0 < x < S):
                        cx.obl(RA)
                        for z in run(p + off):
                            if z.end != "fatal":
                                cx.fail(RA, at(z), "a pointer %d bytes into %s is accepted: %s" % (off, d, z.ret), z.p)
            else:
                cx.obl(RA)
                for z in zs:
                    if z.end != "fatal":
                        cx.fail(RA, at(z), "%s, which is %s, is given the usable size %s" % (d, w, z.ret), z.p)
    for a in sorted({0, s.narena - 1}):
        for k in range(s.n):
            S, N, Z = s.geom(k)
            for i in (40, 1 << 10):
                p = s.slab(a, k, i)
                if p >= s.region(a, k) + s.starts[1] - s.gap * 4:
                    continue
                cx.obl(RA)
                for z in run(p):
                    if z.end != "fatal":
                        cx.fail(RA, at(z), "slot 0 of slab %d of class %d, never used, is given the usable size %s" % (i, k, z.ret), z.p)
            if Z > S * N and k:
                p = s.slab(a, k, 0) + S * N
                cx.obl(RA)
                for z in run(p):
                    if z.end != "fatal":
                        cx.fail(RA, at(z), "the rest of a slab of class %d behind its last slot is given the usable size %s" % (k, z.ret), z.p)
    o, h, blocks, dead = large_state(cx)
    for p, n in blocks:
        for z in run(p, h):
            cx.obl(RL)
            if z.end != "ret" or z.ret is None or z.ret < n or z.ret > up(entry(h, p)[1]):
                cx.fail(RL, at(z), "the usable size of a large block of %d bytes is %s" % (n, z.ret if z.end == "ret" else z.msg or z.end), z.p)
            elif h.pages.prots(p, p + z.ret) != {3}:
                cx.fail(RL, at(z), "the usable size %d of a large block of %d bytes reaches beyond its accessible pages" % (z.ret, n), z.p)
    for p in [dead, dead + PAGE] + [q + PAGE for q, n in blocks] + [q + 1 for q, n in blocks] + [q - PAGE for q, n in blocks] + [0x1000, 1 << 46]:
        cx.obl(RX)
        for z in run(p, h):
            if z.end != "fatal":
                cx.fail(RX, at(z), "a pointer that is not a live large block is given the usable size %s" % z.ret, z.p)


def c31(cx):
    RB, RA, RN, RL, RF, RI = ("the bound covers the rest of the block", "free and quarantined slots abort", "NULL has size 0", "large blocks are bounded by their size",
                              "the fast query never aborts", "the fast query takes no lock and reads immutable state")
    s = populated(cx)
    c = sm.canary_size(cx)
    slow, fast = "malloc_object_size", "malloc_object_size_fast"
    M64 = (1 << 64) - 1
    P = cx.prog(False)
    for fn in (slow, fast):
        m = machine(cx, fn)

        def run(p, st=s):
            return m.run(st, {0: p}, st.oracle, sb.over)
        for z in run(0):
            cx.obl(RN)
            if z.end != "ret" or z.ret != 0:
                cx.fail(RN, at(z), "%s of NULL is %s" % (fn, z.ret if z.end == "ret" else z.end), z.p)
        for p, a, k, i, u, w in s.kinds:
            S, N, Z = s.geom(k)
            cap = S - c if k else 0
            d = describe(a, k, i, u, S)
            offs = sorted(x for x in {0, 1, cap // 2, max(cap - 1, 0), cap} if x <= cap and x < S) if i == 2 or k < 3 else [0, max(cap - 1, 0)]
            for tg in tags(cx):
                for off in offs if w == "live" or fn == fast else [0, S - 1]:
                    zs = run((p + off) | tg)
                    if not zs:
                        raise ToolError("no way through %s for %s" % (fn, d))
                    for z in zs:
                        if w == "live":
                            cx.obl(RB)
                            if z.end != "ret":
                                cx.fail(RB, at(z), "%s of a pointer %d bytes into %s, which is live, aborts: %s" % (fn, off, d, z.msg or z.end), z.p)
                            elif z.ret is None or z.ret < cap - off:
                                cx.fail(RB, at(z), "%s of a pointer %d bytes into %s is %s although %d bytes follow" % (fn, off, d, z.ret, cap - off), z.p)
                        elif fn == slow:
                            cx.obl(RA)
                            if z.end != "fatal":
                                cx.fail(RA, at(z), "%s of %s, which is %s, returns %s" % (fn, d, w, z.ret), z.p)
                        else:
                            cx.obl(RF)
                            if z.end != "ret":
                                cx.fail(RF, at(z), "%s ends in %s" % (fn, z.msg or z.end), z.p)
        if "large" not in cx.__dict__:
            cx.large = large_state(cx)
        o, h, blocks, dead = cx.large
        for p, n in blocks:
            for off in (0, 1, PAGE, n - 1):
                for z in run(p + off, h):
                    cx.obl(RL)
                    if z.end != "ret" or z.ret is None or z.ret < n - off:
                        cx.fail(RL, at(z), "%s of a pointer %d bytes into a large block of %d bytes is %s" %
                                (fn, off, n, z.ret if z.end == "ret" else z.msg or z.end), z.p)
    # every path of the fast query
    for p in cx.run(fast, cut=False):
        for e in p.ev:
            if e.k in ("lock", "unlock", "store", "rmw", "call", "memset", "memcpy"):
                cx.obl(RI)
                cx.fail(RI, e.ins, "%s performs a %s%s" % (fast, e.k, " of " + e.name if e.k == "call" else ""), p)
            elif e.k == "load":
                cx.obl(RI)
                if not immutable(P, e):
                    cx.fail(RI, e.ins, "%s reads %s, which changes while the allocator runs" % (fast, e.loc), p)


def immutable(P, e):
    if e.loc.st == "ro" or e.loc.st in P.tables:
        return True
    if e.loc.st == "alloca":
        return True
    return e.loc.imm if hasattr(e.loc, "imm") else False


def free_ids(s, a, k):
    """slabs known to be free and inaccessible: the queue and the random quarantine; None if the queue is broken"""
    q = s.read(a, k, "free_slabs_head")
    if q is None:
        return None
    C = s.C(a, k)
    tail = s.get(C, "free_slabs_tail")
    if q and tail != s.meta(a, k, q[-1]):
        return None
    base = s.meta(a, k, 0)
    for (st, f, x), v in s.mem.items():
        if st == "size_class" and f == "free_slabs_quarantine" and C <= x < C + s.csz and v:
            q.append((v - base) // s.msz if isinstance(v, int) and v >= base and (v - base) % s.msz == 0 else "?")
    return q


def slots_field(cx, f):
    return sm.has_field(cx, "size_class", f)


def trim_state(cx, plan, frac, held=()):
    """plan: (arena, class, cached slabs in order, free slabs in order, slab in the random quarantine or None)"""
    s = sb.Slabs(cx)
    from ..walk import Space
    s.pages = Space()
    s.frac = frac
    for a, k, cached, free, rnd in plan:
        C = s.C(a, k)
        for i in range(max(cached + free + [rnd or 0]) + 3):
            s.add(a, k, i, [1] if i not in cached + free and i != rnd else [])
        s.chain(a, k, "empty_slabs", cached)
        s.chain(a, k, "free_slabs_head", free, "free_slabs_tail")
        s.set(C, "empty_slabs_total", len(cached) * s.geom(k)[2])
        if sm.has_field(cx, "size_class", "slab_allocated"):
            s.set(C, "slab_allocated", 1 << 40)
        if rnd is not None:
            s.set(C, "free_slabs_quarantine", s.meta(a, k, rnd), 0)
        for i in range(max(cached + free + [rnd or 0]) + 3):
            s.pages.set(s.slab(a, k, i), s.slab(a, k, i) + s.geom(k)[2], 0 if i in free or i == rnd else 3)
    for a, k, i, u, f, j in held:
        s.set(s.C(a, k), f, s.slab(a, k, i) + u * s.geom(k)[0], j)
    return s


def c44(cx):
    RR, RK, RV, RP, RU = ("cached slabs become inaccessible and free", "a refused slab stays cached", "the result says whether a slab was released",
                          "only quarantined blocks of extended classes are purged", "an uninitialised allocator is left alone")
    fn = "malloc_trim"
    m = flow.Machine(cx.run(fn, cut=False), limit=200000, forks=30000)
    s = sb.Slabs(cx)
    ro = flow.gaddr("ro")
    s.mem["ro", "slab_region_end", ro] = 0
    for z in flow.Machine(cx.run(fn, cut=False, assume_init=False), limit=200000, forks=30000).run(s, {0: 0}, s.oracle, sb.over):
        cx.obl(RU)
        if z.end != "ret" or z.ret != 0:
            cx.fail(RU, at(z), "before initialisation malloc_trim %s" % ("returns %s" % z.ret if z.end == "ret" else z.msg or z.end), z.p)
        for k, e, a, v in z.trace:
            if k in ("store", "call", "lock"):
                cx.fail(RU, e.ins, "before initialisation malloc_trim performs a %s" % k, z.p)
    n = s.n
    last = s.narena - 1
    top = n - 1
    ks = list(range(1, n))
    plans = {"nothing cached": [(0, 1, [], [], None), (last, top, [], [4, 5], None)],
             "every chosen class": [(a, k, [3, 0, 1], [7, 6] if k % 2 else [], 9 if k % 3 == 0 else None) for a in sorted({0, last}) for k in ks]}
    for a in sorted({0, last, last // 2}):
        for k in (1, n // 2, top) if cx.tier == "quick" else range(1, n):
            plans["one slab in class %d of arena %d" % (k, a)] = [(a, k, [2], [], None)]
    for name, plan in plans.items():
        for frac in (0, 1):
            for bad in (None, 0, 1, 2, "all") if name == "every chosen class" else (None, "all"):
                st = trim_state(cx, plan, frac)
                if bad is not None:
                    first = {}
                    for a, k, cached, free, rnd in plan:
                        for i, sl in enumerate(cached):
                            first[st.slab(a, k, sl)] = i

                    def failif(nm, av, first=first, bad=bad):
                        return nm in ("mmap", "mmap64") and (bad == "all" or first.get(av[0]) == bad)
                    st.failif = failif
                zs = m.run(st, {0: 0}, st.oracle, sb.over)
                for z in zs:
                    if z.end != "ret":
                        cx.obl(RR)
                        cx.fail(RR, at(z), "malloc_trim with %s ends in %s" % (name, z.msg or z.end), z.p)
                        continue
                    released = 0
                    calls = [(e, av) for e, av, r in z.calls() if e.name in sm.SYS]
                    claimed = set()
                    for a, k, cached, free, rnd in plan:
                        S, N, Z = st.geom(k)
                        out = cached if bad is None else [] if bad == "all" else cached[:bad]
                        keep = [i for i in cached if i not in out]
                        C = st.C(a, k)
                        d = "class %d of arena %d" % (k, a)
                        got = z.st.read(a, k, "empty_slabs")
                        fr = free_ids(z.st, a, k)
                        gone = [i for i in cached if all(x is not None and not x & 7 for x in z.st.pages.prots(st.slab(a, k, i), st.slab(a, k, i) + Z))]
                        rule = RK if bad is not None else RR
                        cx.obl(rule, max(len(cached), 1))
                        released += len(gone)
                        if got is None or sorted(got) != sorted(i for i in cached if i not in gone):
                            cx.fail(rule, at(z), "%s: slabs %s were given back but the cache of slabs %s becomes %s" % (d, gone, cached, got), z.p)
                        elif fr is None or sorted(map(str, fr)) != sorted(map(str, free + ([rnd] if rnd is not None else []) + gone)):
                            cx.fail(rule, at(z), "%s: slabs %s were given back but the free slabs %s become %s" % (d, gone, free, fr), z.p)
                        elif z.st.get(C, "empty_slabs_total") != (len(cached) - len(gone)) * Z:
                            cx.fail(rule, at(z), "%s: %d of %d slabs were given back but the cache total becomes %s" %
                                    (d, len(gone), len(cached), z.st.get(C, "empty_slabs_total")), z.p)
                        elif bad is None and sorted(gone) != sorted(cached):
                            cx.fail(rule, at(z), "%s: slabs %s stay accessible although the kernel never refused" % (d, [i for i in cached if i not in gone]), z.p)
                        if bad is not None:
                            for i in gone:
                                if bad == "all":
                                    cx.fail(RK, at(z), "%s: slab %d became inaccessible although the kernel refused" % (d, i), z.p)
                        for i in cached:
                            claimed.add((st.slab(a, k, i), Z))
                        for f in ("partial_slabs", "metadata_count", "metadata_allocated"):
                            if z.st.get(C, f) != st.get(C, f):
                                cx.fail(rule, at(z), "%s: %s changes from %s to %s" % (d, f, st.get(C, f), z.st.get(C, f)), z.p)
                    for e, av in calls:
                        if e.name in ("mmap", "mmap64", "mprotect", "pkey_mprotect", "munmap", "madvise", "mremap") and (av[0], av[1]) not in claimed:
                            cx.fail(RR, e.ins, "malloc_trim with %s applies %s to %#x+%s, which is not a cached slab" % (name, e.name, av[0] or 0, av[1]), z.p)
                    cx.obl(RV)
                    if z.ret != (1 if released else 0):
                        cx.fail(RV, at(z), "malloc_trim returns %s after releasing %d slabs (%s)" % (z.ret, released, name), z.p)
    # purging
    ext = cx.opt("CONFIG_EXTENDED_SIZE_CLASSES")
    fields = [f for f in ("quarantine_random", "quarantine_queue") if slots_field(cx, f)]
    held = []
    lens = {f: sm.field(cx, "size_class", f)["size"] // 8 for f in fields}
    rl, ql = cx.opt("SLAB_QUARANTINE_RANDOM_LENGTH"), cx.opt("SLAB_QUARANTINE_QUEUE_LENGTH")
    mxs = 17 if ext else 14
    for a in sorted({0, last}):
        for k in range(1, n):
            S, N, Z = s.geom(k)
            sh = mxs - (S.bit_length() - 1)
            for f in fields:
                L = (rl if f == "quarantine_random" else ql) << sh
                if L > lens[f]:
                    raise ToolError("quarantine longer than its array")
                for j, (i, u) in zip(sorted({0, 1, L // 2, L - 1} & set(range(L))), [(0, 0), (1, N - 1), (2, N // 2), (4, 0)] if f == "quarantine_random" else
                                     [(5, 0), (6, N - 1), (7, 0), (8, 0)]):
                    held.append((a, k, i, u, f, j))
    if fields:
        st = trim_state(cx, [(a, k, [], [], None) for a, k in sorted({x[:2] for x in held})], 0, held)
        want = {}
        for a, k, i, u, f, j in held:
            if ext and st.geom(k)[0] > 16384:
                want[st.slab(a, k, i) + u * st.geom(k)[0]] = (st.geom(k)[0], a, k, f, j)
        ok = {st.slab(a, k, i) + u * st.geom(k)[0]: st.geom(k)[0] for a, k, i, u, f, j in held}
        for z in m.run(st, {0: 0}, st.oracle, sb.over):
            cx.obl(RP, len(held))
            if z.end != "ret":
                cx.fail(RP, at(z), "malloc_trim with quarantined blocks ends in %s" % (z.msg or z.end), z.p)
                continue
            done = {}
            for e, av, r in z.calls():
                if e.name not in sm.SYS:
                    continue
                if e.name == "madvise" and av[2] == 4 and av[0] in ok and av[1] == ok[av[0]] and (av[0] | av[1]) % PAGE == 0:
                    done[av[0]] = done.get(av[0], 0) + 1
                else:
                    cx.fail(RP, e.ins, "malloc_trim applies %s(%s) although only whole quarantined blocks that fill their pages may be purged" %
                            (e.name, ", ".join("?" if x is None else "%#x" % x for x in av)), z.p)
            for p in want:
                if p not in done:
                    S, a, k, f, j = want[p]
                    cx.fail(RP, at(z), "the block of %d bytes at place %d of %s (class %d, arena %d) is not purged" % (S, j, f, k, a), z.p)
            if z.ret != 0:
                cx.fail(RV, at(z), "malloc_trim returns %s although no slab was released" % z.ret, z.p)


PROPS = {
    "C30": {"rule": c30, "configs": ["default", "light", "plain", "bigq", "mte"], "thorough": ["stats", "nozero", "seal", "android"],
            "floor": {"the size covers the request": 1000, "the size is within the slot, without the canary": 1000,
                      "pointers that are not the start of a live slot abort": 1500, "large blocks report their size": 20, "released and interior large pointers abort": 60},
            "technique": "abstract interpretation of the query's extracted decision tree over described allocator states",
            "explain": "malloc_usable_size is carried through described states of every size class in the first and last arena (live, free, quarantined, never used "
                       "slots, interior pointers, rest of a slab) and of the large table (live, released, interior, foreign pointers): live slots get a size between "
                       "the largest request of their class and the slot size less the canary, everything else aborts.",
            "decides": "small blocks: all classes, first/last arena, several slabs and slots; large blocks: sampled sizes"},
    "C31": {"rule": c31, "configs": ["default", "light", "plain", "mte"], "thorough": ["stats", "nozero", "seal", "android"],
            "floor": {"the bound covers the rest of the block": 3000, "free and quarantined slots abort": 1000, "the fast query never aborts": 1000,
                      "the fast query takes no lock and reads immutable state": 8, "large blocks are bounded by their size": 80},
            "technique": "abstract interpretation over described allocator states; effect check of the fast query on every path",
            "explain": "malloc_object_size and malloc_object_size_fast are carried through the same described states with pointers to the start, the interior and the end "
                       "of blocks; the returned bound must cover the rest of the block, free and quarantined slots must abort (slow variant only), and no path of the fast "
                       "variant locks, stores, calls or reads anything but immutable state.",
            "decides": "small blocks: all classes, first/last arena, several slabs, slots and offsets; large blocks: sampled sizes"},
    "C44": {"rule": c44, "configs": ["default", "light", "plain", "seal"], "thorough": ["stats", "nozero", "mte", "label", "bigq"],
            "floor": {"cached slabs become inaccessible and free": 150, "a refused slab stays cached": 400, "the result says whether a slab was released": 100,
                      "only quarantined blocks of extended classes are purged": 20, "an uninitialised allocator is left alone": 4},
            "technique": "abstract interpretation of malloc_trim's extracted decision tree over described slab caches",
            "explain": "malloc_trim is carried through described states (cached, free and quarantined slabs in the first and last arena, refusals of the kernel at each "
                       "position, lowest and highest random draws, quarantined blocks at the ends and middle of the quarantines): exactly the cached slabs whose replacement "
                       "succeeds become inaccessible, leave the cache and its total, and join the free queue; the result says whether any did; purges cover exactly the "
                       "quarantined blocks of extended classes.",
            "decides": "chosen classes of the first, middle and last arena with up to three cached slabs (thorough: every class); the loops over arenas and classes are "
                       "followed completely"},
}
