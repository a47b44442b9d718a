"""C32: statistics, on described states of the whole allocator and on every path of allocation and release."""
from .. import term as tm, flow, heap as hp, slabs as sb, small as sm, large as lg
from ..ctx import ToolError
from ..walk import Space
from .arena import MEMPTR, allocs
from .query import at, free_ids, trim_state
from .big import PAGE

FIELDS = ("allocated", "nmalloc", "ndalloc", "slab_allocated")
OUT = 0x7fff1000


def popcount(x):
    return bin(x).count("1")


def live_slots(s, a, k):
    """slots handed out to callers, from the bitmaps"""
    base = s.meta(a, k, 0)
    n = 0
    for (st, f, x), v in s.mem.items():
        if st == "slab_metadata" and base <= x < base + (1 << 30):
            if f == "bitmap":
                n = None if v is None or n is None else n + popcount(v)
            elif f == "quarantine_bitmap":
                n = None if v is None or n is None else n - popcount(v)
    return n


def slabs_held(cx, s, a, k, s0=None):
    """slabs that count as allocated: created and not free (a new slab may leave a guard location behind it)"""
    fr = free_ids(s, a, k)
    n = s.get(s.C(a, k), "metadata_count")
    if s0 is not None and n is not None:
        n0 = s0.get(s0.C(a, k), "metadata_count")
        n = n0 + (n > n0)
    return None if fr is None or n is None else n - len(fr)


def measure(cx, s, a, k, s0=None):
    return live_slots(s, a, k), slabs_held(cx, s, a, k, s0)


def changed(st, z):
    """classes whose bookkeeping an outcome wrote"""
    out = set()
    for kk, e, a, v in z.trace:
        if kk in ("store", "rmw") and isinstance(a, int):
            o = st.owner(a)
            if o:
                out.add(o)
    return out


def start(cx, s=None):
    s = s or sb.Slabs(cx, 64)
    s.pages = Space()
    for a in range(s.narena):
        for k in range(s.n):
            for f in FIELDS:
                s.set(s.C(a, k), f, 1 << 50)
    s.mem["region_allocator", "allocated", hp.RA] = 1 << 50
    s.mem["ro", "is_memtag_disabled", flow.gaddr("ro")] = 1
    return s


def configure(cx, s, a, k, kind):
    """a class with: nothing; one partially used slab; only cached slabs; only free slabs"""
    S, N, Z = s.geom(k)
    C = s.C(a, k)
    if kind == "partial":
        if N < 2:
            return False
        s.add(a, k, 0, [0])
        s.add(a, k, 1, range(N - 1))
        s.set(C, "partial_slabs", s.meta(a, k, 1))
        s.put(s.meta(a, k, 1), "next", s.meta(a, k, 0))
        s.put(s.meta(a, k, 0), "prev", s.meta(a, k, 1))
    elif kind == "cached":
        if k == 0:
            return False
        s.add(a, k, 0, range(N))
        s.add(a, k, 1)
        s.add(a, k, 2)
        s.chain(a, k, "empty_slabs", [2, 1])
        s.set(C, "empty_slabs_total", 2 * Z)
    elif kind == "free":
        s.add(a, k, 0, range(N))
        s.add(a, k, 1)
        s.add(a, k, 2)
        s.chain(a, k, "free_slabs_head", [2, 1], "free_slabs_tail")
    return True


def account(cx, R, st, z, what, arenas=None):
    """the counters moved as the structures did"""
    moved = changed(st, z)
    for a, k in sorted(moved):
        S, N, Z = st.geom(k)
        C = st.C(a, k)
        l0, h0 = measure(cx, st, a, k)
        l1, h1 = measure(cx, z.st, a, k, st)
        d = {f: None if z.st.get(C, f) is None else (z.st.get(C, f) - st.get(C, f) + (1 << 63)) % (1 << 64) - (1 << 63) for f in FIELDS}
        cx.obl(R)
        if None in (l0, l1, h0, h1):
            cx.fail(R, at(z), "%s: the slabs of class %d cannot be followed" % (what, k), z.p)
            continue
        if d["allocated"] != (l1 - l0) * S:
            cx.fail(R, at(z), "%s: %d blocks of %d bytes were added but the allocated total changes by %s" % (what, l1 - l0, S, d["allocated"]), z.p)
        if d["nmalloc"] is None or d["ndalloc"] is None or d["nmalloc"] - d["ndalloc"] != l1 - l0 or d["nmalloc"] not in (0, 1) or d["ndalloc"] not in (0, 1):
            cx.fail(R, at(z), "%s: %d blocks were added but allocations change by %s and deallocations by %s" % (what, l1 - l0, d["nmalloc"], d["ndalloc"]), z.p)
        if d["slab_allocated"] != (h1 - h0) * Z:
            cx.fail(R, at(z), "%s: %d slabs of %d bytes were added but the slab total changes by %s" % (what, h1 - h0, Z, d["slab_allocated"]), z.p)
    t0, t1 = st.table(), z.st.table()
    a0, a1 = st.ra("allocated"), z.st.ra("allocated")
    cx.obl(R)
    if t1 is None or any(x[1] is None for x in t1):
        cx.fail(R, at(z), "%s: the region table cannot be followed" % what, z.p)
    elif a1 is None or a1 - a0 != sum(x[1] for x in t1) - sum(x[1] for x in t0):
        cx.fail(R, at(z), "%s: large blocks change by %d bytes but their total by %s" %
                (what, sum(x[1] for x in t1) - sum(x[1] for x in t0), None if a1 is None else a1 - a0), z.p)


def c32(cx):
    RA, RF, RL, RM, RT, RR = ("a slab allocation is counted once", "a slab release is counted once", "large allocation and release are counted once",
                              "resizing counts the difference", "trimming counts the slabs given back", "reports sum every class and large total once")
    o = sb.Whole(cx)
    c = sm.canary_size(cx)
    base = start(cx)
    last = base.narena - 1
    # -- slab allocation in every class and situation
    for k in range(base.n):
        lo, hi = sm.bracket(cx, k)
        for kind in ("nothing", "partial", "cached", "free"):
            st0 = base.copy()
            if not configure(cx, st0, 0, k, kind):
                continue
            for fails in ((), ("mmap",), ("mprotect", "pkey_mprotect")) if kind in ("nothing", "free") else ((),):
                st = st0.copy()
                st.fails = set(fails)
                if kind == "nothing" and fails:
                    st.set(st.C(0, k), "metadata_allocated", 0)     # bookkeeping must grow first
                what = "malloc of %d bytes from class %d with %s%s" % (hi, k, {"nothing": "no slab"}.get(kind, kind + " slabs"), ", the kernel refusing" if fails else "")
                zs = [z for z in o.go("malloc", st, {0: hi}) if z.end == "ret"]
                if not zs:
                    raise ToolError(what + ": no way through")
                for z in zs:
                    account(cx, RA, st, z, what)
                    cx.obl(RA)
                    d = z.st.get(st.C(0, k), "nmalloc") - st.get(st.C(0, k), "nmalloc") if z.st.get(st.C(0, k), "nmalloc") is not None else None
                    if d != (1 if z.ret else 0):
                        cx.fail(RA, at(z), "%s returns %s and counts %s allocations" % (what, z.ret, d), z.p)
    for n in (0, 100, 5000):
        for fn, args in allocs(cx, n):
            st = base.copy()
            for z in o.go(fn, st, args):
                if z.end == "ret":
                    account(cx, RA, st, z, "%s of %d bytes" % (fn, n))
                    cx.obl(RA)
                    if sum((z.st.get(st.C(a, k), "nmalloc") or 0) - (1 << 50) for a, k in changed(st, z)) != 1:
                        cx.fail(RA, at(z), "%s of %d bytes does not count one allocation" % (fn, n), z.p)
    # -- release in every class
    qf = [f for f in ("quarantine_random", "quarantine_queue") if sm.has_field(cx, "size_class", f)]
    for k in range(base.n):
        S, N, Z = base.geom(k)
        for a in sorted({0, last}):
            for over_limit in (0, 1):
                for fails in ((), ("mmap",)):
                    st = base.copy()
                    C = st.C(a, k)
                    # slab 0: the block released; slab 1: what leaves the random stage; slab 2: what leaves the queue
                    held = [1, 2] if qf and k else []
                    for i in (0, 1, 2):
                        st.add(a, k, i, [0, N - 1] if i == 0 and N > 2 and over_limit == 0 else [0], [0] if i in held and sm.has_field(cx, "slab_metadata", "quarantine_bitmap") else [])
                    for f, i in zip(qf, held if len(qf) > 1 else [2]):
                        st.fill[f, (a, k)] = st.slab(a, k, i)
                    if N > 1:
                        ids = [0, 1, 2]
                        for j, i in enumerate(ids):
                            st.put(st.meta(a, k, i), "next", st.meta(a, k, ids[j + 1]) if j < 2 else 0)
                            st.put(st.meta(a, k, i), "prev", st.meta(a, k, ids[j - 1]) if j else 0)
                        st.set(C, "partial_slabs", st.meta(a, k, 0))
                    st.set(C, "empty_slabs_total", (1 << 24) if over_limit else 0)
                    st.fails = set(fails)
                    what = "free of a block of class %d" % k
                    zs = [z for z in o.go("free", st, {0: st.slab(a, k, 0)}) if z.end == "ret"]
                    if not zs:
                        raise ToolError(what + ": no way through")
                    for z in zs:
                        cx.obl(RF)
                        d = [None if z.st.get(C, f) is None else z.st.get(C, f) - st.get(C, f) for f in FIELDS]
                        h0, h1 = slabs_held(cx, st, a, k), slabs_held(cx, z.st, a, k)
                        if d[0] != -S or d[1] != 0 or d[2] != 1:
                            cx.fail(RF, at(z), "%s changes the allocated total by %s, allocations by %s and deallocations by %s" % (what, d[0], d[1], d[2]), z.p)
                        if None in (h0, h1) or d[3] != (h1 - h0) * Z:
                            cx.fail(RF, at(z), "%s: %s slabs of %d bytes were given back but the slab total changes by %s" %
                                    (what, None if None in (h0, h1) else h0 - h1, Z, d[3]), z.p)
                        for x in changed(st, z) - {(a, k)}:
                            cx.fail(RF, at(z), "%s writes to class %d of arena %d" % (what, x[1], x[0]), z.p)
    # -- large blocks
    top = base.sc[-1]
    sizes = [top + 1, top + PAGE, 3 * top + 17, (1 << 21) - 7, (1 << 25) + 1, 40 << 20, 5 << 30]
    live = []
    st = base.copy()
    at0 = 0x7100000000

    def step(R, st, fn, args, what, fails=()):
        s2 = st.copy()
        s2.fails = set(fails)
        zs = [z for z in o.go(fn, s2, args) if z.end == "ret"]
        if not zs:
            raise ToolError(what + ": no way through")
        for z in zs:
            account(cx, R, st, z, what)
        z = zs[0].st.copy()
        z.fails = set()
        return z, zs[0].ret
    cur = st
    for n in sizes:
        for fn, args in [("malloc", {0: n}), ("calloc", {0: 1, 1: n}), ("posix_memalign", {0: MEMPTR, 1: 1 << 20, 2: n}), ("aligned_alloc", {0: 1 << 14, 1: n})]:
            if fn not in cx.exported():
                continue
            cur.maps = [at0]
            step(RL, cur, fn, args, "%s of %d bytes, mapping refused" % (fn, n), ("mmap",))
            cur.maps = [at0]
            step(RL, cur, fn, args, "%s of %d bytes, protection refused" % (fn, n), ("mprotect", "pkey_mprotect"))
            for nth in (0, 1, 2):
                cur.maps = [at0]
                step(RL, cur, fn, args, "%s of %d bytes, the %dth mapping refused" % (fn, n, nth), (("mmap", nth),))
            cur.maps = [at0]
            cur, r = step(RL, cur, fn, args, "%s of %d bytes" % (fn, n))
            p = cur.mem.get(("", "", MEMPTR)) if fn == "posix_memalign" else r
            if not p:
                raise ToolError("%s of %d bytes fails in a described state" % (fn, n))
            live.append((p, n))
            at0 += 0x100000000000 >> 4
    full = cur
    news = [top + 1, top + PAGE * 3, (1 << 21), 3 << 20, (32 << 20), 40 << 20, 48 << 20, 1 << 30, 100]
    for p, n in live[::3] + live[1:2]:
        for m in news:
            for fails in ((), ("mmap",), ("mremap",), ("munmap",), ("mprotect", "pkey_mprotect"), (("mmap", 0),), (("mmap", 1),), (("mmap", 2),)):
                cur = full.copy()
                cur.maps = [0x9000000000]
                step(RM, cur, "realloc", {0: p, 1: m}, "realloc of %d to %d bytes%s" % (n, m, ", refusing %s" % (fails,) if fails else ""), fails)
    for n in (100, 5000):
        st = full.copy()
        z = o.one("malloc", st, {0: n})
        for m in (1, n, 2 * n, 9000, top + 5, 1 << 20):
            for fails in ((), ("mmap",)):
                cur = z.st.copy()
                cur.maps = [0x9000000000]
                step(RM, cur, "realloc", {0: z.ret, 1: m}, "realloc of a slab block of %d to %d bytes" % (n, m), fails)
    cur = full
    for p, n in live:
        for fails in (("mmap",), ("munmap",), ("madvise",), ()):
            nx, r = step(RL, cur, "free", {0: p}, "free of a large block of %d bytes%s" % (n, ", refusing %s" % (fails,) if fails else ""), fails)
        cur = nx
    # -- trimming
    m = flow.Machine(cx.run("malloc_trim", cut=False), limit=200000, forks=30000)
    for bad in (None, 0, 1, "all"):
        st = trim_state(cx, [(a, k, [3, 0, 1], [], None) for a in sorted({0, last}) for k in range(1, base.n)], 0)
        start(cx, st)
        first = {st.slab(a, k, sl): i for a in range(base.narena) for k in range(1, base.n) for i, sl in enumerate([3, 0, 1])}
        if bad is not None:
            st.failif = lambda nm, av: nm in ("mmap", "mmap64") and (bad == "all" or first.get(av[0]) == bad)
        for z in m.run(st, {0: 0}, st.oracle, sb.over):
            if z.end == "ret":
                account(cx, RT, st, z, "malloc_trim")
    reports(cx, o, RR)


def reports(cx, o, RR):
    from .. import frontend as fe
    P = cx.prog(True)
    s = sb.Slabs(cx)
    ra = 5 << 27
    s.mem["region_allocator", "allocated", hp.RA] = ra
    val = {}
    for a in range(s.narena):
        for k in range(s.n):
            for j, f in enumerate(FIELDS):
                val[a, k, f] = (a + 1) * 1000000 + 1000 * k + 7 * j * j + 1
                s.set(s.C(a, k), f, val[a, k, f])
    sd = s.__dict__["dflt"] if "dflt" in s.__dict__ else s.dflt
    s.default = lambda st, f, a: 0 if str(st).startswith("mallinfo") else sd(st, f, a)
    s.__dict__["dflt"] = s.default
    tot = {f: sum(val[a, k, f] for a in range(s.narena) for k in range(s.n)) for f in FIELDS}
    ex = {x[2:] if x.startswith("h_") else x: x for x in cx.exported()}
    android = "mallinfo_arena_info" in ex

    def want(fn, args, expect, what):
        for z in o.go(ex[fn], s, args):
            cx.obl(RR, len(expect))
            if z.end != "ret":
                cx.fail(RR, at(z), "%s ends in %s" % (what, z.msg or z.end), z.p)
                continue
            got = {f: v for (st, f, a), v in z.st.mem.items() if str(st).startswith("mallinfo")}
            cleared = any(k == "memset" and isinstance(a, list) and a and a[0] == OUT and a[1] == 0 for k, e, a, v in z.trace)
            for f, v in expect.items():
                g = got.get(f, 0 if cleared else None)
                if g is None or (g - v) % (1 << 32):
                    cx.fail(RR, at(z), "%s reports %s = %s instead of %d" % (what, f, g, v), z.p)
            for f in got:
                if f not in expect and got[f] != 0:
                    cx.fail(RR, at(z), "%s reports %s = %s" % (what, f, got[f]), z.p)
    for fn in ("mallinfo2", "mallinfo"):
        if fn in ex and not (fn == "mallinfo" and "mallinfo2" in ex):
            h, u = tot["slab_allocated"] + ra, tot["allocated"] + ra
            want(fn, {0: OUT}, {"hblkhd": h, "uordblks": u, "fordblks": h - u, "usmblks": h}, fn)
    if android:
        for a in range(s.narena):
            want("mallinfo_arena_info", {0: OUT, 1: a}, {"hblkhd": sum(val[a, k, "slab_allocated"] for k in range(s.n)),
                                                        "fsmblks": sum(val[a, k, "allocated"] for k in range(s.n))}, "mallinfo_arena_info of arena %d" % a)
            for k in range(s.n):
                want("mallinfo_bin_info", {0: OUT, 1: a, 2: k}, {"ordblks": val[a, k, "allocated"], "uordblks": val[a, k, "nmalloc"],
                                                                "fordblks": val[a, k, "ndalloc"]}, "mallinfo_bin_info of class %d in arena %d" % (k, a))
            want("mallinfo_bin_info", {0: OUT, 1: a, 2: s.n}, {}, "mallinfo_bin_info of a class that does not exist")
        want("mallinfo_arena_info", {0: OUT, 1: s.narena}, {"hblkhd": ra, "uordblks": ra}, "mallinfo_arena_info of the large allocations")
        want("mallinfo_arena_info", {0: OUT, 1: s.narena + 1}, {}, "mallinfo_arena_info of an arena that does not exist")
        for fn, v in (("mallinfo_narenas", s.narena + 1), ("mallinfo_nbins", s.n)):
            for z in o.go(ex[fn], s, {}):
                cx.obl(RR)
                if z.ret != v:
                    cx.fail(RR, at(z), "%s returns %s" % (fn, z.ret), z.p)
    if "malloc_info" in ex:
        strs = {flow.gaddr(x["name"]): bytes.fromhex(x["init"][1]).rstrip(b"\0").decode("latin1") for x in P.globals.values()
                if x.get("init") and x["init"][0] == "str"}
        import re
        for z in o.go(ex["malloc_info"], s, {0: 0, 1: 77}):
            if z.end != "ret" or z.ret != 0:
                cx.obl(RR)
                cx.fail(RR, at(z), "malloc_info %s" % (z.msg or z.ret), z.p)
                continue
            seen, arena, large = {}, None, []
            for e, av, r in z.calls():
                if e.name not in ("fprintf", "fputs", "fputc", "fwrite", "vfprintf", "putc"):
                    continue
                fmt = strs.get(av[1] if e.name == "fprintf" else av[0])
                if e.name != "fprintf" or fmt is None:
                    continue
                # name of the tag or attribute each number is printed into
                names = re.findall(r'(?:<(\w+)>|(\w+)="?)%(?:[lzhj]*)[ud]', fmt)
                nums = dict(zip([(x or y) + ("@" if y else "") for x, y in names], av[2:]))
                if "<heap" in fmt:
                    arena = nums.get("nr@")
                if "allocated_large" in nums:
                    large.append((arena, nums["allocated_large"]))
                if "nmalloc" in nums:
                    seen.setdefault((arena, nums.get("nr@")), []).append(nums)
            for a in range(s.narena):
                for k in range(s.n):
                    cx.obl(RR)
                    x = seen.pop((a, k), [])
                    if len(x) != 1:
                        cx.fail(RR, at(z), "malloc_info lists class %d of arena %d %d times" % (k, a, len(x)), z.p)
                    elif any(x[0].get(f) != val[a, k, f] for f in FIELDS) or x[0].get("size@") != s.sc[k]:
                        cx.fail(RR, at(z), "malloc_info reports %s for class %d of arena %d" % (x[0], k, a), z.p)
            cx.obl(RR)
            if seen:
                cx.fail(RR, at(z), "malloc_info lists classes that do not exist: %s" % sorted(seen)[:4], z.p)
            if large != [(s.narena, ra)]:
                cx.fail(RR, at(z), "malloc_info reports the large allocations as %s" % (large,), z.p)


PROPS = {
    "C32": {"rule": c32, "configs": ["plain", "stats", "seal", "android"],
            "floor": {"a slab allocation is counted once": 1500, "a slab release is counted once": 1000, "large allocation and release are counted once": 500,
                      "resizing counts the difference": 500, "trimming counts the slabs given back": 500, "reports sum every class and large total once": 500},
            "technique": "abstract interpretation of the entry points' decision trees over described states; counters compared with the bookkeeping they describe",
            "explain": "Every allocation, release, resize and trim is carried through described states of every class (no slab, partial, cached or free slabs, full "
                       "quarantines) and of the large table, with and without refusals of the kernel at each request: the change of each counter must equal the change of "
                       "what it counts (blocks handed out, slabs held, bytes in the region table). The reporting functions are carried through a state with a distinct value in every counter.",
            "decides": "all classes, first/last arena; sampled large sizes; refusals one request at a time"},
}
