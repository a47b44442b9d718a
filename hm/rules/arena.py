"""C43: arena numbers of threads and ownership of blocks, on described states of the whole allocator."""
from .. import term as tm, flow, heap as hp, slabs as sb, small as sm
from ..ctx import ToolError
from .query import at, describe

TA = "thread_arena"
MEMPTR = 0x7fff0000


def touched(s, z):
    """bookkeeping addresses of classes met on the way: (event, arena, class)"""
    for k, e, a, v in z.trace:
        if k in ("load", "store", "rmw") and isinstance(a, int):
            o = s.owner(a)
        elif k in ("lock", "unlock") and isinstance(a, list) and a and isinstance(a[0], int):
            o = s.owner(a[0])
        elif k in ("memset", "memcpy") and isinstance(v, int):
            o = s.owner(v)
        else:
            continue
        if o:
            yield e, o


def arena_of(s, p):
    return (p - hp.SLAB) // s.stride if p is not None and hp.SLAB <= p < s.end else None


def allocs(cx, n, al=None):
    """allocation calls asking for n bytes: (function, arguments)"""
    out = [("malloc", {0: n}), ("calloc", {0: 1, 1: n}), ("realloc", {0: 0, 1: n})]
    ex = set(cx.exported())
    for fn, args in (("aligned_alloc", {0: 64, 1: n}), ("memalign", {0: 64, 1: n}), ("posix_memalign", {0: MEMPTR, 1: 64, 2: n})):
        if fn in ex:
            out.append((fn, args))
    for fn in ("valloc", "pvalloc"):
        if fn in ex and n > 2048:
            out.append((fn, {0: n}))
    return out


def set_arena(s, v):
    g = flow.gaddr(TA)
    s.mem[TA, "", g] = v


def key_of(cx, name):
    """how accesses to a global are keyed: (structure, field)"""
    for fn in ["malloc"] + cx.heavy():
        for p in cx.run(fn, cut=True):
            for e in p.ev:
                if e.k in ("load", "store", "rmw") and e.loc is not None and e.loc.base is not None and e.loc.base.op == "g" and e.loc.base.a[0] == name:
                    return e.loc.st, e.loc.f
    return None


def release_calls(cx, p, n):
    out = [("free", {0: p}), ("malloc_usable_size", {0: p}), ("malloc_object_size", {0: p})]
    ex = set(cx.exported())
    for fn, args in (("free_sized", {0: p, 1: n}), ("free_aligned_sized", {0: p, 1: 16, 2: n}), ("realloc", {0: p, 1: n})):
        if fn in ex:
            out.append((fn, args))
    return out


def c43(cx):
    RA, RR, RO, RB = ("every thread gets an arena number in rotation", "a thread's number is kept", "allocations come from the thread's arena",
                      "blocks are handled by the arena and class of their address")
    P = cx.prog(True)
    N = cx.opt("N_ARENA")
    o = sb.Whole(cx)
    s = sb.Slabs(cx)
    tls = [g for g in P.globals.values() if g["tls"]]
    ka = kc = None
    if N > 1:
        g = P.globals.get(TA)
        ka = key_of(cx, TA)
        if g is None or ka is None:
            raise ToolError("no per-thread arena number found")
        cx.obl(RA)
        if not g["tls"]:
            cx.fail(RA, "%s:%d (%s)" % (g["file"], g["line"], TA), "the arena number is not per thread")
        init = g.get("init")
        start = int(init[1]) if init and init[0] == "c" else 0
        cx.obl(RA)
        if start < N:
            cx.fail(RA, "%s:%d (%s)" % (g["file"], g["line"], TA), "threads start with the valid arena number %d, so none is assigned" % start)
        cnt = [x for x in P.globals if "counter" in x]
        # the counter: the global modified when a number is assigned
        cname = None
        for p in cx.run("malloc", cut=True):
            for e in p.ev:
                if e.k == "rmw" and e.loc.base is not None and e.loc.base.op == "g":
                    cname, kc = e.loc.base.a[0], (e.loc.st, e.loc.f)
        if cname is None:
            cx.obl(RA)
            cx.fail(RA, "%s:%d (%s)" % (g["file"], g["line"], TA), "assigning an arena number advances no shared counter atomically")
            return
    GA = flow.gaddr(TA)
    GC = flow.gaddr(cname) if N > 1 else None
    thorough = cx.tier == "thorough"
    ks = range(s.n)
    c = s.canary

    def state(cur, counter=7):
        st = s.copy()
        if N > 1:
            st.mem[ka[0], ka[1], GA] = cur
            st.mem[kc[0], kc[1], GC] = counter
        return st
    cases = []
    if N > 1:
        # the value a new thread starts with, and numbers it must not be mistaken for
        for r in sorted({0, 1, N - 1, N, N + 1, 2 * N, 3 * N + 2, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1}):
            cases.append((start, r))
        for a in range(N):
            cases.append((a, 5))
    else:
        cases.append((0, 5))
    calls = [(n, fn, args) for n in (0, 1, 100, 3000, 16384 - c) for fn, args in allocs(cx, n)]
    for cur, r in cases:
        for n, fn, args in calls if cur < N or thorough else [x for x in calls if x[0] in (0, 100)]:
            st = state(cur, r)
            z = o.one(fn, st, args)
            want = cur if cur < N else r % N
            what = "%s of %d bytes by a thread %s" % (fn, n, "of arena %d" % cur if cur < N else "without an arena, the counter being %d" % r)
            if z.end != "ret":
                cx.obl(RO)
                cx.fail(RO, at(z), "%s ends in %s" % (what, z.msg or z.end), z.p)
                continue
            if N > 1:
                cx.obl(RA if cur >= N else RR)
                got, cn = z.st.mem[ka[0], ka[1], GA], z.st.mem[kc[0], kc[1], GC]
                if cur >= N:
                    if got != want:
                        cx.fail(RA, at(z), "%s leaves the thread with arena %s instead of %d" % (what, got, want), z.p)
                    elif cn != (r + 1) & 0xffffffff:
                        cx.fail(RA, at(z), "%s takes the counter to %s" % (what, cn), z.p)
                elif got != cur or cn != r:
                    cx.fail(RR, at(z), "%s gives the thread arena %s and takes the counter to %s" % (what, got, cn), z.p)
            p = z.ret if fn != "posix_memalign" else z.st.mem.get(("", "", MEMPTR))
            cx.obl(RO)
            if arena_of(s, p) is None and (p or 0) < hp.SLAB:
                cx.fail(RO, at(z), "%s returns %s, which is not a slab block" % (what, p), z.p)
            elif arena_of(s, p) != want:
                cx.fail(RO, at(z), "%s returns a block of arena %s" % (what, arena_of(s, p)), z.p)
            for e, (a, k) in touched(s, z):
                if a != want:
                    cx.fail(RO, e.ins, "%s works on bookkeeping of arena %d" % (what, a), z.p)
    # blocks of one arena handled by a thread of another
    for a in range(N) if N < 9 else sorted({0, 1, N // 2, N - 1}):
        for k in ks:
            S, Nsl, Z = s.geom(k)
            st0 = s.copy()
            for i in range(3):
                st0.add(a, k, i, sorted({0, Nsl - 1, min(1, Nsl - 1)}))
            if Nsl > 3:
                ms = [st0.meta(a, k, i) for i in range(3)]
                st0.set(st0.C(a, k), "partial_slabs", ms[0])
                for i, m in enumerate(ms):
                    st0.put(m, "next", ms[i + 1] if i < 2 else 0)
                    st0.put(m, "prev", ms[i - 1] if i else 0)
            b = (a + 1) % N
            if N > 1:
                st0.mem[ka[0], ka[1], GA] = b
                st0.mem[kc[0], kc[1], GC] = 3
            p = st0.slab(a, k, 1) + (Nsl - 1) * S
            n = S - c if k else 0
            nk = 3 if k > 10 else 20
            todo = [(fn, args, None) for fn, args in release_calls(cx, p, n) if fn != "realloc"]
            todo += [("realloc", {0: p, 1: s.geom(q)[0] - c if q else 0}, q) for q in (nk, 0, 1, s.n - 1) if q != k]
            for fn, args, nk in todo:
                z = o.one(fn, st0, args)
                cx.obl(RB)
                what = "%s of a block of class %d in arena %d by a thread of arena %d" % (fn, k, a, b)
                if z.end != "ret":
                    cx.fail(RB, at(z), "%s ends in %s" % (what, z.msg or z.end), z.p)
                    continue
                ok = {(a, k)}
                if fn == "realloc":
                    ok.add((b, nk))
                    if arena_of(s, z.ret) != b:
                        cx.fail(RB, at(z), "%s moves it to arena %s" % (what, arena_of(s, z.ret)), z.p)
                seen = set()
                for e, x in touched(s, z):
                    seen.add(x)
                    if x not in ok:
                        cx.fail(RB, e.ins, "%s works on class %d of arena %d" % (what, x[1], x[0]), z.p)
                if (a, k) not in seen:
                    cx.fail(RB, at(z), "%s never reaches the bookkeeping of the block" % what, z.p)


PROPS = {
    "C43": {"rule": c43, "configs": ["default", "plain", "stats", "light"], "thorough": ["seal", "nozero", "bigq"],
            "floor": {"every thread gets an arena number in rotation": 80, "a thread's number is kept": 100, "allocations come from the thread's arena": 150,
                      "blocks are handled by the arena and class of their address": 300},
            "technique": "abstract interpretation of the entry points' decision trees over described thread and slab states; address-ownership of every bookkeeping access",
            "explain": "Each allocation function is carried through states in which the thread has no arena yet (with the rotation counter at and around multiples of the "
                       "number of arenas and at the ends of its range) or any valid one; the number assigned, the counter and the arena owning every bookkeeping access and "
                       "the returned block are compared. Every function taking a block is carried through states where the block belongs to another arena than the thread: "
                       "all bookkeeping touched must be that of the block's own arena and class.",
            "decides": "all arenas; sampled counters, request sizes and (quick) classes"},
}
