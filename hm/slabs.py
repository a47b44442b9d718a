"""Described states of the slab bookkeeping: every class of every arena, with chosen slabs and slots."""
from . import term as tm, flow, heap as hp, small as sm
from .ctx import ToolError
from .frontend import REPO

CB, IB = 0x400000000, 0x40000000000
M64 = (1 << 64) - 1


class Slabs(hp.Heap):
    def __init__(s, cx, total=8, starts=None, gap=0x5000):
        super().__init__(cx, total)
        from .rules import resize
        P = cx.prog(True)
        s.csz = P.structs["size_class"]["size"]
        s.msz = P.structs["slab_metadata"]["size"]
        s.sc, s.sl = sm.table(cx, "size_classes", True), sm.table(cx, "size_class_slots", True)
        s.n = len(s.sc)
        s.narena = cx.opt("N_ARENA")
        s.starts = resize.class_starts(cx)
        s.stride = arena_stride(cx)
        s.gap = gap
        ro = flow.gaddr("ro")
        end = hp.SLAB + s.stride * s.narena
        s.mem["ro", "slab_region_end", ro] = end
        s.mem["ro", "is_memtag_disabled", ro] = 0
        s.end = end
        g = {m["name"]: m["off"] for m in P.globals["ro"].get("members", [])}
        s.fields = {m["name"]: m for m in P.structs["size_class"]["members"]}
        s.live = {}
        s.fill = {}     # (field, (arena, class)) -> initial value of every element of an array
        s.canary = sm.canary_size(cx)
        for a in range(s.narena):
            s.mem["ro", "size_class_metadata", ro + 8 * a] = CB + a * s.csz * s.n
            for k in range(s.n):
                C = s.C(a, k)
                s.set(C, "class_region_start", s.region(a, k))
                s.set(C, "slab_info", IB + ((a * s.n + k) << 30))
                s.set(C, "metadata_count", 0)
                s.set(C, "metadata_allocated", 42)
                for f in ("partial_slabs", "empty_slabs", "free_slabs_head", "free_slabs_tail", "empty_slabs_total", "metadata_count_unguarded",
                          "quarantine_queue_index"):
                    s.set(C, f, 0)
        if ("ro", "region_allocator", ro) in s.mem and "region_allocator" in g:
            s.mem["ro", "region_allocator", ro] = hp.RA
        for f in ("slab_region_start", "slab_region_end"):
            if f in g:
                s.mem["ro", f, ro] = hp.SLAB if f.endswith("start") else end
        if "metadata_pkey" in g:
            s.mem["ro", "metadata_pkey", ro] = 5
        if "regions" in g:
            s.mem["ro", "regions", ro] = hp.TA
            s.mem["ro", "regions", ro + 8] = hp.TB

    def copy(s):
        n = super().copy()
        n.live = dict(s.live)
        n.fill = dict(s.fill)
        return n

    def C(s, a, k):
        return CB + (a * s.n + k) * s.csz

    def region(s, a, k):
        return hp.SLAB + s.stride * a + s.starts[k] + s.gap * (1 + (k + a) % 3)

    def geom(s, k):
        S, N = s.sc[k] or 16, s.sl[k]
        return S, N, (S * N + 4095) // 4096 * 4096

    def set(s, C, f, v, i=0):
        if f in s.fields:
            s.mem["size_class", f, C + 8 * i] = v

    def get(s, C, f, i=0):
        return s.mem.get(("size_class", f, C + 8 * i))

    def meta(s, a, k, i):
        return IB + ((a * s.n + k) << 30) + i * s.msz

    def slab(s, a, k, i):
        return s.region(a, k) + i * s.geom(k)[2]

    def put(s, M, f, v, j=0):
        s.mem["slab_metadata", f, M + 8 * j] = v

    def add(s, a, k, i, used=(), quarantined=()):
        """slab i of a class with these slots in use (and in quarantine)"""
        M = s.meta(a, k, i)
        for j in range(4):
            s.put(M, "bitmap", sum(1 << (u % 64) for u in used if u // 64 == j), j)
            s.put(M, "quarantine_bitmap", sum(1 << (u % 64) for u in quarantined if u // 64 == j), j)
        s.put(M, "count", len(used))
        s.put(M, "next", 0)
        s.put(M, "prev", 0)
        if s.canary:
            s.put(M, "canary_value", s.CANARY)
        C = s.C(a, k)
        s.set(C, "metadata_count", max(s.get(C, "metadata_count"), i + 1))
        for u in used:
            if u not in quarantined:
                s.live[s.slab(a, k, i) + u * s.geom(k)[0]] = (a, k, i, u)
        return M

    CANARY = 0x1122334455667700

    def raw(s, a, w):
        """user memory: zero, with intact canaries at the ends of slots"""
        a &= (1 << 56) - 1
        if not s.canary or not hp.SLAB <= a < s.end:
            return 0
        ar, off = divmod(a - hp.SLAB, s.stride)
        k = off // s.starts[1]
        if k >= s.n or k == 0:
            return 0
        S, N, Z = s.geom(k)
        x = (a - s.region(ar, k)) % Z % S
        if x < S - s.canary:
            return 0
        return s.CANARY >> 8 * (x - (S - s.canary)) & (1 << (w or 64)) - 1

    def oracle(s, e, av, st, tr):
        if e.name == "get_random_u64":
            return s.CANARY | 0x5a
        return super().oracle(e, av, st, tr)

    def chain(s, a, k, head, ids, tail=None):
        ms = [s.meta(a, k, i) for i in ids]
        C = s.C(a, k)
        s.set(C, head, ms[0] if ms else 0)
        if tail:
            s.set(C, tail, ms[-1] if ms else 0)
        for j, m in enumerate(ms):
            s.put(m, "next", ms[j + 1] if j + 1 < len(ms) else 0)

    def read(s, a, k, head):
        out = []
        m = s.get(s.C(a, k), head)
        base = s.meta(a, k, 0)
        while m:
            if not isinstance(m, int) or m < base or (m - base) % s.msz or len(out) > 50 or (m - base) // s.msz in out:
                return None
            out.append((m - base) // s.msz)
            m = s.mem.get(("slab_metadata", "next", m))
        return out if m == 0 else None

    def owner(s, addr):
        """(arena, class) whose bookkeeping an address belongs to"""
        if CB <= addr < CB + s.narena * s.n * s.csz:
            return divmod((addr - CB) // s.csz, s.n)
        if IB <= addr < IB + (s.narena * s.n << 30):
            return divmod((addr - IB) >> 30, s.n)
        return None

    def dflt(s, st, f, a):
        if st == "size_class" and s.fill:
            v = s.fill.get((f, s.owner(a)))
            if v is not None:
                return v
        if (st, f) in (("size_class", "quarantine_random"), ("size_class", "quarantine_queue"), ("size_class", "free_slabs_quarantine")):
            return 0
        if st == "slab_metadata" and f in ("bitmap", "quarantine_bitmap", "count", "next", "prev"):
            return 0            # not used yet: pages as the kernel provides them
        return super().dflt(st, f, a)


def over(t, s, f):
    """quotients by a class's dividers"""
    if t.op == "libdiv":
        x, d = tm._value(t.a[0], f, {}), tm._value(t.a[1], f, {})
        o = s.owner(d) if d is not None else None
        if o is None or x is None:
            return None
        off = (d - CB) % s.csz
        S, N, Z = s.geom(o[1])
        if off == s.fields["size_divisor"]["off"]:
            return (x & 0xffffffff) // S
        if off == s.fields["slab_size_divisor"]["off"]:
            return x // Z
    return None


def arena_stride(cx):
    """bytes of the slab region that belong to one arena"""
    if getattr(cx, "_astride", None):
        return cx._astride
    if cx.opt("N_ARENA") == 1:
        from .rules import resize
        st = resize.class_starts(cx)
        cx._astride = st[1] * len(st)
        return cx._astride
    # the divisor applied to the offset of an address
    ds = set()
    for p in cx.run("malloc_usable_size", cut=False):
        for e in p.ev:
            if e.k == "load" and e.loc.f == "size_class_metadata" and e.loc.idx is not None:
                for x in tm.subterms(e.loc.idx):
                    if x.op == "udiv" and x.a[1].op == "const":
                        ds.add(x.a[1].a[0])
        if ds:
            break
    if len(ds) != 1:
        raise ToolError("the arena of an address could not be evaluated")
    cx._astride = ds.pop()
    return cx._astride


class Whole:
    """the whole library on described states: functions that lock for themselves are followed into"""

    def __init__(o, cx, limit=40000, forks=60000):
        o.cx, o.limit, o.forks = cx, limit, forks
        o.heavy = set(cx.heavy())
        o.m = {}
        o.watch = None

    def machine(o, fn):
        if fn not in o.m:
            o.m[fn] = flow.Machine(o.cx.run(fn, cut=True), limit=o.limit, forks=o.forks)
        return o.m[fn]

    def go(o, fn, st, args):
        st = st.copy()
        st.ncall = {}
        return o.machine(fn).run(st, args, o.deep, over)

    def one(o, fn, st, args):
        """the only way through, or the only one that returns"""
        zs = o.go(fn, st, args)
        r = [z for z in zs if z.end == "ret"]
        if len(r) == 1:
            return r[0]
        if not r and zs:
            return zs[0]
        raise ToolError("%s: %d ways through in a described state" % (fn, len(zs)))

    def deep(o, e, av, st, tr):
        if e.name not in o.heavy:
            return st.oracle(e, av, st, tr)
        outs = o.machine(e.name).run(st, dict(enumerate(av)), o.deep, over)
        rets = [x for x in outs if x.end == "ret"]
        if len(rets) > 1 or not outs:
            raise ToolError("%s: %d ways through in a described state" % (e.name, len(outs)))
        if not rets:
            raise flow.Halt(outs[0])
        x = rets[0]
        st.__dict__.update(x.st.__dict__)
        tr.append(("enter", e, av, None))
        tr.extend(x.trace)
        tr.append(("leave", e, av, x.ret))
        return x.ret
