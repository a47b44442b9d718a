"""Described states of the large allocation bookkeeping: table, quarantine, page mappings; and the operations on them."""
from . import term as tm, flow, walk, large as lg, small as sm
from .ctx import ToolError

RA, TA, TB = 0x10000000, 0x20000000000, 0x30000000000
SLAB, SLABEND = 0x600000000000, 0x6f0000000000
PAGE = 4096
M64 = (1 << 64) - 1


class Heap(flow.State):
    def __init__(s, cx, total=8):
        super().__init__()
        s.cx = cx
        P = cx.prog(True)
        s.esz = P.structs["region_metadata"]["size"]
        st = P.structs.get("allocator_state")
        m = {x["name"]: x for x in st["members"]}
        s.cap = m["regions_a"]["size"] // s.esz if "regions_a" in m else 1 << 18
        s.total0 = total
        ro = flow.gaddr("ro")
        s.mem = {("ro", "region_allocator", ro): RA, ("ro", "slab_region_start", ro): SLAB, ("ro", "slab_region_end", ro): SLABEND,
                 ("ro", "regions", ro): TA, ("ro", "regions", ro + 8): TB,
                 ("region_allocator", "regions", RA): TA, ("region_allocator", "total", RA): total, ("region_allocator", "free", RA): total,
                 ("region_allocator", "quarantine_queue_index", RA): 0, ("ro", "metadata_pkey", ro): M64 & 0xffffffff}
        s.fails = set()         # kernel calls that fail: names, or (name, number of the call)
        s.enomem = True
        s.ncall = {}
        s.maps = []             # addresses handed out by the kernel, in order
        s.frac = 0
        s.rw = [(TA, TA + total * s.esz)]
        s.pages = None
        s.stale = False
        s.default = s.dflt

    def copy(s):
        n = super().copy()
        n.dflt = s.__dict__["dflt"] if "dflt" in s.__dict__ else n.dflt
        n.ncall, n.maps, n.rw = dict(s.ncall), list(s.maps), list(s.rw)
        n.default = n.dflt
        if s.pages is not None:
            n.pages = walk.Space()
            n.pages.r = list(s.pages.r)
        return n

    foreign = ()

    def dflt(s, st, f, a):
        if st == "region_metadata":
            return 0
        if st == "quarantine_info":
            return 0
        if (st, f) == ("region_allocator", "quarantine_random") or (st, f) == ("region_allocator", "quarantine_queue"):
            return 0
        if st == "thread_arena" or f == "thread_arena":
            return 0
        return None

    # -- the table as the code sees it
    def table(s):
        base, total = s.mem["region_allocator", "regions", RA], s.mem["region_allocator", "total", RA]
        if not isinstance(base, int) or not isinstance(total, int) or total > s.cap:
            return None
        out = []
        for (st, f, a), v in s.mem.items():
            if st == "region_metadata" and f == "p" and v and base <= a < base + total * s.esz and (a - base) % s.esz == 0:
                out.append((v, s.mem.get((st, "size", a)), s.mem.get((st, "guard_size", a))))
        return sorted(out, key=repr)

    def ra(s, f):
        return s.mem["region_allocator", f, RA]

    # -- kernel and generator results
    def oracle(s, e, av, st, tr):
        n = e.name
        if n in sm.SYS:
            i = st.ncall.get(n, 0)
            st.ncall[n] = i + 1
            bad = n in st.fails or (n, i) in st.fails
            if callable(getattr(st, "failif", None)):
                bad = bad or st.failif(n, av)
            if st.pages is not None and av[0] and len(av) > 1 and av[1] and None in st.pages.prots(av[0], av[0] + (av[1] + PAGE - 1) // PAGE * PAGE):
                # addresses given back earlier belong to whoever mapped them since
                st.foreign = st.foreign + ((e, av[0], av[1]),)
            if n in ("mmap", "mmap64"):
                if bad:
                    return M64
                fixed = av[0] not in (0, None)
                r = av[0] if fixed else (st.maps.pop(0) if st.maps else 0x7000000000)
                st.remap(r, av[1], av[2])
                if st.pages is not None and av[1]:
                    st.pages.set(r, r + (av[1] + PAGE - 1) // PAGE * PAGE, av[2])
                return r
            if n == "mremap":
                if bad:
                    return M64
                fx = e.args and len(av) > 4 and av[4] is not None
                r = av[4] if fx else av[0]
                if st.pages is not None and None not in (av[0], av[1], av[2], r):
                    st.pages.set(av[0], av[0] + (av[1] + PAGE - 1) // PAGE * PAGE, None)
                    st.pages.set(r, r + (av[2] + PAGE - 1) // PAGE * PAGE, 3)
                return r
            w = e.val.w if e.val is not None else 32
            if bad:
                return (1 << w) - 1
            if n == "madvise":
                st.remap(av[0], av[1], None)
            if n == "munmap" and st.pages is not None and av[0] is not None and av[1]:
                st.pages.set(av[0], av[0] + (av[1] + PAGE - 1) // PAGE * PAGE, None)
            if n in ("mprotect", "pkey_mprotect") and av[0] is not None and av[1] is not None:
                if st.pages is not None:
                    st.pages.set(av[0], av[0] + (av[1] + PAGE - 1) // PAGE * PAGE, av[2])
                if av[2] == 3:
                    st.rw.append((av[0], av[0] + av[1]))
            return 0
        if n.startswith("get_random_") and "uniform" in n:
            b = av[-1]
            if b is None:
                return None
            if callable(st.frac):
                return st.frac(b)
            return 0 if st.frac == 0 or b == 0 else b - 1
        if e.val is not None and e.val.w == 32 and n in ("prctl", "pthread_mutex_lock", "pthread_mutex_unlock"):
            return 0
        return None

    def remap(s, a, n, prot):
        """contents of pages that were replaced or purged are zero"""
        if a is None or n is None:
            return
        n = (n + PAGE - 1) // PAGE * PAGE
        for k in [k for k in s.mem if k[0] == "region_metadata" and a <= k[2] < a + n]:
            del s.mem[k]
        if prot is not None:
            s.rw = [r for r in s.rw if r[1] <= a or r[0] >= a + n]


class Ops:
    """the operations of the library on large blocks"""

    def __init__(o, cx):
        o.cx = cx
        from .rules.sizes import allocators, aligned_allocator
        o.small, o.large = allocators(cx)
        o.al_fn, o.al_args = aligned_allocator(cx)
        o.m = {}
        o.heavy = set(cx.heavy())
        o.slot = SLAB + (5 << 36) + 0x30000
        o.described = {o.small}

    def machine(o, fn, cut):
        if (fn, cut) not in o.m:
            o.m[fn, cut] = flow.Machine(o.cx.run(fn, cut=cut))
        return o.m[fn, cut]

    def go(o, fn, cut, st, args, deep=False):
        st = st.copy()
        st.ncall = {}
        return o.machine(fn, cut).run(st, args, o.deep if deep else st.oracle)

    def deep(o, e, av, st, tr):
        """results of calls; the functions that lock for themselves are followed, those on slabs are described"""
        n = e.name
        if n not in o.heavy:
            return st.oracle(e, av, st, tr)
        if n == o.small:
            return 0 if n in st.fails else o.slot
        if n in o.described or av and av[0] is not None and SLAB <= av[0] < SLABEND:
            return None
        outs = o.machine(n, True).run(st, dict(enumerate(av)), o.deep)
        if len(outs) != 1:
            raise ToolError("%s: %d ways through in a described state" % (n, len(outs)))
        x = outs[0]
        if x.end != "ret":
            raise flow.Halt(x)
        d = dict(x.st.__dict__)
        st.__dict__.update(d)
        tr.extend(x.trace)
        return x.ret

    def insert(o, st, addr, n, aligned=False):
        """outcomes of allocating n bytes when the kernel maps at addr"""
        st = st.copy()
        st.maps = list(addr) if isinstance(addr, (list, tuple)) else [addr]
        if aligned:
            return o.go(o.al_fn, True, st, o.al_args(aligned, n))
        return o.go(o.large, True, st, {0: n})

    def free(o, st, p):
        return o.go("free", False, st, {0: p})

    def find(o, st, p):
        return o.go("malloc_usable_size", True, st, {0: p})

    def realloc(o, st, p, n):
        return o.go("realloc", True, st, {0: p, 1: n}, True)
