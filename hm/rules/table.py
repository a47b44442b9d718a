"""C08 C42: the table of large allocations."""
import random
from .. import term as tm, flow, heap as hp, small as sm, large as lg
from ..ctx import ToolError, calls
from ..term import const, add, sub

PAGE = 4096
GUARD = PAGE


def where(o, e=None):
    return e.ins if e is not None else (o.p.endins if o.p is not None else None)


def pool(cx, o, total, want=6):
    """addresses by the slot an empty table of `total` entries puts them in"""
    key = ("pool", total)
    if key in cx.__dict__.setdefault("_pools", {}):
        return cx._pools[key]
    out = {}
    h = hp.Heap(cx, total)
    rnd = random.Random(42)
    tries = 0
    while tries < 60 * total and (len(out) < total or min(len(v) for v in out.values()) < want):
        tries += 1
        a = 0x7f0000000000 + rnd.randrange(1 << 26) * PAGE
        for x in o.insert(h, a, 0x100000):
            if x.end == "ret" and x.ret:
                t = [k for k, v in x.st.mem.items() if k[:2] == ("region_metadata", "p") and v == x.ret]
                if t:
                    out.setdefault((t[0][2] - x.st.ra("regions")) // x.st.esz, []).append((a, x.ret))
    cx._pools[key] = out
    return out


def contents(h):
    t = h.table()
    return t


def expect(cx, R, o, h, live, what, ins, path):
    """the table holds exactly `live` {p: (size, guard)} and every one of them is found"""
    t = h.table()
    want = sorted(((p, s, g) for p, (s, g) in live.items()), key=repr)
    cx.obl(R[0])
    if t != want:
        cx.fail(R[0], ins, "%s: the table holds %d entries %s, live are %d" % (what, len(t) if t is not None else -1,
                show(t, want), len(want)), path)
        return False
    for p, (s, g) in live.items():
        cx.obl(R[1])
        outs = o.find(h, p)
        if len(outs) != 1 or outs[0].end != "ret" or outs[0].ret != s:
            cx.fail(R[1], outs[0].p.endins if outs and outs[0].p else ins, "%s: a live block is not found afterwards (%s)" %
                    (what, [(x.end, x.msg, x.ret) for x in outs]), path)
            return False
    cx.obl(R[2])
    tot, fr = h.ra("total"), h.ra("free")
    if fr != tot - len(live):
        cx.fail(R[2], ins, "%s: %s of %s entries are counted free, %d are used" % (what, fr, tot, len(live)), path)
        return False
    if not fr or tot & (tot - 1) or tot > h.cap:
        cx.fail(R[2], ins, "%s: a table of %s entries has %s free" % (what, tot, fr), path)
        return False
    lo, hi = h.ra("regions"), h.ra("regions") + tot * h.esz
    cx.obl(R[3])
    if not any(a <= lo and hi <= b for a, b in h.rw):
        cx.fail(R[3], ins, "%s: the table in use is not accessible in full" % what, path)
        return False
    return True


def show(t, want):
    if t is None:
        return ""
    d = [x for x in t if x not in want][:2], [x for x in want if x not in t][:2]
    return "(unexpected %s, missing %s)" % d


R42 = ("the table holds exactly the live blocks", "every live block is found", "free and total count the entries and leave some free",
       "the table in use is accessible", "growth that fails changes nothing", "an abandoned table is cleared", "the first table is set up completely")


def history(cx, o, h, live, ops, what):
    """apply a sequence of insertions and removals, checking after each"""
    for op, x in ops:
        if op == "+":
            n = 0x20000 + 0x8000 * (len(live) + 1)
            outs = [y for y in o.insert(h, x, n)]
            if len(outs) != 1 or outs[0].end != "ret" or not outs[0].ret:
                cx.obl(R42[0])
                cx.fail(R42[0], where(outs[0]) if outs else None, "%s: an allocation does not succeed: %s" % (what, [(y.end, y.msg, y.ret) for y in outs]),
                        outs[0].p if outs else None)
                return None
            y = outs[0]
            t = [v for k, v in y.st.mem.items() if k[:2] == ("region_metadata", "size") and y.st.mem.get((k[0], "p", k[2])) == y.ret]
            live = dict(live)
            live[y.ret] = (lg.large_class(cx, n), y.ret - x)
        else:
            outs = o.free(h, x)
            if len(outs) != 1 or outs[0].end != "ret":
                cx.obl(R42[1])
                cx.fail(R42[1], where(outs[0]) if outs else None, "%s: a live block cannot be freed: %s" % (what, [(y.end, y.msg) for y in outs]),
                        outs[0].p if outs else None)
                return None
            y = outs[0]
            live = dict(live)
            live.pop(x, None)
        h = y.st
        if not expect(cx, R42, o, h, live, "%s: after %s" % (what, "inserting" if op == "+" else "removing"), where(y), y.p):
            return None
    return h, live


def c42(cx):
    o = hp.Ops(cx)
    T = 8
    pl = pool(cx, o, T)
    if len(pl) < T:
        cx.obl(R42[0])
        cx.fail(R42[0], "h_malloc.c: hash", "addresses reach only %d of %d table slots" % (len(pl), T))
    starts = sorted(pl)
    rnd = random.Random(7)
    thorough = cx.tier == "thorough"
    # every arrangement of three neighbours, every removal; then the rest removed
    base = hp.Heap(cx, T)
    combos = [(a, b, c) for a in starts for b in starts for c in starts]
    combos = combos if thorough else [c for c in combos if len({x % T for x in c}) < 3 or max(c) - min(c) <= 3 or rnd.random() < .15]
    for cmb in combos:
        ks, used = [], {}
        for s in cmb:
            i = used.get(s, 0)
            used[s] = i + 1
            ks.append(pl[s][i % len(pl[s])])
        if len({k[0] for k in ks}) < 3:
            continue
        r = history(cx, o, base, {}, [("+", k[0]) for k in ks], "slots %s" % (cmb,))
        if r is None:
            return
        for v in ks:
            if history(cx, o, r[0], r[1], [("-", v[1])], "slots %s" % (cmb,)) is None:
                return
    # longer histories, full clusters, growth
    allk = [k for s in starts for k in pl[s]]
    for i in range(1500 if thorough else 250):
        h, live, ops, cur = hp.Heap(cx, T), {}, [], []
        near = rnd.random() < .6
        c0 = rnd.randrange(T)
        ks = [k for s in starts if not near or (s - c0) % T <= 2 for k in pl[s]]
        rnd.shuffle(ks)
        ks = ks[:14]
        todo = list(ks)
        for j in range(18):
            if todo and (not cur or rnd.random() < .65):
                k = todo.pop()
                ops.append(("+", k[0]))
                cur.append(k)
            elif cur:
                k = cur.pop(rnd.randrange(len(cur)))
                ops.append(("-", k[1]))
                todo.insert(0, k)
        if history(cx, o, h, {}, ops, "history %d" % i) is None:
            return
    # growth: failing at each step
    def full(n=None):
        h, live = hp.Heap(cx, T), {}
        ks = [allk[(j * 7) % len(allk)] for j in range(len(allk))]
        for k in ks:
            if h.ra("free") * 4 < h.ra("total"):
                break
            y = [x for x in o.insert(h, k[0], 0x40000)][0]
            if y.end != "ret" or not y.ret:
                break
            live[y.ret] = (lg.large_class(cx, 0x40000), y.ret - k[0])
            h = y.st
        rest = [k for k in ks if k[1] not in live]
        return h, live, rest
    h, live, rest = full()
    grown = 0
    for fails in ((), ("mprotect2",), ("mmap2",), ("mmap2", "madvise")):
        s = h.copy()
        t0, t1 = s.ra("regions"), s.ra("total")

        def bad(n, av, fails=fails, t0=t0):
            tbl = av and av[0] is not None and (hp.TA <= av[0] < hp.TA + (1 << 32) or hp.TB <= av[0] < hp.TB + (1 << 32))
            return n in ("mprotect", "pkey_mprotect") and tbl and "mprotect2" in fails or n in ("mmap", "mmap64") and tbl and "mmap2" in fails or \
                n == "madvise" and tbl and "madvise" in fails
        s.failif = bad
        for y in o.insert(s, rest[0][0], 0x40000):
            y.st.failif = None
            if y.end != "ret":
                continue
            grew = y.st.ra("total") != t1
            if "mprotect2" in fails:
                cx.obl(R42[4])
                if y.ret:
                    cx.fail(R42[4], where(y), "an insertion succeeds although the bigger table cannot be made accessible", y.p)
                elif not expect(cx, R42, o, y.st, live, "after a failed growth", where(y), y.p):
                    return
                continue
            if grew:
                grown += 1
                l2 = dict(live)
                l2[y.ret] = (lg.large_class(cx, 0x40000), y.ret - rest[0][0])
                if not expect(cx, R42, o, y.st, l2, "after growing", where(y), y.p):
                    return
                if "madvise" not in fails:
                    cx.obl(R42[5])
                    left = [k for k in y.st.mem if k[0] == "region_metadata" and y.st.mem[k] and t0 <= k[2] < t0 + t1 * s.esz]
                    if left and y.st.ra("regions") != t0:
                        cx.fail(R42[5], where(y), "entries stay behind in the abandoned table", y.p)
    if not grown:
        cx.obl(R42[2])
        cx.fail(R42[2], "h_malloc.c: regions", "a table with too few free entries does not grow")
    # repeated growth and shrinking back to back: both tables are used again
    seq = [("+", k[0]) for k in allk[:26]]
    history(cx, o, hp.Heap(cx, T), {}, seq, "growing twice")
    # the largest table: nothing is written when it cannot grow
    cap = 1
    h = hp.Heap(cx, T)
    while cap * 2 <= h.cap:
        cap *= 2
    for tot in (cap, cap // 2):
        s = hp.Heap(cx, tot)
        s.rw = [(hp.TA, hp.TA + tot * s.esz)]
        s.mem["region_allocator", "free", hp.RA] = tot // 4 - 1
        before = {k: v for k, v in s.mem.items() if k[0] == "region_allocator"}
        for y in o.insert(s, 0x7a0000000000, 0x40000)[:1] if tot == cap else []:
            cx.obl(R42[4])
            after = {k: v for k, v in y.st.mem.items() if k[0] == "region_allocator"}
            if y.end == "loops":
                cx.fail(R42[4], where(y), "the table grows beyond its reservation of %d entries" % s.cap, y.p)
            elif y.end != "ret" or y.ret or after != before or y.st.table():
                cx.fail(R42[4], where(y), "inserting into the largest table (%d entries) when it is full does not fail cleanly: %s %s" % (tot, y.end, y.ret), y.p)
    init_table(cx)


def init_table(cx):
    R = R42[6]
    n = 0
    esz = cx.prog(True).structs["region_metadata"]["size"]
    for fn in cx.inits(True):
        for p in cx.run(fn, cut=True, assume_init=False):
            if p.end != "ret":
                continue
            st = {}
            for e in p.ev:
                if e.k == "store" and e.loc.st == "region_allocator" and e.loc.f in ("total", "free", "regions"):
                    st[e.loc.f] = e
            if not st:
                continue
            n += 1
            cx.obl(R)
            if set(st) != {"total", "free", "regions"}:
                cx.fail(R, p.endins, "only %s of the table are initialised" % sorted(st), p)
                continue
            t, f = st["total"].val, st["free"].val
            if t.op != "const" or f != t or t.a[0] & (t.a[0] - 1) or not 4 <= t.a[0] <= 1 << 18:
                cx.fail(R, st["total"].ins, "the first table has %r entries, %r free" % (t, f), p)
                continue
            b = st["regions"].val
            rw = [e for e in p.ev if e.k == "call" and e.name in ("mprotect", "pkey_mprotect") and e.args[2].op == "const" and e.args[2].a[0] == 3 and
                  e.args[0] == b]
            if not rw or rw[-1].args[1].op != "const" or rw[-1].args[1].a[0] < t.a[0] * esz:
                cx.fail(R, st["regions"].ins, "the first table is not made accessible in full", p)
    if not n:
        raise ToolError("the initialisation of the table was not found")


# -- C08 -----------------------------------------------------------------------------------------------------
def targets(cx):
    """entry points that take a pointer to a block: name -> (function, cut, arguments for a pointer)"""
    P = cx.prog(False)
    out = {}
    for n, mk in (("free", lambda p: {0: p}), ("realloc", lambda p: {0: p, 1: 0x50000}), ("realloc ", lambda p: {0: p, 1: 0x300000}),
                  ("realloc  ", lambda p: {0: p, 1: 24}), ("malloc_usable_size", lambda p: {0: p}),
                  ("free_sized", lambda p: {0: p, 1: 0x40000}), ("free_aligned_sized", lambda p: {0: p, 1: 64, 2: 0x40000})):
        f = n.strip()
        if P.has(f):
            out[n] = (P.fn(f), f == "realloc" or f == "malloc_usable_size", mk)
    return out


def c08(cx):
    RF, RE, RU, RX, RO = ("pointers that are no live large block are fatal", "nothing happens before the check",
                          "use before initialisation is fatal", "exactly the entry of the pointer is removed",
                          "the entry is gone before its pages are touched")
    o = hp.Ops(cx)
    h = hp.Heap(cx, 8)
    pl = pool(cx, o, 8)
    keys = [pl[s][i] for i in range(2) for s in sorted(pl)[:3]][:5]
    live = {}
    for k in keys:
        y = o.insert(h, k[0], 0x40000)
        if len(y) != 1 or not y[0].ret:
            raise ToolError("no block can be inserted")
        live[y[0].ret] = k[0]
        h = y[0].st
    dead = keys[-1]
    y = o.free(h, dead[1])
    if len(y) == 1 and y[0].end == "ret":
        h = y[0].st
        live.pop(dead[1])
    same = [k[1] for s in pl for k in pl[s] if k[1] not in live]
    bad = {dead[1]: "freed block"}
    for p, m in live.items():
        bad.update({p + 16: "interior", p + PAGE: "second page", p + 0x40000: "end", p - PAGE: "guard", p - 1: "just before", p + 1: "off by one",
                    p + 8: "off by eight"})
    bad.update({p: "same slot" for p in same[:8]})
    bad.update({16: "small integer", 1: "one", hp.SLAB - 16: "below the slabs", hp.SLABEND: "end of the slabs", hp.SLABEND + 32: "above the slabs",
                (1 << 47) - PAGE: "stack", lg.M64: "all ones"})
    for n, (fn, cut, mk) in sorted(targets(cx).items()):
        for p, why in bad.items():
            if p in live:
                continue
            for y in o.go(fn, cut, h, mk(p)):
                cx.obl(RF)
                if y.end != "fatal":
                    cx.fail(RF, where(y), "%s(%s) goes on (%s)" % (n.strip(), why, y.end), y.p)
                cx.obl(RE)
                for k, e, a, v in y.trace:
                    if k == "call" and (e.name in sm.SYS and e.name not in ("prctl",) or e.name in cx.heavy()) or \
                            k == "store" and e.loc.st not in ("errno", "thread_arena", "thread_arena_counter") and e.loc.f != "thread_arena":
                        cx.fail(RE, e.ins, "%s(%s): %s happens before the pointer is rejected" % (n.strip(), why, e.name or "a store to " + str(e.loc.lab)), y.p)
                        break
        # before initialisation
        u = hp.Heap(cx, 8)
        ro = flow.gaddr("ro")
        for k in list(u.mem):
            if k[0] == "ro":
                u.mem[k] = 0
        u.dflt = lambda st, f, a: 0
        u.default = u.dflt
        for p in (0x7f1234560000, 16, 4096):
            ps = cx.run(fn, cut=cut, assume_init=False)
            m = o.m.setdefault((fn, cut, "u"), flow.Machine(ps))
            for y in m.run(u, mk(p), u.oracle):
                cx.obl(RU)
                if y.end != "fatal":
                    cx.fail(RU, where(y), "%s before initialisation goes on (%s)" % (n.strip(), y.end), y.p)
                elif [1 for k, e, a, v in y.trace if k == "lock" or k == "load" and e.loc.st in ("region_allocator", "region_metadata")]:
                    cx.fail(RU, where(y), "%s before initialisation works on the table, which does not exist yet" % n.strip(), y.p)
                elif [1 for k, e, a, v in y.trace if k == "call" and e.name in sm.SYS]:
                    cx.fail(RU, where(y), "%s before initialisation makes kernel calls first" % n.strip(), y.p)
    # live blocks: exactly that entry goes, before the pages do
    for n, (fn, cut, mk) in sorted(targets(cx).items()):
        if n == "malloc_usable_size":
            continue
        for p, m in live.items():
            for y in o.go(fn, cut, h, mk(p)):
                if y.end != "ret":
                    continue
                before, after = h.table(), y.st.table()
                rest = [x for x in before if x[0] != p]
                cx.obl(RX)
                if after is None or [x for x in after if x[0] != p] != rest:
                    cx.fail(RX, where(y), "%s changes entries of other blocks" % n.strip(), y.p)
                heavy = [(e, a) for e, a, r in y.calls() if e.name in cx.heavy() and e.name not in (o.small, o.large)]
                passed = [e for e, a in heavy if a and a[0] == p]
                gone = p not in [x[0] for x in after or []]
                if n.strip() != "realloc" and not gone:
                    cx.fail(RX, where(y), "%s leaves the entry of the block" % n.strip(), y.p)
                if n.strip() == "realloc" and y.ret not in (p, 0) and not gone and not passed:
                    cx.fail(RX, where(y), "a moving realloc leaves the entry of the old block", y.p)
                if n.strip() == "realloc" and y.ret == 0 and gone:
                    cx.fail(RX, where(y), "a failing realloc removes the entry of the block", y.p)
                # order of table and page operations
                lo, hi = p, p + 0x40000
                present = True
                cx.obl(RO)
                for k, e, a, v in y.trace:
                    if k == "store" and e.loc.lab == ("region_metadata", "p"):
                        present = present and not (v == 0 or v != p and False) if h.mem.get(("region_metadata", "p", a)) != p else False
                    if k == "call" and e.name in ("munmap", "mmap", "mmap64", "mremap", "madvise") and a[0] is not None and lo <= a[0] < hi and present:
                        if n.strip() == "realloc" and y.ret in (p, 0):
                            continue
                        cx.fail(RO, e.ins, "%s: %s is applied to a block the table still lists" % (n.strip(), e.name), y.p)
                        break


PROPS = {
    "C08": dict(
        rule=c08, configs=["default", "plain"], thorough=["light", "stats", "mte"],
        floor={"pointers that are no live large block are fatal": 150, "nothing happens before the check": 150,
               "use before initialisation is fatal": 10, "exactly the entry of the pointer is removed": 15,
               "the entry is gone before its pages are touched": 15},
        technique="abstract interpretation of path summaries over described table states (typestate of the entry along each path)",
        explain="The path summaries of every entry point taking a pointer are applied to table states with a pointer of every kind that is "
                "not a live block: all remaining paths must end in the fatal handler without a store or kernel call before. For live blocks "
                "exactly the entry found is removed, and on the path before the pages are touched.",
        decides="all paths of the entry points for each kind of pointer in the described states"),
    "C42": dict(
        rule=c42, configs=["default", "plain"], thorough=["light", "stats", "mte"],
        floor={"the table holds exactly the live blocks": 1500, "every live block is found": 3000,
               "free and total count the entries and leave some free": 1500, "the table in use is accessible": 1500,
               "growth that fails changes nothing": 3, "an abandoned table is cleared": 1, "the first table is set up completely": 2},
        technique="abstract interpretation of the path summaries of insertion, lookup, removal and growth over a domain of small tables",
        explain="The transfer functions extracted for allocation, free and size query are composed over all arrangements of up to three "
                "entries of an eight-entry table (every hash slot, so every wrap-around), longer histories and growth with each kernel "
                "call failing: after every step the table must hold exactly the live blocks, all must be found and the counters agree.",
        decides="every removal in every arrangement of three neighbours, histories through several growths"),
}
