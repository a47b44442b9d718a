"""Shape domain: what a path's transfer function does to small, fully described bookkeeping states.

A state gives every list, counter and bitmap of one size class concrete contents (lists of up to a few
slabs).  `transfer` composes the loads, branches and stores that the analysis extracted for one path of
the source with such a state and yields the resulting state, or None if the path's branch conditions
exclude it.  Nothing of the program is executed; kernel results and random numbers are given by the state.
"""
from . import term as tm, small as sm
from .ctx import ToolError

C0 = 0x100000000
RO = 0x50000000
REGION = 0x7f0000000000
INFO = 0x600000000000
QUEUE_PTR = None


class State:
    def __init__(s, cx, k):
        s.cx, s.k = cx, k
        s.S, s.N, s.Z = sm.geom(cx, k)
        s.msz = cx.prog(False).structs["slab_metadata"]["size"]
        s.h = {}
        s.set("size_class", "class_region_start", C0, REGION)
        s.set("size_class", "slab_info", C0, INFO)
        for f in ("partial_slabs", "empty_slabs", "empty_slabs_total", "free_slabs_head", "free_slabs_tail",
                  "quarantine_queue_index"):
            s.set("size_class", f, C0, 0)
        s.set("size_class", "metadata_count", C0, 20)
        s.set("size_class", "metadata_count_unguarded", C0, 0)
        s.set("size_class", "metadata_allocated", C0, 42)
        s.rand = {}
        s.fails = set()         # system calls that fail (with ENOMEM)
        s.ptr = None
        s.stats = {}

    def copy(s):
        n = State.__new__(State)
        n.__dict__.update(s.__dict__)
        n.h = dict(s.h)
        return n

    def set(s, st, f, base, v, off=0):
        s.h[st, f, base, off] = v

    def get(s, st, f, base, off=0):
        return s.h.get((st, f, base, off))

    def M(s, i):
        return INFO + i * s.msz

    def slab(s, i):
        return REGION + i * s.Z

    def meta(s, i, count, used=None):
        """bookkeeping of slab i with `count` slots in use"""
        m = s.M(i)
        used = set(range(count)) if used is None else used
        for j in range(4):
            s.set("slab_metadata", "bitmap", m, sum(1 << (u % 64) for u in used if u // 64 == j), 8 * j)
            s.set("slab_metadata", "quarantine_bitmap", m, 0, 8 * j)
        s.set("slab_metadata", "count", m, len(used))
        s.set("slab_metadata", "next", m, 0)
        s.set("slab_metadata", "prev", m, 0)
        return m

    def dlist(s, head, ids):
        prev = 0
        ms = [s.M(i) for i in ids]
        s.set("size_class", head, C0, ms[0] if ms else 0)
        for j, m in enumerate(ms):
            s.set("slab_metadata", "prev", m, prev)
            s.set("slab_metadata", "next", m, ms[j + 1] if j + 1 < len(ms) else 0)
            prev = m

    def slist(s, head, ids, tail=None):
        ms = [s.M(i) for i in ids]
        s.set("size_class", head, C0, ms[0] if ms else 0)
        if tail:
            s.set("size_class", tail, C0, ms[-1] if ms else 0)
        for j, m in enumerate(ms):
            s.set("slab_metadata", "next", m, ms[j + 1] if j + 1 < len(ms) else 0)

    # -- reading lists back
    def read(s, head, double=False):
        """slab numbers on a list, or a string saying what is wrong with it"""
        out, prev = [], 0
        m = s.get("size_class", head, C0)
        while m:
            if m is None or not isinstance(m, int):
                return "unknown link"
            i, r = divmod(m - INFO, s.msz)
            if r or i in out or len(out) > 6:
                return "broken"
            if double and s.get("slab_metadata", "prev", m) != prev:
                return "wrong back link"
            out.append(i)
            prev = m
            m = s.get("slab_metadata", "next", m)
        return out if m == 0 else "unknown link"


def prepare(p):
    """events of a path that matter for bookkeeping"""
    ev = []
    for e in p.ev:
        if e.k in ("load", "store", "rmw", "errno_load", "memset", "memcpy"):
            ev.append(e)
        elif e.k == "branch" and e.x in (True, False) and e.name != "known":
            ev.append(e)
        elif e.k in ("call", "lock", "loop"):
            ev.append(e)
    return ev


def transfer(v, s, ev=None):
    """(state after the path, calls made with argument values) or None if the path is excluded by the state"""
    s = s.copy()
    bound = {}
    memo = {}
    C = v.C
    offS, offZ = v.off("size_divisor"), v.off("slab_size_divisor")

    def f(t):
        q = bound.get(t)
        if q is not None:
            return q
        if t.op == "libdiv":
            x = tm._value(t.a[0], f, memo)
            d = tm.sub(t.a[1], C)
            if x is not None and d.op == "const":
                if d.a[0] == offS:
                    return x // s.S
                if d.a[0] == offZ:
                    return x // s.Z
        if t.op == "g":
            return None
        return None

    def val(t):
        return tm._value(t, f, memo)

    # C's own term must denote C0: bind the whole linear term through its largest atom
    cc, it = tm.parts(C)
    base = [x for x in it]
    if len(base) == 1 and it[base[0]] == 1:
        bound[base[0]] = C0 - tm.signed(cc, 64)
    else:
        # arena index: fix everything but one atom
        ld = [x for x in base if x.op in ("ld", "g")]
        if ld:
            bound[ld[0]] = C0 - tm.signed(cc, 64)
            for x in base:
                if x is not ld[0]:
                    bound[x] = 0
    if v.ptr is not None and s.ptr is not None:
        for x in tm.subterms(v.ptr):
            if x.op == "arg":
                bound[x] = s.ptr

    def where(loc):
        b = val(loc.base) if loc.base is not None else None
        if b is None and loc.st != "errno":
            return None
        off = loc.sub
        if loc.idx is not None:
            i = val(loc.idx)
            if i is None:
                return None
            off += tm.signed(i, 64)
        return (loc.st, loc.f, b, off)

    calls = []
    inside = False
    for e in (ev if ev is not None else prepare(v.p)):
        k = e.k
        if k == "lock":
            if e is v.lock:
                inside = True
        elif k == "load":
            if e.loc.st in ("size_class", "slab_metadata") and e.val is not None and e.val.op == "ld" and \
                    e.val not in bound:
                w = where(e.loc)
                if w is not None:
                    q = s.h.get(w)
                    if q is not None:
                        bound[e.val] = q
                        memo.clear()
        elif k == "branch":
            q = val(e.val)
            if q is not None and bool(q) != e.x:
                return None
        elif k in ("store", "rmw"):
            if e.loc.st in ("size_class", "slab_metadata"):
                w = where(e.loc)
                if w is None and e.loc.f in ("bitmap", "quarantine_bitmap", "arm_mte_tags"):
                    continue
                if w is None:
                    return s, calls, "a store to %s.%s cannot be followed" % e.loc.lab
                q = val(e.val) if k == "store" else None
                if w[1] == "bitmap" or w[1] == "quarantine_bitmap":
                    if q is None:
                        s.h.pop(w, None)
                        continue
                s.h[w] = q
        elif k in ("memset", "memcpy"):
            if e.loc.st in ("size_class", "slab_metadata"):
                return s, calls, "bookkeeping written by %s" % k
        elif k == "errno_load":
            if e.val is not None and e.val.op != "const":
                bound.setdefault(e.val, 12)
                memo.clear()
        elif k == "call":
            args = [val(a) for a in e.args]
            calls.append((e.name, args, e))
            if e.val is None:
                continue
            if e.name in sm.SYS:
                bad = e.name in s.fails
                if e.name in ("mmap", "mmap64", "mremap"):
                    bound[e.val] = (1 << 64) - 1 if bad else (args[0] or 0x7e0000000000)
                else:
                    bound[e.val] = (1 << e.val.w) - 1 if bad else 0
                memo.clear()
            elif e.name.startswith("get_random_") and "uniform" in e.name:
                b = args[-1]
                bound[e.val] = s.rand.get(b, 0)
                memo.clear()
    return s, calls, None
