"""Large allocations: the mapping calls, table writes and results of a path, as terms and at sample points."""
from . import term as tm, walk
from .term import const, add, sub
from .ctx import ToolError, calls, lockkind

PAGE = 4096
M64 = (1 << 64) - 1


def spec_small(cx):
    """documented classes of this configuration: [(size, slots)] from the repository's own documentation"""
    top = 131072 if cx.opt("CONFIG_EXTENDED_SIZE_CLASSES") else 16384
    out = [s for s in range(16, 129, 16)]
    step = 32
    while out[-1] < top:
        for _ in range(4):
            out.append(out[-1] + step)
        step *= 2
    return [0] + out


def large_class(cx, n):
    """documented rounding of a large request: 4 classes per doubling, or whole pages; None when it does not fit"""
    if cx.opt("CONFIG_LARGE_SIZE_CLASSES"):
        n = max(n, PAGE)
        sh = (n - 1).bit_length() - 1 - 2
        r = (n + (1 << sh) - 1) >> sh << sh
    else:
        r = (max(n, 1) + PAGE - 1) // PAGE * PAGE
    return r if 0 < r <= M64 else None


def sizes(cx, lo=0):
    """request sizes around every place where the treatment may change"""
    out = {0, 1, 2, 8, 9, 15, 16, 17}
    for s in spec_small(cx):
        for d in (-9, -8, -7, -1, 0, 1):
            out.add(s + d)
    for b in list(range(12, 64, 1 if cx.tier == "thorough" else 3)) + [63]:
        for k in (4, 5, 6, 7):
            q = (1 << b) * k // 4
            out |= {q - 1, q, q + 1}
    out |= {M64, M64 - 1, M64 - 7, M64 - 8, M64 - 15, M64 - 4094, M64 - 4095, M64 - 4096, M64 - 8192, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, 7 << 61, (7 << 61) + 1,
            M64 >> 1, (1 << 62) + 1, 5 << 61, 1 << 47, (1 << 47) + 1}
    return sorted(x for x in out if lo <= x <= M64)


class Run:
    """a path at a sample point"""
    __slots__ = ("p", "f", "memo", "space", "got", "ret", "seq", "failed")

    def val(s, t):
        return tm.value(t, s.f, s.memo)


def consistent(p, f, memo):
    for e in p.ev:
        if e.k == "branch" and e.x in (True, False):
            v = tm.value(e.val, f, memo)
            if v is not None and bool(v) != e.x:
                return False
    return True


def known_ret(p, e):
    """did this call succeed on the path? True/False/None"""
    r = e.val
    if r is None:
        return None
    if e.name in ("mmap", "mmap64", "mremap"):
        v = p.eng.truth_in(p, tm.eq(r, const(-1, r.w)))
        return None if v is None else not v
    # the other requests return 0 or -1 and nothing else
    v = p.eng.truth_in(p, tm.eq(r, const(-1, r.w)))
    return p.eng.truth_in(p, tm.eq0(r)) if v is None else not v


def impossible(p, e):
    """a path on which a request returned neither 0 nor -1"""
    r = e.val
    if r is None or e.name in ("mmap", "mmap64", "mremap"):
        return False
    return p.eng.truth_in(p, tm.eq(r, const(-1, r.w))) is False and p.eng.truth_in(p, tm.eq0(r)) is False


def relevant(p):
    """what distinguishes paths for the checks here"""
    return tuple(id(e) for e in p.ev if e.k in ("call", "errno_store", "store", "branch", "lock", "unlock") and not (e.k == "branch" and e.name == "known")) + (p.end, id(p.ret))


def layout(r, p, upto=None):
    """apply the mapping calls of a path at a sample point"""
    sp = walk.Space()
    for e in p.ev[:upto]:
        if e.k != "call":
            continue
        ok = known_ret(p, e)
        if e.name in ("mmap", "mmap64"):
            if ok is False:
                continue
            a, n = r.val(e.val), r.val(e.args[1])
            pr = r.val(e.args[2])
            if a is None or n is None or pr is None:
                raise ToolError("a mapping call with undetermined arguments: %r" % (e.args,))
            sp.set(a, a + (n + PAGE - 1) // PAGE * PAGE, pr)
        elif e.name == "munmap":
            if ok is False:
                continue
            a, n = r.val(e.args[0]), r.val(e.args[1])
            if a is None or n is None:
                raise ToolError("an unmapping call with undetermined arguments: %r" % (e.args,))
            sp.set(a, a + (n + PAGE - 1) // PAGE * PAGE, None)
        elif e.name in ("mprotect", "pkey_mprotect"):
            if ok is False:
                continue
            a, n = r.val(e.args[0]), r.val(e.args[1])
            if a is None or n is None:
                raise ToolError("a protection call with undetermined arguments: %r" % (e.args,))
            sp.set(a, a + (n + PAGE - 1) // PAGE * PAGE, r.val(e.args[2]))
    return sp


def draws(p, pick):
    """values for the bounded draws of a path, as fractions of their bounds"""
    return [e for e in p.ev if e.k == "call" and e.name.startswith("get_random_")]


def table_entry(p):
    """the region table entry written last on a path: field -> term (base shared), or None"""
    out = {}
    for e in p.ev:
        if e.k == "store" and e.loc.st == "region_metadata":
            out.setdefault((e.loc.base, e.loc.idx), {})[e.loc.f] = (e.val, e)
        elif e.k == "memcpy" and e.loc is not None and e.loc.st == "region_metadata":
            out.setdefault((e.loc.base, e.loc.idx), {})["*"] = (None, e)
    return out


def alloc_runs(cx, fn, args, maps=(1 << 40, (1 << 40) + PAGE, (1 << 40) + 7 * PAGE), fracs=(0, 1), cut=True):
    """runs of an allocating function for argument values {index: value}; every sys result chosen by the path"""
    key = ("lpaths", fn, cut)
    if key not in cx._runs:
        seen, out = set(), []
        for p in cx.run(fn, cut=cut):
            k = relevant(p)
            if k not in seen:
                seen.add(k)
                out.append(p)
        cx._runs[key] = out
    for p in cx._runs[key]:
        if p.end == "backedge":
            continue
        for m in maps:
            for fr in fracs:
                memo = {}
                bounds = {}
                for e in p.ev:
                    if e.k == "call" and e.name.startswith("get_random_") and len(e.args) > 1:
                        bounds[e.val] = e.args[1]

                def f(t, m=m, fr=fr):
                    if t.op == "arg":
                        return args.get(int(t.a[0][3:]))
                    if t.op == "ret":
                        if t.a[0] in ("mmap", "mmap64"):
                            return m if not failed.get(t) else M64
                        if t in bounds:
                            b = tm.value(bounds[t], f, memo)
                            return None if b is None else (0 if fr == 0 or b == 0 else b - 1)
                    if t.op == "rmw":
                        return 0
                    return None
                failed = {e.val: known_ret(p, e) is False for e in p.ev if e.k == "call" and e.name in ("mmap", "mmap64")}
                if not consistent(p, f, memo):
                    continue
                r = Run()
                r.p, r.f, r.memo = p, f, memo
                r.ret = tm.value(p.ret, f, memo) if p.end == "ret" and p.ret is not None else None
                yield r
