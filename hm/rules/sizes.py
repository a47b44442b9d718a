"""C23 C27 C39 C40: sizes - tables, mapping of requests to classes, rounding, alignment."""
import re, os
from .. import term as tm, small as sm, large as lg, walk, frontend as fe
from ..ctx import ToolError, calls
from ..term import const, add, sub
from .content import class_of

PAGE = 4096


# -- C39 -----------------------------------------------------------------------------------------------------
GEOM = {16: 256, 32: 128, 48: 85, 64: 64, 80: 51, 96: 42, 112: 36, 128: 64, 160: 51, 192: 64, 224: 54, 256: 64,
        320: 64, 384: 64, 448: 64, 512: 64, 640: 64, 768: 64, 896: 64, 1024: 64, 1280: 16, 1536: 16, 1792: 16, 2048: 16,
        2560: 8, 3072: 8, 3584: 8, 4096: 8, 5120: 8, 6144: 8, 7168: 8, 8192: 8, 10240: 6, 12288: 5, 14336: 4, 16384: 4}


def documented():
    """size -> (slots, slab size) from README.md (tables of size classes)"""
    out = {}
    try:
        for l in open(os.path.join(fe.REPO, "README.md"), encoding="utf-8"):
            m = re.match(r"\|\s*(\d+)\s*\|\s*[\d.]+%\s*\|\s*(\d+)\s*\|\s*(\d+)\s*\|", l)
            if m:
                out[int(m.group(1))] = (int(m.group(2)), int(m.group(3)))
    except OSError:
        pass
    if len(out) < 40:
        out = {s: (n, (s * n + PAGE - 1) // PAGE * PAGE) for s, n in GEOM.items()}
        for s in (20480, 24576, 28672, 32768, 40960, 49152, 57344, 65536, 81920, 98304, 114688, 131072):
            out[s] = (1, s)
    return out


def c39(cx):
    P = cx.prog(False)
    sc, sl = sm.table(cx, "size_classes"), sm.table(cx, "size_class_slots")
    R1, R2, R3, R4 = ("classes increase in multiples of 16 and follow the documented spacing", "the classes end at the documented maximum",
                      "slots fit the bitmaps and the slab, geometry is the documented one", "labels name the size")
    want = lg.spec_small(cx)
    at = "h_malloc.c: size_classes"
    for i, s in enumerate(sc):
        cx.obl(R1)
        if i == 0 and s != 0 or i and (s % 16 or s <= sc[i - 1]):
            cx.fail(R1, at, "class %d is %d after %d" % (i, s, sc[i - 1] if i else 0))
        elif i and sc[i - 1] and s > 64:
            waste = (s - sc[i - 1] - 1) / s
            if waste >= 0.20:
                cx.fail(R1, at, "class %d: a request of %d wastes %.1f%%" % (s, sc[i - 1] + 1, 100 * waste))
    for s in set(want) ^ set(sc):
        cx.fail(R1, at, "class %d is %s" % (s, "missing" if s in want else "not documented"))
    cx.obl(R2)
    top = 131072 if cx.opt("CONFIG_EXTENDED_SIZE_CLASSES") else 16384
    if sc[-1] != top:
        cx.fail(R2, at, "the last class is %d, documented is %d" % (sc[-1], top))
    bm = sm.field(cx, "slab_metadata", "bitmap")
    bits = bm["size"] * 8
    doc = documented()
    at = "h_malloc.c: size_class_slots"
    if len(sl) != len(sc):
        cx.fail(R3, at, "%d slot counts for %d classes" % (len(sl), len(sc)))
    for s, n in zip(sc, sl):
        cx.obl(R3)
        if not 1 <= n <= bits:
            cx.fail(R3, at, "class %d has %d slots, the bitmap has %d bits" % (s, n, bits))
        if s and s in doc:
            z = (s * n + PAGE - 1) // PAGE * PAGE
            if doc[s] != (n, z):
                cx.fail(R3, at, "class %d: %d slots in a slab of %d bytes, documented are %d in %d" % (s, n, z, doc[s][0], doc[s][1]))
        if s == 0 and n * 16 % PAGE:
            cx.fail(R3, at, "zero-size class: slabs are not whole pages")
    for f in ("quarantine_bitmap",):
        m = sm.field(cx, "slab_metadata", f)
        if m and m["size"] * 8 < max(sl):
            cx.fail(R3, at, "%s has too few bits" % f)
    m = sm.field(cx, "slab_metadata", "count")
    if m:
        cx.obl(R3)
        if max(sl) >> (8 * m["size"]):
            cx.fail(R3, at, "the slot counter cannot hold %d" % max(sl))
    g = P.globals.get("size_class_labels")
    if g and g.get("init") and g["init"][0] == "agg":
        for i, x in enumerate(g["init"][1]):
            cx.obl(R4)
            s = P.globals.get(x[1], {}).get("init") if x[0] == "g" else None
            txt = bytes.fromhex(s[1]).split(b"\0")[0].decode() if s and s[0] == "str" else None
            if i >= len(sc) or txt != "malloc %d" % sc[i]:
                cx.fail(R4, "h_malloc.c: size_class_labels", "label %d is %r" % (i, txt))
        if len(g["init"][1]) != len(sc):
            cx.fail(R4, "h_malloc.c: size_class_labels", "%d labels for %d classes" % (len(g["init"][1]), len(sc)))
    # the numbers the code works with are those of the tables: geometry of a fresh slab and of the page accounting
    R5 = "a slab is mapped with the size of all its slots in whole pages"
    for k in range(sm.nclasses(cx)):
        S, N, Z = sm.geom(cx, k)
        for p in sm.alloc_paths(cx, k):
            if p.end != "ret":
                continue
            for e in p.ev:
                if e.k == "call" and e.name in ("mprotect",) and e.args[2].op == "const" and e.args[2].a[0] == 3 and \
                        e.args[1].op == "const" and not (e.args[0].op == "g") and k:
                    d = sub(e.args[0], tm.atom("g", 64, "x")) if False else None
                    if any(x.op == "ld" and x.a[1] == "class_region_start" for x in tm.subterms(e.args[0])):
                        cx.obl(R5)
                        if e.args[1].a[0] != Z:
                            cx.fail(R5, e.ins, "class %d: makes %d bytes accessible, a slab has %d" % (S, e.args[1].a[0], Z), p)


# -- C40 -----------------------------------------------------------------------------------------------------
def consts(cx):
    sc = sm.table(cx, "size_classes")
    return sc, sc[-1], sm.canary_size(cx)


def adj(n, mx, c):
    return n + c if 0 < n <= mx else n


class Disp:
    """the calls to internally locking functions an entry point makes for given argument values"""

    def __init__(d, cx, entry, alias=None):
        d.cx, d.entry = cx, entry
        d.ps = [p for p in cx.run(entry, cut=True)]
        d.root = walk.tree(d.ps)
        d.hv = set(cx.heavy())

    def at(d, args, lds=None, **kw):
        tables = sm.table(d.cx, "size_classes", True)

        def other(t):
            if t.op == "rmw":
                return 1
            if t.op == "tab":
                return None
            return None
        b = walk.base(args=args, lds={("thread_arena", None): 0, **(lds or {})}, other=other)
        out = []
        for o in walk.outcomes(d.root, b):
            if o.p.end not in ("ret", "fatal"):
                continue
            hv = [e for e in o.ev if e.k == "call" and e.name in d.hv]
            out.append((o, [(e.name, [o.val(a) for a in e.args], e) for e in hv]))
        return out


def allocators(cx):
    """names of the slab and of the large allocator, as malloc dispatches to them"""
    memo = cx.__dict__.setdefault("_alloc", None)
    if memo:
        return memo
    sc, mx, c = consts(cx)
    d = Disp(cx, "malloc")
    names = []
    for n in (1, mx + 1):
        s = {h[0] for o, hv in d.at({0: n}) for h in hv}
        if len(s) != 1:
            raise ToolError("malloc(%d) calls %s" % (n, sorted(s)))
        names.append(s.pop())
    if names[0] == names[1]:
        raise ToolError("one function serves small and large requests")
    cx._alloc = names
    return names


def aligned_allocator(cx):
    """(name, arguments for an alignment and an adjusted size) of the allocator aligned_alloc hands over to"""
    if getattr(cx, "_aalloc", None):
        return cx._aalloc
    d = Disp(cx, "aligned_alloc")
    al, n = 512, (1 << 20) + 48
    hs = [hv for o, hv in d.at({0: al, 1: n}) if hv]
    if not hs or al not in hs[0][0][1] or n not in hs[0][0][1]:
        raise ToolError("the aligned allocator was not found")
    name, vals = hs[0][0][0], hs[0][0][1]
    if name in allocators(cx):
        raise ToolError("aligned_alloc does not hand over to an aligned allocator")
    ia, iz = vals.index(al), vals.index(n)

    def args(al, n):
        m = dict(enumerate(vals))
        m[ia], m[iz] = al, n
        return m
    cx._aalloc = name, args
    return cx._aalloc


def c40(cx):
    RC, RD, RA, RL = ("each request is served by the smallest sufficient class", "entry points hand over the request they were given",
                      "aligned requests take the smallest class that is a multiple of the alignment",
                      "large requests are rounded to the documented class")
    sc, mx, c = consts(cx)
    P = cx.prog(False)
    # the class used by malloc, for every request (one interval of requests per class)
    for k in range(sm.nclasses(cx)):
        lo, hi = sm.bracket(cx, k)
        for p in sm.alloc_paths(cx, k):
            vs = sm.views(cx, p, k)
            if p.end != "ret":
                continue
            if not vs:
                if p.ret is not None and p.eng.truth_in(p, tm.eq0(p.ret)) is not True:
                    cx.obl(RC)
                    cx.fail(RC, p.endins, "a request of %d to %d bytes is not served by a slab" % (lo, hi), p)
                continue
            for v in vs:
                cx.obl(RC)
                kk = class_of(v)
                if kk != k:
                    cx.fail(RC, v.lock.ins, "a request of %d to %d bytes is served by class %s instead of %d" %
                            (lo, hi, sc[kk] if kk is not None else "?", sc[k]), p)
    small, large = allocators(cx)
    # dispatch of every entry point
    ss = lg.sizes(cx)
    ref = {}
    d = Disp(cx, "malloc")
    for n in ss:
        a = adj(n, mx, c)
        want = (small, a) if a <= mx else (large, a)
        ref[n] = want
        for o, hv in d.at({0: n}):
            cx.obl(RD)
            if not hv and o.p.end == "ret" and o.val(o.p.ret) == 0:
                continue
            if len(hv) != 1 or (hv[0][0], hv[0][1][-1]) != want:
                cx.fail(RD, hv[0][2].ins if hv else o.p.endins, "malloc(%d) asks for %s" % (n, [(h[0], h[1]) for h in hv]), o.p)
    if P.has("calloc"):
        d = Disp(cx, "calloc")
        for n in ss:
            pairs = {(n, 1), (1, n)}
            if n and n % 8 == 0:
                pairs.add((n // 8, 8))
            for x, y in pairs:
                for o, hv in d.at({0: x, 1: y}):
                    cx.obl(RD)
                    if len(hv) != 1 or (hv[0][0], hv[0][1][-1]) != ref[n]:
                        cx.fail(RD, hv[0][2].ins if hv else o.p.endins, "calloc(%d, %d) asks for %s" % (x, y, [(h[0], h[1]) for h in hv]), o.p)
    d = Disp(cx, "realloc")
    for n in ss:
        for o, hv in d.at({0: 0, 1: n}):
            cx.obl(RD)
            if len(hv) != 1 or (hv[0][0], hv[0][1][-1]) != ref[n]:
                cx.fail(RD, hv[0][2].ins if hv else o.p.endins, "realloc(NULL, %d) asks for %s" % (n, [(h[0], h[1]) for h in hv]), o.p)
    # moving realloc
    mv = 0
    old = 1 << 45
    for n in ss:
        a = adj(n, mx, c)
        lc = lg.large_class(cx, a) if a > mx else None
        for o, hv in d.at({0: old, 1: n}):
            for h in hv:
                if h[0] not in (small, large):
                    continue
                cx.obl(RD)
                mv += 1
                if h[0] != ref[n][0] or h[1][-1] not in (a, lc):
                    cx.fail(RD, h[2].ins, "realloc(p, %d) asks for %s(%s)" % (n, h[0], h[1][-1]), o.p)
    if not mv:
        raise ToolError("realloc never allocates")
    # aligned entry points
    als = {"posix_memalign": (2, lambda n, al: {0: 1 << 30, 1: al, 2: n}), "aligned_alloc": (1, lambda n, al: {0: al, 1: n}),
           "memalign": (1, lambda n, al: {0: al, 1: n}), "valloc": (0, lambda n, al: {0: n}), "pvalloc": (0, lambda n, al: {0: n})}
    for fn, (pos, mk) in als.items():
        if not P.has(fn) or P.fn(fn) not in P.fns:
            continue
        d = Disp(cx, P.fn(fn))
        for al in ([PAGE] if fn in ("valloc", "pvalloc") else [16, 64, PAGE, 1 << 16]):
            for n in ss:
                m = n
                if fn == "pvalloc":
                    m = (n + PAGE - 1) // PAGE * PAGE
                    if m > lg.M64 or m == 0:
                        continue
                a = adj(m, mx, c)
                for o, hv in d.at(mk(n, al)):
                    if not hv:
                        continue
                    cx.obl(RD)
                    h = hv[0]
                    if h[0] in (small, large):
                        continue
                    if len(hv) != 1 or a not in h[1] or al not in h[1]:
                        cx.fail(RD, h[2].ins, "%s(%d, alignment %d) asks %s for %s" % (fn, n, al, h[0], h[1]), o.p)
    # the aligned allocator itself
    al_fn, al_args = aligned_allocator(cx)
    d = Disp(cx, al_fn)
    cls = [x for x in sc if x]
    asz = sorted({x for s in cls for x in (s, s + 1) if x <= mx} | {0, 1, 8, 9, 15, 24} | {mx + 1, mx + PAGE, 1 << 20, (1 << 20) + 1})
    for al in (1, 2, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096):
        for n in asz:
            if n <= mx and al > 16:
                fit = [x for x in cls if x >= n and x % al == 0]
                want = (small, [fit[0]] if fit else [])
            elif n <= mx:
                want = (small, [n, ([x for x in cls if x >= n] or [0])[0] if n else 0])
            else:
                want = (large, [n, lg.large_class(cx, n)])
            for o, hv in d.at(al_args(al, n)):
                cx.obl(RA)
                hv = [h for h in hv if h[0] in (small, large)]
                if o.p.end != "ret" or len(hv) != 1 or hv[0][0] != want[0] or hv[0][1][-1] not in want[1]:
                    cx.fail(RA, hv[0][2].ins if hv else o.p.endins, "size %d (with canary), alignment %d: %s, expected %s(%s)" %
                            (n, al, [(h[0], h[1][-1]) for h in hv] or o.p.end, want[0], want[1][:1]), o.p)
    # rounding of large requests
    for fn, mk, szs in ((large, lambda n: {0: n}, lg.sizes(cx, mx + 1)),
                        (al_fn, lambda n: al_args(1 << 13, n), [n for n in lg.sizes(cx, 0) if n % 3 == 0 or n > mx])):
        hit = 0
        for n in szs:
            want = lg.large_class(cx, n)
            for r in lg.alloc_runs(cx, fn, mk(n), maps=(1 << 46,), fracs=(0,)):
                cx.obl(RL)
                t = [x for x in lg.table_entry(r.p).values() if "size" in x]
                rw = [e for e in calls(r.p, "mprotect") if e.args[2].op == "const" and e.args[2].a[0] == 3]
                if t:
                    hit += 1
                    for x in t:
                        if r.val(x["size"][0]) != want and "p" in x and r.val(x["p"][0]) is not None:
                            cx.fail(RL, x["size"][1].ins, "a request of %d bytes gets %s, documented is %s" % (n, r.val(x["size"][0]), want), r.p)
                if want is None and r.p.end == "ret" and calls(r.p, "mmap"):
                    cx.fail(RL, r.p.endins, "a request of %d bytes, which has no class, is mapped" % n, r.p)
        if not hit:
            raise ToolError("%s: no successful large allocation found" % fn)


# -- C23 -----------------------------------------------------------------------------------------------------
def wide(cx):
    """request sizes and counts whose product wraps or nearly does"""
    out = set()
    for a in (2, 3, 8, 16, 17, 4096, 65537, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 48, 1 << 63, lg.M64, lg.M64 - 1, 5, 641, 6700417):
        for t in (lg.M64, lg.M64 + 1, lg.M64 + 2, lg.M64 + 8, lg.M64 + 17, lg.M64 + 4097, 1 << 63, (1 << 63) + 5, lg.M64 - 7, lg.M64 - 8, lg.M64 - 4095):
            for d in (-1, 0, 1, 2):
                b = t // a + d
                if 0 <= b <= lg.M64:
                    out |= {(a, b), (b, a)}
    return sorted(out)


def fails_clean(o, null):
    """an outcome that reports failure: NULL with errno ENOMEM, or ENOMEM"""
    r = o.val(o.p.ret) if o.p.ret is not None else None
    if not null:
        return r == 12
    if r != 0:
        return False
    last = None
    for e in o.ev:
        if e.k == "errno_store":
            last = e
    return last is None or o.val(last.val) in (None, 12)


def c23(cx):
    RE, RS, RL, RG = ("what is asked from the allocators covers the request", "slabs serve exactly the requests up to the largest class",
                      "a large allocation covers the request", "the slab used is large enough")
    sc, mx, c = consts(cx)
    P = cx.prog(False)
    small, large = allocators(cx)
    al_fn, al_args = aligned_allocator(cx)
    ss = lg.sizes(cx)

    def need(n):
        return n + c if 0 < n and n + c <= mx else n

    def judge(what, o, hv, n, null=True, arg=None):
        """n: bytes the caller needs (a mathematical integer)"""
        hv = [h for h in hv if h[0] in (small, large, al_fn)]
        cx.obl(RE)
        if not hv:
            if o.p.end == "ret" and not fails_clean(o, null):
                cx.fail(RE, o.p.endins, "%s: no allocation is made, the result is %s" % (what, o.val(o.p.ret)), o.p)
            return
        for h in hv:
            z = h[1][-1] if h[0] != al_fn else h[1][arg]
            if z is None or z < need(n):
                cx.fail(RE, h[2].ins, "%s: asks %s for %s bytes, the request needs %d" % (what, h[0], z, need(n)), o.p)
            if h[0] == al_fn:
                continue
            cx.obl(RS)
            if (h[0] == small) != (adj(n, mx, c) <= mx):
                cx.fail(RS, h[2].ins, "%s is served by %s" % (what, h[0]), o.p)
    iz = {k for k, v in al_args(64, 1 << 40).items() if v == 1 << 40}.pop()
    for fn, mk in (("malloc", lambda n: {0: n}), ("realloc", lambda n: {0: 0, 1: n}), ("realloc", lambda n: {0: 1 << 45, 1: n}),
                   ("valloc", lambda n: {0: n}), ("pvalloc", lambda n: {0: n}), ("aligned_alloc", lambda n: {0: 256, 1: n}),
                   ("posix_memalign", lambda n: {0: 1 << 30, 1: 256, 2: n})):
        if not P.has(fn):
            continue
        d = Disp(cx, P.fn(fn))
        live = mk(0).get(0) == 1 << 45 and fn == "realloc"
        for n in ss:
            for o, hv in d.at(mk(n)):
                if live:
                    hv = [h for h in hv if h[0] in (small, large)]
                    if not hv:
                        continue
                if fn == "pvalloc" and n == 0:
                    continue
                judge("%s(%d)" % (fn, n), o, hv, n, fn != "posix_memalign", iz)
    d = Disp(cx, "calloc")
    for x, y in wide(cx) + [(n, 1) for n in ss] + [(3, n // 3) for n in ss]:
        for o, hv in d.at({0: x, 1: y}):
            judge("calloc(%d, %d)" % (x, y), o, hv, x * y)
    if P.has("reallocarray") and P.fn("reallocarray") in P.fns:
        d = Disp(cx, "reallocarray")
        for x, y in wide(cx):
            for o, hv in d.at({0: 0, 1: x, 2: y}):
                judge("reallocarray(%d, %d)" % (x, y), o, hv, x * y)
    # slabs: the class whose lock is taken holds the whole interval
    for k in range(1, sm.nclasses(cx)):
        lo, hi = sm.bracket(cx, k)
        for p in sm.alloc_paths(cx, k):
            for v in sm.views(cx, p, k):
                cx.obl(RG)
                kk = class_of(v)
                if kk is None or sc[kk] < hi + c:
                    cx.fail(RG, v.lock.ins, "a request of %d bytes is put into a slot of %s" % (hi, sc[kk] if kk is not None else "?"), p)
    # the aligned allocator, small part
    d = Disp(cx, al_fn)
    for al in (1, 8, 16, 32, 256, 4096):
        for n in [x for s in sc for x in (s, s + 1)] + [1 << 20, lg.M64]:
            for o, hv in d.at(al_args(al, n)):
                for h in hv:
                    if h[0] in (small, large):
                        cx.obl(RE)
                        if h[1][-1] is None or h[1][-1] < n:
                            cx.fail(RE, h[2].ins, "aligned request of %d bytes: asks %s for %s" % (n, h[0], h[1][-1]), o.p)
    # large allocations: what is mapped
    big = lg.sizes(cx, mx + 1)
    for fn, runs in ((large, [({0: n}, n) for n in big]),
                     (al_fn, [(al_args(al, n), n) for al in (1 << 13, 1 << 21, 1 << 40, 1 << 62, 1 << 63) for n in big[::5] + big[-40:] + [1, PAGE]])):
        hit = 0
        for a, n in runs:
            for r in lg.alloc_runs(cx, fn, a, maps=((1 << 40) + 3 * PAGE,), fracs=(0, 1)):
                if r.p.end != "ret":
                    continue
                t = [x for x in lg.table_entry(r.p).values() if "size" in x and "p" in x and r.val(x["p"][0]) is not None]
                done = success(cx, r, fn == large)
                if not done:
                    continue
                if not t:
                    cx.fail(RL, r.p.endins, "a large allocation succeeds without a table entry", r.p)
                    continue
                hit += 1
                cx.obl(RL)
                x = t[-1]
                p, z = r.val(x["p"][0]), r.val(x["size"][0])
                g = r.val(x["guard_size"][0]) if "guard_size" in x else 0
                if None in (p, z, g) or z < n:
                    cx.fail(RL, x["size"][1].ins, "a request of %d bytes is recorded with %s" % (n, z), r.p)
                    continue
                m = [e for e in calls(r.p, "mmap", "mmap64") if lg.known_ret(r.p, e) is not False and
                     r.val(e.val) is not None and r.val(e.args[1]) is not None]
                if not any(r.val(e.val) <= p - g and p + z + g <= r.val(e.val) + r.val(e.args[1]) for e in m):
                    cx.fail(RL, m[0].ins if m else r.p.endins, "a request of %d bytes: %s bytes are mapped for %d usable and twice %d guard" %
                            (n, [r.val(e.args[1]) for e in m], z, g), r.p)
        if not hit:
            raise ToolError("%s: no successful large allocation found" % fn)


def success(cx, r, pointer):
    """did this run of an allocator succeed? (a pointer, or zero)"""
    v = r.ret
    if v is None:
        return None
    return v != 0 if pointer else v == 0


# -- C27 -----------------------------------------------------------------------------------------------------
def aligns(cx):
    out = set(range(0, 70)) | set(range(4080, 4112))
    for b in range(2, 64):
        for d in (-1, 0, 1):
            out.add((1 << b) + d)
        if b < 63:
            out.add(3 << b if 3 << b <= lg.M64 else 3)
    out |= {lg.M64, lg.M64 - 1, lg.M64 - 4095}
    return sorted(out)


def c27(cx):
    RV, RA, RC, RW, RM = ("invalid alignments are rejected without allocating", "valid alignments are honoured by slab classes",
                          "slots are aligned like their class", "large allocations are aligned", "page alignment of valloc and pvalloc")
    sc, mx, c = consts(cx)
    P = cx.prog(False)
    small, large = allocators(cx)
    al_fn, al_args = aligned_allocator(cx)
    pow2 = lambda a: a > 0 and a & (a - 1) == 0
    als = {"posix_memalign": (8, False, lambda al, n: {0: 1 << 30, 1: al, 2: n}), "aligned_alloc": (1, True, lambda al, n: {0: al, 1: n}),
           "memalign": (1, True, lambda al, n: {0: al, 1: n})}
    inner = Disp(cx, al_fn)

    def combos(d, args):
        """(outcome of the entry point, calls to allocators that happen, error value of the aligned allocator)"""
        b = [(o, hv) for o, hv in d.at(args)]
        for o, hv in b:
            hs = [h for h in hv if h[0] == al_fn]
            if not hs:
                yield o, hv, None, None
                continue
            sub_ = dict(enumerate(hs[0][1]))
            for o2, hv2 in inner.at(sub_):
                yield o, hv2, o2, hs[0][2]
    for fn, (mn, null, mk) in als.items():
        if not P.has(fn) or P.fn(fn) not in P.fns:
            continue
        d = Disp(cx, P.fn(fn))
        for n in (1, 24, 4000, mx + 1, 1 << 30) if fn != "memalign" else (24,):
            for al in aligns(cx)[::1 if n == 24 or cx.tier == "thorough" else 9]:
                bad = not pow2(al) or al < mn
                for o, hv, o2, call in combos(d, mk(al, n)):
                    if o.p.end != "ret" or o2 is not None and o2.p.end != "ret":
                        continue
                    # the error value handed back by the aligned allocator decides the path of the entry point
                    f, memo = o.f, {}
                    if o2 is not None:
                        r2 = o2.val(o2.p.ret)
                        if r2 is None:
                            raise ToolError("%s(%d, %d): undetermined result" % (fn, al, n))
                        g = o.f

                        def f(t, g=g, call=call, r2=r2):
                            return r2 if t == call.val else g(t)
                        if not lg.consistent(o.p, f, memo):
                            continue
                    r = tm.value(o.p.ret, f, memo)
                    eno = [tm.value(e.val, f, memo) for e in o.ev if e.k == "errno_store"]
                    mapped = [h for h in hv if h[0] in (small, large)] or \
                        [e for q in (o, o2) if q is not None for e in q.ev if e.k == "call" and e.name in ("mmap", "mmap64")]
                    cx.obl(RV)
                    where = o.p.endins
                    if bad:
                        if mapped:
                            cx.fail(RV, where, "%s with alignment %d allocates" % (fn, al), o.p)
                        elif not (r == 22 if not null else (r == 0 and eno[-1:] == [22])):
                            cx.fail(RV, where, "%s with alignment %d gives %s, errno %s" % (fn, al, r, eno[-1:]), o.p)
                    else:
                        if (r == 22 if not null else eno[-1:] == [22]):
                            cx.fail(RV, where, "%s refuses alignment %d" % (fn, al), o.p)
                        if not mapped and (r == 0 if not null else r != 0):
                            cx.fail(RV, where, "%s with alignment %d succeeds without allocating" % (fn, al), o.p)
                        for h in hv:
                            if h[0] == small:
                                cx.obl(RA)
                                k = [s for s in sc if s >= h[1][-1]]
                                if n and (not k or k[0] % al and k[0] % 16 or k[0] % max(16, al) or al > PAGE):
                                    cx.fail(RA, h[2].ins, "%s(%d, alignment %d) takes slots of %s" % (fn, n, al, k[:1]), o.p)
                            elif h[0] == large and al > PAGE:
                                cx.fail(RA, h[2].ins, "%s(%d, alignment %d) takes a page-aligned block" % (fn, n, al), o.p)
    # valloc, pvalloc
    for fn in ("valloc", "pvalloc"):
        if not P.has(fn) or P.fn(fn) not in P.fns:
            continue
        d = Disp(cx, P.fn(fn))
        for n in lg.sizes(cx):
            m = n if fn == "valloc" else (n + PAGE - 1) // PAGE * PAGE
            for o, hv in d.at({0: n}):
                cx.obl(RM)
                hs = [h for h in hv if h[0] == al_fn]
                if not hs:
                    if o.p.end == "ret" and o.val(o.p.ret) != 0:
                        cx.fail(RM, o.p.endins, "%s(%d) gives %s" % (fn, n, o.val(o.p.ret)), o.p)
                    elif m <= lg.M64 and not (fn == "pvalloc" and n == 0) and not hv:
                        cx.fail(RM, o.p.endins, "%s(%d) fails without trying" % (fn, n), o.p)
                    continue
                if PAGE not in hs[0][1] or adj(m, mx, c) not in hs[0][1]:
                    cx.fail(RM, hs[0][2].ins, "%s(%d) asks for %s" % (fn, n, hs[0][1]), o.p)
    # addresses of slots: slab pages plus a multiple of the class
    for k in range(1, sm.nclasses(cx)):
        S = sc[k]
        g = S & -S
        for p in sm.alloc_paths(cx, k):
            if p.end != "ret" or p.ret is None or p.eng.truth_in(p, tm.eq0(p.ret)) is True:
                continue
            cx.obl(RC)
            k0, parts = tm.parts(p.ret)
            bad = k0 % min(g, PAGE)
            for a, q in parts.items():
                if q % min(g, PAGE) and not (a.op == "ld" and a.a[1] == "class_region_start"):
                    bad = bad or a
            if bad:
                cx.fail(RC, p.endins, "class %d: the address returned is not known to be a multiple of %d (%r)" % (S, min(g, PAGE), tm.show(p.ret)[:160]), p)
    # large blocks above the page size
    hit = 0
    for b in range(13, 64, 1 if cx.tier == "thorough" else 5):
        al = 1 << b
        for n in (1, PAGE, PAGE + 1, mx + 1, 1 << 21, (1 << 40) + 5, (1 << 62) + 1):
            for m in ((1 << 44) + PAGE, (3 << 44) - PAGE, al & ((1 << 47) - 1) or PAGE, (al & ((1 << 47) - 1)) + PAGE):
                for r in lg.alloc_runs(cx, al_fn, al_args(al, n), maps=(m,), fracs=(0, 1)):
                    if r.p.end == "ret" and success(cx, r, False):
                        for x in lg.table_entry(r.p).values():
                            if "p" in x and r.val(x["p"][0]):
                                cx.obl(RW)
                                hit += 1
                                if r.val(x["p"][0]) % al:
                                    cx.fail(RW, x["p"][1].ins, "alignment %d: the block is at %#x" % (al, r.val(x["p"][0])), r.p)
    if not hit:
        raise ToolError("no aligned large allocation found")


PROPS = {
    "C23": dict(
        rule=c23, configs=["default", "plain"], thorough=["light", "stats", "mte"],
        floor={"what is asked from the allocators covers the request": 4000, "slabs serve exactly the requests up to the largest class": 2000,
               "a large allocation covers the request": 200, "the slab used is large enough": 500},
        technique="wrap-exact term evaluation of all path summaries at the breakpoints of every rounding, product and guard addition",
        explain="Sizes are symbolic terms with exact 64-bit wrapping. For requests around every class boundary, power of two and the top of "
                "the address space, and for products around 2^64, the amount each entry point hands to an allocator is compared with the "
                "mathematical one, and the mapped range of large allocations must contain block and guards without wrapping.",
        decides="all breakpoints of the arithmetic (piecewise linear in the request), every path"),
    "C27": dict(
        rule=c27, configs=["default", "plain"], thorough=["light", "stats", "mte", "nozero"],
        floor={"invalid alignments are rejected without allocating": 1500, "valid alignments are honoured by slab classes": 200,
               "slots are aligned like their class": 300, "large allocations are aligned": 500, "page alignment of valloc and pvalloc": 200},
        technique="path summaries of entry point and aligned allocator composed at sample points; congruence analysis of returned addresses",
        explain="Every alignment that is or is next to a power of two (and all small ones) is pushed through the summaries of each entry "
                "point and of the allocator behind it: the error value, errno and absence of allocation for invalid ones, the class or "
                "address chosen for valid ones. Slot addresses are linear terms whose coefficients must be multiples of the alignment.",
        decides="all alignments near powers of two; slot addresses for all slots"),
    "C39": dict(
        rule=c39, configs=["default", "plain", "label"], thorough=["light", "stats", "mte"],
        floor={"classes increase in multiples of 16 and follow the documented spacing": 80, "the classes end at the documented maximum": 3,
               "slots fit the bitmaps and the slab, geometry is the documented one": 80, "labels name the size": 80,
               "a slab is mapped with the size of all its slots in whole pages": 100},
        technique="constant-table extraction from the IR and comparison with the documented tables; slab sizes as constants per class on all paths",
        explain="The class, slot and label tables are read from the compiled initialisers and compared with the documented spacing, maximum "
                "and geometry (tables in README.md); the sizes of mapped slabs are compared per class on every allocating path.",
        decides="the tables of every analysed configuration, completely"),
    "C40": dict(
        rule=c40, configs=["default", "plain"], thorough=["light", "stats", "mte", "nozero"],
        floor={"each request is served by the smallest sufficient class": 1000, "entry points hand over the request they were given": 2000,
               "aligned requests take the smallest class that is a multiple of the alignment": 500,
               "large requests are rounded to the documented class": 300},
        technique="interval-partitioned abstract interpretation (one interval of requests per class) and term evaluation at all breakpoints",
        explain="For each class the request is constrained to the interval that class must serve; on every path the lock taken must be that "
                "class's (the class computation folds to a constant over the interval). The other entry points must hand the same adjusted "
                "size to the same allocator as malloc at every breakpoint of the rounding; the class search of aligned requests is iterated "
                "from its loop summary; large rounding is compared at every class boundary up to 2^64.",
        decides="all requests up to the slab maximum (by intervals); larger and aligned requests at every breakpoint"),
}
