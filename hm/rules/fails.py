"""C22 C26 C33: what happens when the kernel refuses, and zeroed allocation."""
from .. import term as tm, flow, heap as hp, small as sm, large as lg, walk
from ..ctx import ToolError
from .big import PAGE, up, where, fresh, user, mapped, merged, hexes, entry

MEMPTR = 0x1234560000
KCALLS = ("mmap", "mmap64", "munmap", "mprotect", "pkey_mprotect", "mremap", "madvise")


def failed(e, r):
    return e.name in KCALLS and r is not None and r in (hp.M64, 0xffffffff)


def errno_of(z, o):
    """errno after a way through (None: as before the call): refused kernel calls leave ENOMEM, labels that fail EINVAL"""
    v = None
    for k, e, a, r in z.trace:
        if k == "errno":
            v = r
        elif k == "call":
            if failed(e, r):
                v = 12
            elif e.name == "prctl" and r not in (0, None):
                v = 22
            elif e.name == o.small and r == 0:
                v = 12
    return v


def requests(cx):
    """(entry, arguments, bytes asked for, returns pointer)"""
    sc, c = sm.table(cx, "size_classes"), sm.canary_size(cx)
    mx = sc[-1]
    P = cx.prog(True)
    big = [mx - c + 1, mx + 1, 1 << 20, (3 << 20) + 5, 1 << 30]
    little = [0, 1, 100, 1024, mx - c]
    out = []
    for n in little + big:
        out.append(("malloc", {0: n}, n))
        out.append(("calloc", {0: n, 1: 1}, n))
        out.append(("calloc", {0: 2, 1: n // 2}, n // 2 * 2))
        out.append(("realloc", {0: 0, 1: n}, n))
        for al in (8, 64, PAGE, 1 << 13, 1 << 21):
            for f in ("aligned_alloc", "memalign"):
                out.append((f, {0: al, 1: n}, n))
            out.append(("posix_memalign", {0: MEMPTR, 1: al, 2: n}, n))
        out.append(("valloc", {0: n}, n))
        if n:
            out.append(("pvalloc", {0: n}, n))
    return [x for x in out if P.has(x[0])]


def impossible(cx):
    """requests no machine can provide: nothing may be mapped and ENOMEM is the answer, wherever the size is found too large"""
    P = cx.prog(True)
    top = hp.M64
    out = []
    for n in (top, top - 1, top - 7, top - 4094, top - 4095, top - 8191, top - (1 << 21), top - (1 << 30), 7 << 61, (7 << 61) + 1, 3 << 62, (1 << 63) + 1, 1 << 63,
              (1 << 63) - 1, (1 << 62) + 5):
        out += [("malloc", {0: n}, n), ("calloc", {0: n, 1: 1}, n), ("calloc", {0: 1, 1: n}, n), ("realloc", {0: 0, 1: n}, n),
                ("valloc", {0: n}, n), ("pvalloc", {0: n}, n)]
        for al in (8, 64, PAGE, 1 << 13, 1 << 21, 1 << 40):
            for f in ("aligned_alloc", "memalign"):
                out.append((f, {0: al, 1: n}, n))
            out.append(("posix_memalign", {0: MEMPTR, 1: al, 2: n}, n))
    for a, b in ((1 << 32, 1 << 32), (1 << 63, 2), (top, top), ((1 << 32) + 1, 1 << 32), (3, (1 << 64) // 3 + 1), (2, 1 << 63), (641, top // 641 + 1)):
        out += [("calloc", {0: a, 1: b}, a * b), ("reallocarray", {0: 0, 1: a, 2: b}, a * b)]
    for al in (1 << 62, 1 << 63):
        out += [("memalign", {0: al, 1: 1 << 20}, 1 << 20), ("aligned_alloc", {0: al, 1: 1}, 1), ("posix_memalign", {0: MEMPTR, 1: al, 2: 100}, 100)]
    return [x for x in out if P.has(x[0])]


def c22(cx):
    RN, RS, RE, RO, RU = ("a refused request is reported as ENOMEM", "a failed request leaves table and pages as they were",
                          "a reported success is complete", "posix_memalign stores only on success", "a failed slab request changes no bookkeeping")
    RF = "addresses given back to the system are not touched again"
    o = hp.Ops(cx)
    full = None
    heaps = []
    for total in (64, 4):
        h = fresh(cx, 1, total)
        heaps.append(("", h))
    # a table that has to grow
    h = fresh(cx, 0, 64)
    n = 0
    while h.ra("free") * 4 >= h.ra("total") and n < 64:
        y = [x for x in o.insert(h, 0x7a0000000000 + (n << 32), 1 << 20) if x.end == "ret" and x.ret]
        if len(y) != 1:
            break
        h = y[0].st
        n += 1
    heaps.append(("with a table due to grow", h))
    h2 = fresh(cx, 0, hp.Heap(cx).cap)
    h2.mem["region_allocator", "free", hp.RA] = h2.cap // 4 - 1
    heaps.append(("with a full table", h2))
    fails = [(), ("mmap",), ("mprotect",), (("mmap", 1),), (("mprotect", 1),), (o.small,), ("mprotect", "munmap"), ("mmap", "mprotect"), ("munmap",),
             (("mmap", 1), "madvise"), (("munmap", 1),), ("prctl", "mmap"), ("prctl", "mprotect"), ("prctl", o.small), ("prctl",)]
    seen = 0
    reqs = requests(cx)
    for hd, h0 in heaps:
        for fn, args, n in reqs if not hd else [r for r in reqs if r[2] > sm.table(cx, "size_classes")[-1]]:
            for fl in fails:
                s = h0.copy()
                s.fails = set(fl)
                s.maps = [0x7b0000000000, 0x7b8000000000]
                t0, p0 = s.table(), merged(mapped(s))
                outs = o.go(fn, True, s, args, True)
                live = [z for z in outs if z.end == "ret"]
                what = "%s of %d bytes%s%s" % (fn, n, " " + hd if hd else "", " when %s fails" % "/".join(str(x) for x in fl) if fl else "")
                if not live:
                    for z in outs:
                        if z.end == "fatal":
                            cx.obl(RN)
                            cx.fail(RN, where(z), "%s aborts: %s" % (what, z.msg), z.p)
                    if not outs:
                        raise ToolError("%s: no way through" % what)
                for z in outs:
                    given_back(cx, RF, z, what)
                for z in live:
                    seen += 1
                    pm = fn == "posix_memalign"
                    if z.ret is None:
                        raise ToolError("%s: the result is not known" % what)
                    ok = z.ret == 0 if pm else z.ret != 0
                    out = z.st.mem.get(("", "", MEMPTR)) if pm else None
                    p = out if pm else z.ret
                    refused = [(e, a) for e, a, r in z.calls() if failed(e, r) and e.name != "munmap" and e.name != "madvise"]
                    if ok:
                        cx.obl(RE)
                        if not p:
                            cx.fail(RE, where(z), "%s succeeds without a result" % what, z.p)
                            continue
                        small = [e for e, a, r in z.calls(o.small) if r == p]
                        if small:
                            continue
                        ent = entry(z.st, p)
                        if not ent or ent[1] is None or ent[1] < n:
                            cx.fail(RE, where(z), "%s returns a block recorded as %s" % (what, ent), z.p)
                        elif z.st.pages.prots(p, p + up(ent[1])) != {3}:
                            cx.fail(RE, where(z), "%s returns a block whose pages are not all accessible" % what, z.p)
                        continue
                    cx.obl(RN)
                    if pm:
                        cx.obl(RO)
                        if any(k == "store" and a is not None and MEMPTR <= a < MEMPTR + 8 for k, e, a, v in z.trace):
                            cx.fail(RO, where(z), "%s stores to the output although it fails" % what, z.p)
                        if z.ret != 12:
                            cx.fail(RN, where(z), "%s returns %d" % (what, z.ret), z.p)
                    elif errno_of(z, o) != 12:
                        cx.fail(RN, where(z), "%s returns NULL with errno %s" % (what, errno_of(z, o)), z.p)
                    for k, e, a, v in z.trace:
                        if k in ("memset", "memcpy") and a and a[0] == 0:
                            cx.fail(RN, e.ins, "%s writes through the null result" % what, z.p)
                    cx.obl(RS)
                    if z.st.table() != t0:
                        cx.fail(RS, where(z), "%s fails and leaves the table changed" % what, z.p)
                    lost = [a for e, a, r in z.calls("munmap") if failed(e, r)]
                    left = [x for x in merged(mapped(z.st)) if x not in p0 and not any(a[0] is not None and a[0] <= x[0] < a[0] + up(a[1]) for a in lost)]
                    if left:
                        cx.fail(RS, where(z), "%s fails and leaves %s mapped" % (what, hexes(left)), z.p)
                    if any(x not in merged(mapped(z.st)) for x in p0):
                        cx.fail(RS, where(z), "%s fails and has unmapped other memory" % what, z.p)
                    if not fl and not hd and not refused:
                        cx.fail(RN, where(z), "%s fails although nothing was refused" % what, z.p)
    if not seen:
        raise ToolError("no request was followed")
    # sizes that cannot exist
    RX = "an impossible size is reported as ENOMEM"
    for fn, args, n in impossible(cx):
        s = fresh(cx, 1, 64)
        s.fails = {"mmap"}
        t0, p0 = s.table(), merged(mapped(s))
        what = "%s of %d bytes (arguments %s)" % (fn, n, [args[k] for k in sorted(args)])
        outs = o.go(fn, True, s, args, True)
        if not outs:
            raise ToolError("%s: no way through" % what)
        for z in outs:
            cx.obl(RX)
            pm = fn == "posix_memalign"
            if z.end != "ret":
                cx.fail(RX, where(z), "%s ends with %s" % (what, z.msg or z.end), z.p)
            elif z.ret is None:
                raise ToolError("%s: the result is not known" % what)
            elif z.ret != (12 if pm else 0):
                cx.fail(RX, where(z), "%s returns %#x" % (what, z.ret), z.p)
            elif not pm and errno_of(z, o) != 12:
                cx.fail(RX, where(z), "%s returns NULL with errno %s" % (what, errno_of(z, o) or "unchanged"), z.p)
            elif z.st.table() != t0 or merged(mapped(z.st)) != p0:
                cx.fail(RX, where(z), "%s fails and leaves the table or mappings changed" % what, z.p)
    # resizing
    mx = sm.table(cx, "size_classes")[-1]
    for n0 in (mx + 1, 3 << 20, 40 << 20):
        y = [x for x in o.insert(fresh(cx, 1), 0x7a0000003000, n0) if x.end == "ret" and x.ret]
        if len(y) != 1:
            continue
        h0, p = y[0].st, y[0].ret
        for n in (hp.M64, hp.M64 - 1, hp.M64 - 4094, hp.M64 - 4095, (7 << 61) + 1, 3 << 62, (1 << 63) + 1, 1 << 63):
            s = h0.copy()
            s.fails = {"mmap", "mremap"}
            t0, p0 = s.table(), merged(mapped(s))
            what = "realloc of %d to %d bytes" % (n0, n)
            for z in o.realloc(s, p, n):
                cx.obl(RX)
                if z.end != "ret":
                    cx.fail(RX, where(z), "%s ends with %s" % (what, z.msg or z.end), z.p)
                elif z.ret != 0 or errno_of(z, o) != 12:
                    cx.fail(RX, where(z), "%s returns %s with errno %s" % (what, z.ret, errno_of(z, o) or "unchanged"), z.p)
                elif z.st.table() != t0 or merged(mapped(z.st)) != p0:
                    cx.fail(RX, where(z), "%s fails and leaves the table or mappings changed" % what, z.p)
        for n in (0, 100, mx, 1 << 20, 2 << 20, 4 << 20, 64 << 20):
            for fl in fails:
                s = h0.copy()
                s.fails = set(fl)
                s.maps = [0x7b0000000000, 0x7b8000000000]
                for z in o.realloc(s, p, n):
                    given_back(cx, RF, z, "realloc of %d to %d bytes%s" % (n0, n, " when %s fails" % "/".join(str(x) for x in fl) if fl else ""))
                    if z.end == "ret" and z.ret == 0:
                        cx.obl(RN)
                        if errno_of(z, o) != 12:
                            cx.fail(RN, where(z), "realloc of %d to %d bytes (%s failing) returns NULL with errno %s" % (n0, n, fl, errno_of(z, o)), z.p)
                        lost = [a for e, a, r in z.calls("munmap") if failed(e, r)]
                        left = [x for x in merged(mapped(z.st)) if x not in merged(mapped(h0)) and not any(a[0] is not None and a[0] <= x[0] < a[0] + up(a[1]) for a in lost)]
                        cx.obl(RS)
                        if left:
                            cx.fail(RS, where(z), "realloc of %d to %d bytes (%s failing) returns NULL and leaves %s mapped" % (n0, n, fl, hexes(left)), z.p)
    # slab requests
    for v in sm.each_alloc(cx, "malloc", ("ret",)):
        r = v.p.ret
        if r is None or v.p.eng.truth_in(v.p, tm.eq0(r)) is not True:
            continue
        cx.obl(RU)
        for (e, t) in net(v.p):
            cx.fail(RU, e.ins, "a failed request of class %d leaves %s.%s changed" % (v.S, e.loc.st, e.loc.f), v.p)
        for e in v.p.ev:
            if e.k == "call" and e.name in ("mprotect", "pkey_mprotect", "mmap") and lg.known_ret(v.p, e) is not False:
                if any(x.op == "ld" and x.a[1] == "class_region_start" for x in tm.subterms(e.args[0])):
                    cx.fail(RU, e.ins, "a failed request of class %d leaves slab memory accessible" % v.S, v.p)
        er = last_errno(v.p)
        if er != 12:
            cx.fail(RN, v.p.endins, "a failed request of class %d leaves errno %s" % (v.S, er), v.p)


def given_back(cx, R, z, what):
    """a request must not name addresses which the same call has unmapped before: another thread may have mapped them since"""
    cx.obl(R)
    for e, a, n in z.st.foreign:
        cx.fail(R, e.ins, "%s: %s of %#x-%#x covers addresses already given back to the system" % (what, e.name, a, a + up(n)), z.p)


KEEP = ("metadata_allocated", "canary_value", "rng", "lock", "mutex")


def net(p):
    """stores to bookkeeping whose last value is not the one found"""
    last = {}
    for e in p.ev:
        if e.k in ("store", "rmw") and e.loc.st in ("size_class", "slab_metadata", "region_allocator", "region_metadata") and \
                not any(e.loc.f.startswith(x) for x in KEEP):
            last[e.loc.st, e.loc.f, sm.unver(e.loc.base), e.loc.sub, sm.unver(e.loc.idx) if e.loc.idx is not None else None] = e
    for (st, f, b, sub, idx), e in last.items():
        v = e.val
        if e.k == "store" and v is not None and sm.unver(v).op == "ld":
            u = sm.unver(v)
            if u.a[0] == st and u.a[1] == f and u.a[2] is b and u.a[3] == sub and u.a[4] is idx:
                continue
        yield e, v


def last_errno(p):
    v = None
    for e in p.ev:
        if e.k == "errno_store":
            v = e.val.a[0] if e.val.op == "const" else None
        elif e.k == "call" and e.name in KCALLS and lg.known_ret(p, e) is False:
            v = 12
        elif e.k == "call" and e.name == "prctl":
            v = "of the label"
    return v


# -- C26 -----------------------------------------------------------------------------------------------------
def c26(cx):
    RC, RZ, RL = "slots not cleared on release are cleared by calloc", "slots are cleared on release", "large blocks are fresh pages"
    o = hp.Ops(cx)
    sc, c = sm.table(cx, "size_classes"), sm.canary_size(cx)
    mx = sc[-1]
    on = cx.opt("ZERO_ON_FREE")
    ns = set()
    for s in sc:
        for d in (-c - 1, -c, -c + 1, 0, 1):
            ns.add(max(0, s + d))
    ns |= {mx * 2, 1 << 20, 3 << 20, 1 << 30}
    fns = [("calloc", lambda n: [{0: n, 1: 1}, {0: 1, 1: n}] + ([{0: 2, 1: n // 2}] if n % 2 == 0 else []) + ([{0: n // 3, 1: 3}] if n % 3 == 0 else []))]
    for fn, mk in fns:
        for n in sorted(ns):
            for args in mk(n):
                s = fresh(cx, 1)
                s.maps = [0x7b0000000000]
                for z in o.go(fn, True, s, args, True):
                    if z.end != "ret" or not z.ret:
                        continue
                    what = "%s of %d bytes" % (fn, n)
                    small = [a for e, a, r in z.calls(o.small) if r == z.ret]
                    if small:
                        cx.obl(RC)
                        req = small[0][-1]
                        k = next((i for i, q in enumerate(sc) if q >= req), None)
                        cap = sc[k] - c if sc[k] else 0
                        done = set()
                        for kk, e, a, v in z.trace:
                            if kk == "memset" and a[0] is not None and hp.SLAB <= a[0] < hp.SLABEND:
                                if a[1] is None or a[1] & 0xff or a[2] is None:
                                    cx.fail(RC, e.ins, "%s is filled with %s" % (what, a[1]), z.p)
                                elif a[0] < z.ret or a[0] + a[2] > z.ret + cap:
                                    cx.fail(RC, e.ins, "%s clears %d bytes at offset %d of a block of %d" % (what, a[2], a[0] - z.ret, cap), z.p)
                                elif a[0] == z.ret:
                                    done.add(a[2])
                        if n and not on and max(done, default=0) < n:
                            cx.fail(RC, where(z), "%s clears %d bytes, slots are not cleared on release" % (what, max(done, default=0)), z.p)
                    else:
                        cx.obl(RL)
                        ent = entry(z.st, z.ret)
                        m = [(a, r) for e, a, r in z.calls("mmap", "mmap64") if r == 0x7b0000000000 and a[0] == 0 and a[3] is not None and a[3] & 0x20]
                        if not ent or not m or not m[0][1] <= ent[0] or ent[0] + ent[1] > m[0][1] + up(m[0][0][1]):
                            cx.fail(RL, where(z), "%s is not served from a mapping made for it" % what, z.p)
                        for kk, e, a, v in z.trace:
                            if kk in ("memset", "memcpy") and a and a[0] is not None and z.ret <= a[0] < z.ret + n and not (kk == "memset" and a[1] == 0):
                                cx.fail(RL, e.ins, "%s is written before it is returned" % what, z.p)
    if on:
        from . import content
        content.c11(cx, RZ, False)


# -- C33 -----------------------------------------------------------------------------------------------------
MUST = {"mmap", "mmap64", "mprotect", "pkey_mprotect", "mremap"}
RELEASE = {"munmap", "madvise"}


def c33(cx):
    RF, RI, RT = ("a refusal other than ENOMEM ends the process", "a refusal changes what is done next", "every kernel request is examined")
    P = cx.prog(True)
    fns = sorted(set(cx.api()) | set(cx.heavy()) | set(cx.inits(True)) | set(cx.handlers()))
    for fn in fns:
        if not P.has(fn):
            continue
        kw = {"assume_init": False} if fn in cx.inits(True) else {}
        ps = cx.run(fn, cut=True, **kw)
        judge33(cx, fn, ps, (RF, RI, RT))


def judge33(cx, fn, ps, R):
    RF, RI, RT = R
    # group the paths by the history up to each kernel call
    seen = {}
    for p in ps:
        for i, e in enumerate(p.ev):
            if e.k == "call" and e.name in KCALLS:
                seen.setdefault(id(e), (e, []))[1].append((p, i))
    for e, pis in seen.values():
        ok, bad, fatal, un = [], [], [], []
        for p, i in pis:
            if lg.impossible(p, e):
                continue
            r = lg.known_ret(p, e)
            if r is None:
                un.append((p, i))
            elif r:
                ok.append((p, i))
            else:
                bad.append((p, i))
        cx.obl(RT)
        if un:
            p, i = un[0]
            if p.end != "backedge" or len(un) == len(pis):
                cx.fail(RT, e.ins, "%s: the result of %s is not examined" % (fn, e.name), p)
            continue
        # errno
        cx.obl(RF)
        tested = nomem = other = 0
        for p, i in bad:
            st = errno_after(p, i)
            if st is None:
                cx.fail(RF, e.ins, "%s: a refused %s is not distinguished by its error" % (fn, e.name), p)
                continue
            if st == 12:
                nomem += 1
            elif p.end == "fatal":
                other += 1
                between = [x for x in p.ev[i + 1:] if x.k in ("store", "memset", "memcpy") and x.loc is not None and x.loc.st not in ("alloca", "errno") or
                           x.k == "call" and x.name in KCALLS]
                if between:
                    cx.fail(RF, between[0].ins, "%s: work goes on after %s was refused for an unexpected reason" % (fn, e.name), p)
            else:
                cx.fail(RF, e.ins, "%s: %s refused for a reason other than ENOMEM does not end the process" % (fn, e.name), p)
        if bad and not other:
            cx.fail(RF, e.ins, "%s: no refusal of %s is fatal" % (fn, e.name), bad[0][0])
        if e.name in MUST and nomem and ok:
            cx.obl(RI)
            a = {after(p, i) for p, i in ok}
            b = {after(p, i) for p, i in bad if errno_after(p, i) == 12}
            if a == b:
                cx.fail(RI, e.ins, "%s: %s refused for lack of memory is treated like success" % (fn, e.name), bad[0][0])


def errno_after(p, i):
    """what the path establishes about errno after event i: 12, 'other', or None"""
    v = None
    for e in p.ev[i + 1:]:
        if e.k == "errno_load":
            v = e.val
            break
        if e.k in ("call", "errno_store") and e.k != "branch":
            break
    if v is None:
        return None
    t = p.eng.truth_in(p, tm.eq(v, tm.const(12, v.w)))
    return None if t is None else 12 if t else "other"


def after(p, i):
    out = []
    for e in p.ev[i + 1:]:
        if e.k in ("branch", "load", "errno_load"):
            continue
        out.append((e.k, id(e.ins)))
    r = p.ret if p.end == "ret" else None
    return tuple(out) + (p.end, p.msg, None if r is None else str(r.a[0]) if r.op == "const" else "value")


PROPS = {
    "C22": dict(rule=c22, configs=["default", "plain", "label"], thorough=["light", "stats", "bigq"],
        floor={"a refused request is reported as ENOMEM": 1500, "a failed request leaves table and pages as they were": 1500, "a reported success is complete": 1500,
               "posix_memalign stores only on success": 300, "a failed slab request changes no bookkeeping": 100,
               "addresses given back to the system are not touched again": 1500, "an impossible size is reported as ENOMEM": 250}, technique="abstract interpretation of path summaries over block, table and page-mapping states with every kernel request refused",
        explain="Every allocation function is followed into the large allocator for described heaps (fresh, table due to grow, table full) with "
                "each kernel request refused in turn: a null result must leave ENOMEM in errno, the table and the mappings as found and the output "
                "of posix_memalign alone, a success must be recorded and accessible; sizes and products no machine has must be refused the same way. For slab requests every path of malloc that returns null is "
                "checked per class for net changes of bookkeeping.",
        decides="all paths of the allocation functions at the size and alignment breakpoints; the reserved capacity is not a kernel refusal but is covered alike"),
    "C26": dict(rule=c26, configs=["default", "plain", "nozero"], thorough=["light", "mte"],
        floor={"slots not cleared on release are cleared by calloc": 200, "large blocks are fresh pages": 10}, technique="path-sensitive must-clear analysis over size classes and request sizes",
        explain="Where zero-on-free is off, each path of calloc must clear at least the requested bytes of a slab block and no byte beyond its "
                "usable size; where it is on, every path that releases a slot must have cleared it up to the canary; large blocks must lie in "
                "the mapping made for them and be returned unwritten.",
        decides="all paths for the request sizes around each class boundary; fresh mappings are taken to be zero"),
    "C33": dict(rule=c33, configs=["default", "seal", "label"], thorough=["light", "plain", "android", "mte"],
        floor={"every kernel request is examined": 200, "a refusal other than ENOMEM ends the process": 200, "a refusal changes what is done next": 80}, technique="path-sensitive check of every kernel request's result and error",
        explain="For every kernel request on every path of every entry point, internal function, handler and the initialisation: its result must "
                "be decided by a branch, a refusal must be distinguished by errno, one other than ENOMEM must end in the fatal path with nothing done "
                "in between, and one for lack of memory must not continue exactly like success, unless only address space was to be released.",
        decides="that errors are detected and told apart and reported to the requesting code; that what follows keeps the heap consistent is decided by C14, C17, C22, C25, C42 and C44"),
}
