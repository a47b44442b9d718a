"""C09 C28 C29 C34 C35: what the library offers, and what it asks of others."""
import re
from collections import Counter
from .. import term as tm, flow, heap as hp, small as sm, large as lg
from ..ctx import ToolError
from .big import PAGE, up, where, fresh, entry
from . import resize

# -- the C++ operators ---------------------------------------------------------------------------------------
# name -> (array, size argument, alignment argument, nothrow)
NEW = {"_Znwm": (0, None, False), "_Znam": (0, None, False), "_ZnwmRKSt9nothrow_t": (0, None, True), "_ZnamRKSt9nothrow_t": (0, None, True),
       "_ZnwmSt11align_val_t": (0, 1, False), "_ZnamSt11align_val_t": (0, 1, False),
       "_ZnwmSt11align_val_tRKSt9nothrow_t": (0, 1, True), "_ZnamSt11align_val_tRKSt9nothrow_t": (0, 1, True)}
# name -> (size argument, alignment argument)
DEL = {"_ZdlPv": (None, None), "_ZdaPv": (None, None), "_ZdlPvRKSt9nothrow_t": (None, None), "_ZdaPvRKSt9nothrow_t": (None, None),
       "_ZdlPvm": (1, None), "_ZdaPvm": (1, None), "_ZdlPvSt11align_val_t": (None, 1), "_ZdaPvSt11align_val_t": (None, 1),
       "_ZdlPvSt11align_val_tRKSt9nothrow_t": (None, 1), "_ZdaPvSt11align_val_tRKSt9nothrow_t": (None, 1),
       "_ZdlPvmSt11align_val_t": (1, 2), "_ZdaPvmSt11align_val_t": (1, 2)}
PRETTY = {"_Znw": "operator new", "_Zna": "operator new[]", "_Zdl": "operator delete", "_Zda": "operator delete[]"}


def pretty(n):
    args = {"": "", "m": "size", "Pv": "p", "Pvm": "p, size"}
    r = n[4:]
    a = re.match(r"(m|Pvm|Pv)", r).group(1)
    return "%s(%s%s%s)" % (PRETTY[n[:4]], args[a], ", align" if "align_val" in r else "", ", nothrow" if "nothrow" in r else "")


class Handler:
    """how the environment behaves in one scenario"""

    def __init__(s, results, handlers, exc=0):
        s.results, s.handlers, s.exc = results, handlers, exc


SIZES29 = [0, 1, 8, 16, 17, 4096, 131072, 131073, 1 << 31, 1 << 32, 1 << 63, (1 << 64) - 1]
IGNORE = ("llvm.assume", "llvm.eh.typeid.for", "__errno_location")


def c29(cx):
    RT, RN, RD, RA = ("allocation retries through the handler", "nothrow forms return null", "delete releases what it is given",
                      "sizes and alignments are passed on unchanged")
    P = cx.prog(True, "cxx")
    main = cx.prog(True)
    for fn, (isz, ial, nothrow) in NEW.items():
        if not P.has(fn):
            continue
        m = flow.Machine(cx.run(fn, cut=True, unit="cxx"))
        # results of successive allocations and successive handlers (0: none installed)
        plans = []
        for k in range(4):
            for ok in (0, 1):
                res = [0] * k + ([0x70000000] if ok else [0] * 6)
                for h in range(0, 5):
                    plans.append((res, [0x40000000 + i for i in range(h)]))
        for res, hs in plans:
            for exc in (7, 9):
                judge29(cx, fn, m, res, hs, exc, isz, ial, nothrow, main, (RT, RN, RA))
            if len(hs) in (0, 2):
                for n in SIZES29:
                    for al in (16, 1, 4096, 1 << 20) if ial is not None else (16,):
                        judge29(cx, fn, m, res, hs, 7, isz, ial, nothrow, main, (RT, RN, RA), n, al)
    for fn, (isz, ial) in DEL.items():
        if not P.has(fn):
            continue
        m = flow.Machine(cx.run(fn, cut=True, unit="cxx"))
        for p, n, al in [(p, n, al) for p in (0x70000000, 0, 0x70000008) for n in ([1234567] + SIZES29 if isz is not None else [0])
                         for al in ((8192, 16, 1) if ial is not None else (0,))]:
            args = {0: p}
            if isz is not None:
                args[isz] = n
            if ial is not None:
                args[ial] = al
            outs = m.run(flow.State(), args, lambda e, av, st, tr: None)
            hit = False
            for z in outs:
                cs = [(e, a) for e, a, r in z.calls() if e.name not in IGNORE]
                if any(e.name in ("__cxa_begin_catch", "__clang_call_terminate") for e, a in cs):
                    continue    # an exception leaving a noexcept function
                cx.obl(RD)
                hit = True
                if z.end != "ret":
                    cx.fail(RD, where(z), "%s does not return" % pretty(fn), z.p)
                if p == 0 and not cs:
                    continue
                if len(cs) != 1:
                    cx.fail(RD, where(z), "%s makes %d calls, expected one release" % (pretty(fn), len(cs)), z.p)
                    continue
                e, a = cs[0]
                if a[0] != p:
                    cx.fail(RD, e.ins, "%s does not release the pointer it is given" % pretty(fn), z.p)
                if not main.has(e.name) or not re.match(r"(h_)?c?free", e.name):
                    cx.fail(RD, e.ins, "%s releases through %s, which is not a release function of this allocator" % (pretty(fn), e.name), z.p)
                if isz is not None:
                    cx.obl(RA)
                    want = Counter([n] + ([al] if ial is not None else []))
                    got = Counter(x for x in a[1:])
                    if got != want:
                        cx.fail(RA, e.ins, "%s passes on %s" % (pretty(fn), a[1:]), z.p)
                elif len(a) != 1:
                    cx.fail(RA, e.ins, "%s passes on %s" % (pretty(fn), a[1:]), z.p)
            if not hit:
                raise ToolError("%s: no way through" % fn)


THROW = ("_ZSt17__throw_bad_allocv",)


def throws(e):
    if e.name in THROW:
        return True
    return e.name == "__cxa_throw" and len(e.args) > 1 and e.args[1].op == "g" and e.args[1].a[0] == "_ZTISt9bad_alloc"


def judge29(cx, fn, m, res, hs, exc, isz, ial, nothrow, main, R, size=0x12345, align=512):
    RT, RN, RA = R
    args = {isz: size}
    if ial is not None:
        args[ial] = align

    def oracle(e, av, st, tr):
        if e.name == "_ZSt15get_new_handlerv":
            k = sum(1 for t in tr if t[0] == "call" and t[1].name == e.name)
            return hs[k] if k < len(hs) else 0
        if e.name.startswith("llvm.eh.typeid.for"):
            return 7
        if main.has(e.name):
            k = sum(1 for t in tr if t[0] == "call" and main.has(t[1].name))
            return res[k] if k < len(res) else 0x71000000 + k
        return None

    def over(t, s, f):
        if t.op == "field" and t.a[1] in ((1,), 1):
            return exc
        return None
    outs = m.run(flow.State(), args, oracle, over)
    if not outs:
        raise ToolError("%s: no way through" % fn)
    name = pretty(fn)
    for z in outs:
        cs = [(e, a, r) for e, a, r in z.calls() if e.name not in IGNORE and not e.name.startswith("llvm.")]
        na = nh = 0
        state = "alloc"     # what is expected next
        last = None
        bad = None
        thrown = False
        i = 0
        while i < len(cs) and bad is None:
            e, a, r = cs[i]
            i += 1
            if main.has(e.name):
                cx.obl(RA)
                al = ial is not None
                want = Counter([size, align]) if al else Counter([size])
                if Counter(a) != want or not re.match(r"(h_)?(malloc|aligned_alloc|memalign)$", e.name) or \
                        al != bool(re.search("align", e.name)) or al and a[0] != align:
                    cx.fail(RA, e.ins, "%s calls %s%s" % (name, e.name, tuple(a)), z.p)
                if state != "alloc":
                    bad = (e, "allocates where %s is expected" % state)
                last = r
                state = "done" if r else "handler"
            elif e.name == "_ZSt15get_new_handlerv":
                if state != "handler":
                    bad = (e, "asks for the handler where %s is expected" % state)
                state = "call" if r else "fail"
            elif e.name == "<indirect>":
                if state != "call":
                    bad = (e, "calls a handler where %s is expected" % state)
                elif e.x is not None and e.x.op == "ret" and e.x.a[0] != "_ZSt15get_new_handlerv":
                    bad = (e, "calls something other than the installed handler")
                state = "alloc"
            elif e.name == "__cxa_begin_catch":
                # the handler threw, or an exception is leaving a noexcept function
                if i >= 2 and main.has(cs[i - 2][0].name):
                    state = "impossible"        # the allocator is written in C
                    break
                if any(x[0].name == "_ZSt9terminatev" for x in cs[i:i + 1]):
                    state = "terminate"
                    break
                if exc != 7:
                    bad = (e, "swallows an exception that is not bad_alloc")
                state = "fail"
            elif e.name == "__cxa_end_catch":
                pass
            elif throws(e):
                thrown = True
                if state != "fail":
                    bad = (e, "throws bad_alloc where %s is expected" % state)
            elif e.name in ("__cxa_allocate_exception", "_ZNSt9bad_allocC1Ev", "__cxa_rethrow"):
                thrown = thrown or e.name == "__cxa_rethrow"
            else:
                bad = (e, "calls " + e.name)
        cx.obl(RN if nothrow else RT)
        rule = RN if nothrow else RT
        if bad:
            cx.fail(rule, bad[0].ins, "%s %s" % (name, bad[1]), z.p)
            continue
        if state == "impossible":
            continue
        if state == "terminate":
            # an exception leaves a noexcept function: fine unless this is the one nothrow forms turn into null
            if nothrow and exc == 7 and not cs_catch(cs):
                cx.fail(RN, where(z), "%s terminates when the handler throws bad_alloc" % name, z.p)
            elif not nothrow:
                cx.fail(RT, where(z), "%s terminates" % name, z.p)
            continue
        if z.end == "ret":
            if state == "done":
                if z.ret != last:
                    cx.fail(rule, where(z), "%s does not return the block it allocated" % name, z.p)
            elif state == "fail" and nothrow and not thrown:
                if z.ret != 0:
                    cx.fail(RN, where(z), "%s returns %s on failure" % (name, z.ret), z.p)
            else:
                cx.fail(rule, where(z), "%s returns %s where %s is expected" % (name, z.ret, "an exception" if state == "fail" else "a " + state), z.p)
        elif z.end == "resume":
            # the handler's own exception is passed on
            if nothrow:
                cx.fail(RN, where(z), "%s lets an exception out" % name, z.p)
            elif exc == 7 and not thrown:
                pass
            if any(e.name == "__cxa_begin_catch" for e, a, r in cs) and not thrown and exc != 7:
                cx.fail(rule, where(z), "%s loses the handler's exception" % name, z.p)
        elif z.end == "fatal":
            if not thrown or state != "fail":
                cx.fail(rule, where(z), "%s does not return" % name, z.p)
            elif nothrow:
                cx.fail(RN, where(z), "%s throws" % name, z.p)
        elif z.end in ("loops", "undecided"):
            cx.fail(rule, where(z), "%s: does not end" % name, z.p)


def cs_catch(cs):
    """is the terminating catch entered from within the handler's catch block?"""
    return sum(1 for e, a, r in cs if e.name == "__cxa_begin_catch") > 1


# -- C28 -----------------------------------------------------------------------------------------------------
CNAMES = ["malloc", "calloc", "realloc", "aligned_alloc", "free", "posix_memalign", "memalign", "valloc", "pvalloc", "malloc_usable_size",
          "mallopt", "malloc_trim", "malloc_stats", "malloc_info", "mallinfo", "mallinfo2", "malloc_get_state", "malloc_set_state", "cfree"]
EXT = ["free_sized", "malloc_object_size", "malloc_object_size_fast"]
ALIAS = {"memalign": "aligned_alloc", "cfree": "free"}
ALLOCATES = {"malloc", "calloc", "realloc", "aligned_alloc", "memalign", "valloc", "pvalloc"}
FOREIGN = re.compile(r"^(__libc_)?(malloc|calloc|realloc|free|memalign|valloc|pvalloc|posix_memalign|aligned_alloc|cfree|reallocarray|strdup|strndup|asprintf|"
                     r"vasprintf|fopen|fdopen|getline|getdelim|open_memstream|opendir|dlopen|qsort|mmap_alloc)$")
NOTGLIBC = {"mallinfo2", "pvalloc"}


def refusals(cx, P):
    """the functions of the interface this allocator has no use for: failure is reported, nothing is done"""
    R = "what is not offered reports failure"
    for fn, ok, err in (("malloc_get_state", lambda v: v == 0, 38), ("malloc_set_state", lambda v: v != 0, None),
                        ("mallopt", lambda v: v == 0, None), ("malloc_stats", None, None)):
        if not P.has(fn) or P.fn(fn) not in P.fns:
            continue
        for p in cx.run(P.fn(fn), cut=True, assume_init=False):
            cx.obl(R)
            v = None if p.ret is None or p.ret.op != "const" else p.ret.a[0]
            es = [e.val.a[0] if isinstance(e.val, tm.T) and e.val.op == "const" else None for e in p.ev if e.k == "errno_store"]
            done = [e for e in p.ev if e.k in ("store", "memset", "memcpy", "rmw", "lock", "call") and
                    not (e.k == "call" and e.name == "__errno_location")]
            if p.end != "ret":
                cx.fail(R, p.endins, "%s does not return" % fn, p)
            elif ok is not None and (v is None or not ok(v)):
                cx.fail(R, p.endins, "%s returns %s, which its callers take for success" % (fn, tm.show(p.ret) if p.ret is not None else None), p)
            elif err is not None and es[-1:] != [err]:
                cx.fail(R, p.endins, "%s leaves errno %s, expected %d" % (fn, es[-1] if es else "unchanged", err), p)
            elif done:
                cx.fail(R, done[0].ins, "%s: %s in a function that does nothing" % (fn, done[0].k), p)


def c28(cx):
    RI, RX, RO, RP, RF = ("the interface is complete", "nothing else is exported", "aliases are what they stand for",
                          "every block handed out is this allocator's", "every block taken back goes to this allocator")
    P, Q = cx.prog(True), cx.prog(True, "cxx")
    exp = {}
    for unit in (P, Q):
        for n, i in unit.finfo.items():
            if i.get("default_vis"):
                exp[n] = i
        for a in unit.d["aliases"]:
            if a["default_vis"]:
                exp[a["name"]] = {"file": "h_malloc.c", "line": "alias of " + a["target"]}
        for n, g in unit.globals.items():
            if g.get("default_vis") and not g.get("decl") and not n.startswith(("llvm.", ".str")):
                exp[n] = {"file": g.get("file"), "line": g.get("line")}
    required = CNAMES + EXT + sorted(NEW) + sorted(DEL)
    weak = {n for n, i in {**P.finfo, **Q.finfo}.items() if i.get("weak")}
    for n in required:
        cx.obl(RI)
        if n not in exp:
            cx.fail(RI, "exports", "%s is not exported" % n)
        elif n in weak:
            cx.fail(RI, "exports", "%s is a weak definition" % n)
    for n in sorted(exp):
        cx.obl(RX)
        if n not in required:
            i = exp[n]
            cx.fail(RX, "%s:%s" % (i.get("file"), i.get("line")), "%s is exported" % n)
    for n, t in ALIAS.items():
        cx.obl(RO)
        a = P.aliases.get(n)
        if a is None and n not in P.fns:
            continue
        if a is not None and a != t:
            cx.fail(RO, "h_malloc.c: " + n, "%s stands for %s instead of %s" % (n, a, t))
    # blocks come from the internal allocators
    o = hp.Ops(cx)
    src = {o.small, o.large, o.al_fn}
    for fn in sorted(ALLOCATES & set(P.fns)) + [n for n in sorted(NEW) if Q.has(n)]:
        unit = "cxx" if fn in NEW else "main"
        for p in cx.run(fn, cut=True, unit=unit):
            if p.end != "ret" or p.ret is None:
                continue
            cx.obl(RP)
            r = p.ret
            for x in origins(r):
                if x.op == "const" or x.op == "ret" and (x.a[0] in src if unit == "main" else re.match(r"(h_)?(malloc|aligned_alloc|memalign)$", x.a[0])):
                    continue
                if x.op in ("sym", "ld", "arg", "phi", "ite"):
                    continue        # a result stored through a pointer, the old block of realloc, a retry
                cx.fail(RP, p.endins, "%s returns %s" % (fn, tm.show(x)[:60]), p)
    foreign(cx, P, RP, set(P.fns))
    foreign(cx, Q, RP, set(P.fns) | set(P.aliases))
    refusals(cx, P)
    if P.has("malloc_info"):
        R = "what is not offered reports failure"
        for opt in (1, 2, 0xffffffff, 0x100):
            outs = o.go("malloc_info", True, fresh(cx, 1), {0: opt, 1: 0x7c0000000000}, True)
            if not outs:
                raise ToolError("malloc_info: no way through")
            for z in outs:
                cx.obl(R)
                err = [v for k, e, a, v in z.trace if k == "errno"]
                if z.end != "ret" or z.ret is None or z.ret & 0xffffffff != 0xffffffff or err[-1:] != [22]:
                    cx.fail(R, z.p.endins, "malloc_info with options %#x returns %s with errno %s" % (opt, z.ret, err[-1] if err else "unchanged"), z.p)
    # release reaches the internal release functions
    for fn in ("free", "free_sized", "cfree"):
        if not P.has(fn) or P.aliases.get(fn) == "free":
            continue
        for q in (hp.SLAB + (3 << 36) + 0x30000, 0x7a0000003000):
            st = fresh(cx, 1)
            rel = [z.calls(*o.heavy) for z in o.machine(fn, True).run(st, {0: q, 1: 1}, lambda e, av, s, tr: None if e.name in o.heavy else s.oracle(e, av, s, tr))]
            for cs in rel:
                cx.obl(RF)
                if len(cs) != 1 or cs[0][1][0] != q:
                    cx.fail(RF, P.fns[P.fn(fn)].get("diname", fn), "%s does not hand the pointer to the allocator once (%s)" %
                            (fn, [(e.name, a) for e, a, r in cs]))


def origins(t):
    if t.op == "lin":
        c, d = tm.parts(t)
        return list(d)
    return [t]


def foreign(cx, P, R, own):
    for n, f in P.fns.items():
        for b in f["blocks"]:
            for x in b["ins"]:
                if x["op"] in ("call", "invoke"):
                    c = x.get("callee")
                    cx.obl(R)
                    if c not in own and FOREIGN.match(c or ""):
                        cx.fail(R, x, "%s calls %s of the C library" % (n, c))


# -- C09 -----------------------------------------------------------------------------------------------------
KERNEL = sm.SYS | {"prctl"}


def effects(z):
    """changes made before a way through ends"""
    out = []
    for k, e, a, v in z.trace:
        if k in ("store", "rmw") and e.loc is not None and e.loc.st in ("size_class", "slab_metadata", "region_allocator", "region_metadata", "quarantine_info", "random_state"):
            out.append(e)
        elif k in ("memset", "memcpy"):
            out.append(e)
        elif k == "call" and (e.name in KERNEL or e.name.startswith("get_random")):
            out.append(e)
    return out


def c09(cx):
    RM, RE, RK, RC = ("a wrong size is refused", "nothing has changed when it is refused", "the right size is accepted",
                      "the C++ forms check the size they are given")
    o = hp.Ops(cx)
    P, Q = cx.prog(True), cx.prog(True, "cxx")
    sc, c = sm.table(cx, "size_classes"), sm.canary_size(cx)
    mx = sc[-1]
    starts = resize.class_starts(cx)
    al_new = {}

    def produced(n, al=None):
        """('small', class) or ('large', size) of the block a request yields; None when refused"""
        if (n, al) not in al_new:
            st = fresh(cx, 1)
            st.maps = [0x7b0000000000]
            z = [x for x in (o.go("malloc", True, st, {0: n}, True) if al is None else o.go("aligned_alloc", True, st, {0: al, 1: n}, True))
                 if x.end == "ret" and x.ret]
            if not z:
                al_new[n, al] = None
            elif z[0].calls(o.small):
                req = z[0].calls(o.small)[-1][1][-1]
                al_new[n, al] = ("small", next(i for i, q in enumerate(sc) if q >= req))
            else:
                ent = entry(z[0].st, z[0].ret)
                al_new[n, al] = ("large", ent[1] if ent else None)
        return al_new[n, al]

    forms = [("free_sized", lambda p, n, al: ("free_sized", {0: p, 1: n}), False)]
    for fn, (isz, ial) in DEL.items():
        if isz is None or not Q.has(fn):
            continue
        mq = flow.Machine(cx.run(fn, cut=True, unit="cxx"))

        def call(p, n, al, mq=mq, isz=isz, ial=ial, fn=fn):
            args = {0: p, isz: n}
            if ial is not None:
                args[ial] = al
            for z in mq.run(flow.State(), args, lambda e, av, st, tr: None):
                cs = [(e, a) for e, a, r in z.calls() if e.name not in IGNORE]
                if z.end == "ret" and len(cs) == 1 and P.has(cs[0][0].name):
                    return P.fn(cs[0][0].name), dict(enumerate(cs[0][1]))
            return None
        forms.append((pretty(fn), call, ial is not None))
    heads = {}

    def release(name, args):
        """outcomes of a release call, the slab release function included"""
        got = []

        def orc(e, av, s, tr):
            if e.name in o.heavy:
                if av and av[0] is not None and hp.SLAB <= av[0] < hp.SLABEND:
                    got.append((e.name, av, {k: v for k, v in s.mem.items() if k[0] == ""}))
                    return None
                return o.deep(e, av, s, tr)
            return s.oracle(e, av, s, tr)
        st = base.copy()
        st.ncall = {}
        outs = o.machine(name, True).run(st, args, orc)
        if not got:
            return outs, None
        if len(got) != 1:
            raise ToolError("%s releases %d times" % (name, len(got)))
        fn, av, mem = got[0]
        key = fn, tuple(av), tuple(sorted((k[2], v) for k, v in mem.items() if k[2] in av))
        if key not in heads:
            s = base.copy()
            s.mem.update(mem)
            s.ncall = {}
            heads[key] = o.machine(fn, True).run(s, dict(enumerate(av)), s.oracle)
        return heads[key], fn

    def shape(outs):
        return Counter((z.end, z.msg, tuple(id(e) for k, e, a, r in z.trace if k in ("store", "call", "lock", "unlock"))) for z in outs)
    bounds = sorted({x for k in range(len(sc)) for x in sm.bracket(cx, k)})
    big = [mx + 1, (1 << 20), (1 << 20) + 1, (3 << 20) + 5, 1 << 30, (1 << 63), (1 << 64) - 1, (1 << 64) - 4096]
    # slabs
    base = fresh(cx, 1)
    aligns = [8, 16, 32, 64, 256, 1024, PAGE]
    for k in range(len(sc)):
        p = hp.SLAB + starts[k] + 0x40000
        ref = None
        r0, f0 = release("free", {0: p})
        near = [b for kk in range(max(0, k - 2), min(len(sc), k + 3)) for b in sm.bracket(cx, kk)]
        for name, call, aligned in forms:
            sizes = sorted(set(near + [0, 1, bounds[len(bounds) // 2], bounds[-1]] + big)) if name == "free_sized" or aligned else near
            for n in sizes:
                for al in aligns if aligned and n in near else [16] if not aligned else [64]:
                    t = call(p, n, al)
                    if t is None:
                        cx.obl(RC)
                        cx.fail(RC, "new.cc", "%s does not hand size and alignment to a sized release" % name)
                        continue
                    want = produced(n, al if aligned else None)
                    outs, f = release(*t)
                    if not outs:
                        raise ToolError("%s: no way through" % name)
                    what = "%s of %d bytes%s on a block of class %d" % (name, n, ", alignment %d" % al if aligned else "", sc[k])
                    judge09(cx, outs, want == ("small", k), what, (RM, RE, RK), r0, shape, small=True)
    # large blocks
    for n0, al0 in [(mx + 1, None), (1 << 20, None), ((3 << 20) + 5, None), (40 << 20, None), (100, 1 << 14), (0, 1 << 13), ((1 << 20) + 77, 1 << 21)]:
        want0 = produced(n0, al0)
        if want0 is None or want0[0] != "large":
            continue
        st = fresh(cx, 1)
        st.maps = [0x7b0000000000]
        z = [x for x in (o.go("malloc", True, st, {0: n0}, True) if al0 is None else o.go("aligned_alloc", True, st, {0: al0, 1: n0}, True))
             if x.end == "ret" and x.ret]
        base = z[0].st
        p = z[0].ret
        r0, _ = release("free", {0: p})
        for name, call, aligned in forms:
            for n in sorted({0, 1, 100, mx - c, n0, n0 + 1, n0 - 1 if n0 else 5, want0[1], want0[1] + 1, want0[1] - 1, 2 * want0[1]} | set(big)):
                for al in ((al0,) if al0 else (16, PAGE)) if aligned else (None,):
                    t = call(p, n, al)
                    if t is None:
                        continue
                    if not aligned and al0:
                        continue    # plain sized release of an over-aligned block is outside the contract
                    outs, f = release(*t)
                    what = "%s of %d bytes%s on a large block of %d bytes" % (name, n, ", alignment %d" % al if aligned else "", want0[1])
                    judge09(cx, outs, produced(n, al) == want0, what, (RM, RE, RK), r0, shape)


def judge09(cx, outs, right, what, R, plain, shape, small=False):
    RM, RE, RK = R
    if right:
        cx.obl(RK)
        if small:
            if {(z.end, z.msg) for z in outs} - {(z.end, z.msg) for z in plain}:
                z = [z for z in outs if (z.end, z.msg) not in {(y.end, y.msg) for y in plain}][0]
                cx.fail(RK, where(z), "%s ends in %s" % (what, z.msg), z.p)
            elif not any(z.end == "ret" for z in outs):
                cx.fail(RK, where(outs[0]), "%s never returns" % what, outs[0].p)
        elif {z.end for z in outs} != {z.end for z in plain}:
            cx.fail(RK, where(outs[0]), "%s: %s (%s), free: %s" % (what, outs[0].end, outs[0].msg, plain[0].end), outs[0].p)
        return
    cx.obl(RM)
    for z in outs:
        if z.end != "fatal":
            cx.fail(RM, where(z), "%s is accepted" % what, z.p)
            return
    cx.obl(RE)
    for z in outs:
        ef = effects(z)
        if ef:
            cx.fail(RE, ef[0].ins, "%s: bookkeeping or memory changes before the size is refused" % what, z.p)


# -- C34 -----------------------------------------------------------------------------------------------------
HARMLESS = re.compile(r"^(llvm\.|__errno_location$|str(n?len|chr|n?cmp)$|mem(cpy|set|move|cmp|chr)$|abort$|write$|writev$)")
ANDROID = re.compile(r"^(mallopt|async_safe_fatal|async_safe_fatal_no_abort)$")


def c34(cx):
    RA, RU, RW, RC, RG = ("the report ends in abort", "the report uses no heap, lock or stdio", "the report survives failing writes",
                          "every fatal path goes through the report", "the message is passed on")
    P = cx.prog(True)
    if "fatal_error" not in P.fns:
        raise ToolError("no fatal_error")
    android = "__ANDROID__" in " ".join(P.d.get("flags", []))
    # everything reachable
    seen, work = set(), ["fatal_error"]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        for b in P.fns[n]["blocks"]:
            for x in b["ins"]:
                if x["op"] not in ("call", "invoke"):
                    continue
                cx.obl(RU)
                c = x.get("callee")
                if c in P.fns:
                    work.append(c)
                elif not (HARMLESS.match(c or "") or android and ANDROID.match(c or "")):
                    cx.fail(RU, x, "the report calls %s" % c)
    ps = cx.run("fatal_error", cut=True)
    for p in ps:
        cx.obl(RA)
        if p.end == "ret":
            cx.fail(RA, p.endins, "the report returns", p)
        elif p.end == "fatal":
            last = [e for e in p.ev if e.k == "call"][-1].name
            if last not in (("abort", "async_safe_fatal") if android else ("abort",)):
                cx.fail(RA, p.endins, "the report ends in %s" % last, p)
        for e in p.ev:
            if e.k in ("lock", "unlock"):
                cx.fail(RU, e.ins, "the report takes a lock", p)
            if e.k == "store" and e.loc is not None and e.loc.st not in (None, "alloca", "errno"):
                cx.fail(RU, e.ins, "the report changes %s.%s" % (e.loc.st, e.loc.f), p)
    if not android:
        writes34(cx, ps, RW, RG)
    # every fatal end
    fns = sorted(set(cx.api()) | set(cx.heavy()) | set(cx.inits(True)) | set(cx.handlers()))
    fns += [n for n in sorted(P.fns) if re.match(r"get_random_|random_state_init|chacha_", n) and n not in fns]
    for fn in fns:
        kw = {"assume_init": False} if fn in cx.inits(True) else {}
        for p in cx.run(fn, cut=True, **kw):
            if p.end != "fatal":
                continue
            cx.obl(RC)
            last = [e for e in p.ev if e.k == "call"]
            if not last or last[-1].name != "fatal_error":
                cx.fail(RC, p.endins, "%s ends in %s" % (fn, last[-1].name if last else "a trap"), p)
            elif not p.msg:
                cx.fail(RG, p.endins, "%s dies without a message" % fn, p)
    # nothing runs on after the report
    for n, f in P.fns.items():
        for b in f["blocks"]:
            for i, x in enumerate(b["ins"]):
                if x["op"] in ("call", "invoke") and x.get("callee") == "fatal_error":
                    cx.obl(RC)
                    if not x.get("noreturn") and b["ins"][-1]["op"] != "unreachable":
                        cx.fail(RC, x, "%s goes on after the report" % n)


PFX = 0x60000000


def writes34(cx, ps, RW, RG):
    P = cx.prog(True)
    m = flow.Machine(ps, limit=60)
    MSG = 0x61000000
    text = b"some message"
    # how the successive writes go: number of bytes written, or a negative errno
    plans = [[], [-4], [-4, -4, -4], [-5], [-32], [3], [1, 1, 1], [-4, 2, -4], [None, -9], [None, -4], [None, 1, -4, 2], [None, None, -4], [None, None, -11],
             [None, 4, -5]]
    # errors that stay: every error but an interruption, from the first, second or third write on
    plans += [[None] * k + [-n] * 1000 for n in range(1, 134) if n != 4 for k in ((0, 1, 2) if n in (5, 9, 11, 32) else (0,))]
    plans += [[2] + [-n] * 1000 for n in (5, 9, 11, 28, 32)]
    for plan in plans:
        st = flow.State()

        class S(flow.State):
            pass
        st.errno = 0

        def content(t, a):
            if a == MSG:
                return text
            return None

        def oracle(e, av, s, tr, plan=plan):
            if e.name in ("strlen", "strnlen"):
                if av[0] == MSG:
                    return len(text)
                c = e.args[0]
                return len(cstr(P, c)) if cstr(P, c) is not None else None
            if e.name == "write":
                k = sum(1 for t in tr if t[0] == "call" and t[1].name == "write")
                r = plan[k] if k < len(plan) else None
                if av[2] is None:
                    raise ToolError("fatal_error: the length of a write is not known")
                if r is None or r >= av[2]:
                    return av[2]
                if r < 0:
                    s.errno = -r
                    return (1 << 64) - 1
                return r
            return None
        outs = m.run(st, {0: MSG}, oracle)
        if not outs:
            raise ToolError("fatal_error: no way through")
        for z in outs:
            cx.obl(RW)
            what = "writes going %s" % (plan[:4] or "through")
            if z.end in ("loops", "undecided"):
                cx.fail(RW, where(z), "the report hangs with " + what, z.p)
                continue
            if z.end == "ret":
                cx.fail(RW, where(z), "the report returns with " + what, z.p)
                continue
            buf = b""
            lost = False
            for e, a, r in z.calls("write"):
                cx.obl(RG)
                if a[0] != 2:
                    cx.fail(RG, e.ins, "the report goes to descriptor %s" % a[0], z.p)
                src = bytes_at(P, e.args[1], a[1], MSG, text)
                if src is None or len(src) < a[2]:
                    cx.fail(RG, e.ins, "the report writes %s bytes from %s (%s)" % (a[2], a[1], what), z.p)
                    lost = True
                    break
                if r is not None and r < 1 << 63:
                    buf += src[:r]
            if lost:
                continue
            if not any(x is not None and x < 0 and x != -4 for x in plan):
                cx.obl(RG)
                if buf != b"fatal allocator error: " + text + b"\n":
                    cx.fail(RG, where(z), "the report reads %r with %s" % (buf, what), z.p)
            elif not (b"fatal allocator error: " + text + b"\n").startswith(buf):
                cx.fail(RG, where(z), "the report reads %r with %s" % (buf, what), z.p)


def cstr(P, t):
    c, d = tm.parts(t) if t.op == "lin" else (0, {t: 1})
    g = [x for x in d if x.op == "g"]
    if len(g) == 1:
        gi = P.globals.get(g[0].a[0])
        if gi and gi.get("init", [0])[0] == "str":
            return bytes.fromhex(gi["init"][1])[tm.signed(c, 64):].split(b"\0")[0]
    return None


def bytes_at(P, t, v, MSG, text):
    """the bytes at an address"""
    if v is None:
        return None
    if MSG <= v <= MSG + len(text):
        return text[v - MSG:]
    for n, g in P.globals.items():
        if g.get("init", [0])[0] == "str" and n in flow.GLOB:
            b = bytes.fromhex(g["init"][1])
            a = flow.gaddr(n)
            if a <= v < a + len(b):
                return b[v - a:]
    return None


# -- C35 -----------------------------------------------------------------------------------------------------
PURE = re.compile(r"^(llvm\.|__errno_location$|str|mem|pthread_mutex_(un)?lock$|pthread_mutex_init$|pthread_mutex_trylock$|pthread_mutex_destroy$|pthread_atfork$|sysconf$|getauxval$|getpagesize$|abort$|"
                  r"pthread_(once|self|equal)$|__cxa_|_ZSt|_ZNSt|_Unwind|__gxx|__clang_call_terminate$|__stack_chk_fail$|bcmp$)")
STDIO = re.compile(r"^(fprintf|fputs|fputc|fwrite|putc|fputs_unlocked|vfprintf|snprintf)$")
KNOWN = {"mmap", "mmap64", "munmap", "mprotect", "mremap", "madvise", "getrandom", "write"}


def c35(cx):
    RN, RF, RP, RO = ("no other services are used", "requests carry the documented flags", "protections are none, read or read-write",
                      "fixed mappings replace memory of the allocator")
    P = cx.prog(True)
    cross = "--target" in " ".join(P.d.get("flags", []))      # no C++ headers for cross targets
    Q = P if cross else cx.prog(True, "cxx")
    opts = " ".join(P.d.get("flags", []))
    seal = cx.opt("CONFIG_SEAL_METADATA")
    allowed = set(KNOWN)
    if seal:
        allowed |= {"pkey_alloc", "pkey_mprotect", "pkey_set"}
        allowed -= {"mprotect"}
    if "LABEL_MEMORY" in opts:
        allowed |= {"prctl"}
    android = "__ANDROID__" in opts
    # functions reporting to a stream the caller supplied
    for unit in (P, Q):
        for n, f in unit.fns.items():
            info = unit.finfo.get(n, {})
            for b in f["blocks"]:
                for x in b["ins"]:
                    if x["op"] not in ("call", "invoke"):
                        continue
                    c = x.get("callee")
                    cx.obl(RN)
                    if c in unit.fns or c in P.fns or c in P.aliases or PURE.match(c) or c in allowed:
                        continue
                    if c == "<asm>":
                        if not re.search(r"(?i)\b(syscall|sysenter|int|svc|hvc|smc|call|callq|jmp|bl|blr|br)\b", x.get("asm", "")):
                            continue
                        cx.fail(RN, x, "%s contains assembly: %s" % (n, x.get("asm", "")[:60]))
                        continue
                    if c == "<indirect>":
                        if unit is Q or info.get("third"):
                            continue
                        cx.fail(RN, x, "%s calls an unknown function" % n)
                        continue
                    if STDIO.match(c) and (n == "malloc_info" or info.get("third") or only_from(unit, n, {"malloc_info"})):
                        continue
                    if android and ANDROID.match(c):
                        continue
                    cx.fail(RN, x, "%s uses %s" % (n, c))
    own = owned_fields(cx)
    fns = sorted(set(cx.api()) | set(cx.heavy()) | set(cx.inits(True)) | set(cx.handlers()))
    fns += [n for n in sorted(P.fns) if re.match(r"get_random_seed|get_random_bytes|random_state_init|fatal_error", n) and n not in fns]
    done = set()
    for fn in fns:
        kw = {"assume_init": False} if fn in cx.inits(True) else {}
        for p in cx.run(fn, cut=True, **kw):
            for e in p.ev:
                if e.k != "call" or id(e) in done or e.name not in KNOWN | {"pkey_mprotect", "pkey_set", "pkey_alloc", "prctl"}:
                    continue
                done.add(id(e))
                flags35(cx, fn, p, e, (RF, RP, RO), own, fns)


def only_from(P, n, roots):
    """is a function called from these functions only?"""
    cs = {m for m, f in P.fns.items() for b in f["blocks"] for x in b["ins"] if x["op"] in ("call", "invoke") and x.get("callee") == n}
    info = P.finfo.get(n, {})
    return bool(cs) and not info.get("default_vis") and not info.get("addr_taken") and all(c in roots or only_from(P, c, roots) for c in cs if c != n)


def owned_fields(cx):
    return {"class_region_start", "p", "regions", "region_allocator", "slab_region_start", "slab_region_end", "slab_info", "size_class_metadata"}


def cval(p, t):
    if t.op == "const":
        return {tm.signed(t.a[0], t.w)}
    iv = p.eng.interval_in(p, t) if hasattr(p.eng, "interval_in") else None
    if t.op == "ite":
        a = [cval(p, x) for x in t.a[1:]]
        return None if None in a else a[0] | a[1]
    return None


def flags35(cx, fn, p, e, R, own, fns):
    RF, RP, RO = R
    a = e.args

    def want(i, vals, rule=RF, what="argument %d"):
        cx.obl(rule)
        v = cval(p, a[i]) if i < len(a) else None
        if v is None or not v <= set(vals):
            cx.fail(rule, e.ins, "%s: %s of %s is %s" % (fn, what % i if "%" in what else what, e.name, tm.show(a[i])[:40] if i < len(a) else "missing"), p)
            return False
        return True
    mte = {0x20} if "PROT_MTE" in " ".join(cx.prog(True).d.get("flags", [])) else set()
    if e.name in ("mmap", "mmap64"):
        want(2, {0} | mte, RP, "the protection")
        want(4, {-1}, RF, "the file")
        want(5, {0}, RF, "the offset")
        v = cval(p, a[3])
        cx.obl(RF)
        if v is None or not v <= {0x22, 0x32} or len(v) != 1:
            cx.fail(RF, e.ins, "%s: mmap with flags %s" % (fn, tm.show(a[3])[:40]), p)
        elif v == {0x22}:
            if a[0].op != "const" or a[0].a[0] != 0:
                cx.fail(RF, e.ins, "%s: mmap with a hint" % fn, p)
        else:
            cx.obl(RO)
            if not owned(cx, p, a[0]):
                cx.fail(RO, e.ins, "%s: a fixed mapping at %s" % (fn, tm.show(a[0])[:80]), p)
    elif e.name in ("mprotect", "pkey_mprotect"):
        want(2, {1, 3} | {3 | x for x in mte} | {1 | x for x in mte}, RP, "the protection")
        cx.obl(RO)
        if not owned(cx, p, a[0]):
            cx.fail(RO, e.ins, "%s: %s of %s" % (fn, e.name, tm.show(a[0])[:80]), p)
    elif e.name == "munmap" or e.name == "madvise":
        if e.name == "madvise":
            want(2, {4}, RF, "the advice")
        cx.obl(RO)
        if not owned(cx, p, a[0]):
            cx.fail(RO, e.ins, "%s: %s of %s" % (fn, e.name, tm.show(a[0])[:80]), p)
    elif e.name == "mremap":
        v = cval(p, a[3])
        cx.obl(RF)
        if v is None or not (v == {0} or v == {3} and len(a) > 4 and not (a[4].op == "const" and a[4].a[0] == 0)):
            cx.fail(RF, e.ins, "%s: mremap with flags %s and %d arguments" % (fn, tm.show(a[3])[:40], len(a)), p)
        for x in [a[0]] + a[4:]:
            cx.obl(RO)
            if not owned(cx, p, x):
                cx.fail(RO, e.ins, "%s: mremap of %s" % (fn, tm.show(x)[:80]), p)
    elif e.name == "getrandom":
        want(2, {0}, RF, "the flags")
    elif e.name == "write":
        want(0, {2}, RF, "the descriptor")
    elif e.name == "prctl":
        want(0, {0x53564d41}, RF, "the operation")
        want(1, {0}, RF, "the operation")
    elif e.name == "pkey_alloc":
        want(0, {0})
        want(1, {0})
    elif e.name == "pkey_set":
        want(1, {0, 1, 2, 3})


def owned(cx, p, t):
    """an address computed from a mapping, from bookkeeping or from an argument of an internal function"""
    c, d = tm.parts(t) if t.op == "lin" else (0, {t: 1})
    ok = False
    for x, q in d.items():
        for y in tm.subterms(x):
            if y.op == "ret" and y.a[0] in ("mmap", "mmap64", "mremap") or y.op == "ret" and y.a[0] in cx.prog(True).fns:
                ok = True
            elif y.op in ("ld", "sym", "arg", "g", "phi", "alloca"):
                ok = True
    return ok


PROPS = {
    "C09": {"rule": c09, "configs": ["default", "light", "plain", "nozero"], "thorough": ["stats", "seal", "label"],
            "floor": {"a wrong size is refused": 3000, "the right size is accepted": 300},
            "technique": "dataflow over the typed call chain: path summaries of the sized release entry points (C and C++) evaluated per size class",
            "explain": "For every size class and for large blocks the release path selected by the source is evaluated for sizes on both sides of every class boundary; the size class a request is served from is read off the allocation entry points of the same tree."},
    "C28": {"rule": c28, "configs": ["default", "light", "plain", "seal"], "thorough": ["stats", "nozero", "label"],
            "floor": {"what is not offered reports failure": 12, "the interface is complete": 160, "nothing else is exported": 160, "every block handed out is this allocator's": 1000},
            "technique": "symbol and linkage query over the compiler IR, provenance of returned pointers over all paths",
            "explain": "Visibility and linkage of all definitions and aliases in the IR of the library, compared with the malloc interface; results and effects of the functions that are not offered; provenance of every returned pointer and the callee of every release."},
    "C29": {"rule": c29, "configs": ["default", "light"], "thorough": ["plain", "seal"],
            "floor": {"allocation retries through the handler": 300, "nothrow forms return null": 300, "delete releases what it is given": 40},
            "technique": "typestate of allocation and handler calls over all paths of the C++ operators, exception edges included",
            "explain": "The paths of every operator, exceptional edges included, form an automaton over allocation, handler and throw events; it is compared with the one the standard prescribes for every history of up to four failed allocations."},
    "C34": {"rule": c34, "configs": ["default", "light", "plain", "seal", "label", "android"], "thorough": ["stats", "nozero", "mte"],
            "floor": {"every fatal path goes through the report": 500, "the report survives failing writes": 50},
            "technique": "call-graph effect analysis of the fatal path, path enumeration over write results",
            "explain": "All functions reachable from fatal_error are checked for effects; its paths are followed for every way writes can fail, be interrupted or be short; every fatal end of every other path is traced to it."},
    "C35": {"rule": c35, "configs": ["default", "light", "plain", "seal", "label", "mte", "android"], "thorough": ["stats", "nozero", "bigq"],
            "floor": {"no other services are used": 1000, "requests carry the documented flags": 200, "protections are none, read or read-write": 100},
            "technique": "effect analysis: external callees of the whole program, constant propagation into kernel request arguments",
            "explain": "Every external callee in the IR of the library is compared with the documented list, and protection, flag, descriptor and address arguments of every kernel request are evaluated on every path."},
}
