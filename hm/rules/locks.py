"""C01-C06: locking, fork, initialisation, sealed globals."""
from .. import engine as en, term as tm, large as lg
from ..ctx import GUARDED, ToolError, held_at, lds, lockkind, calls

# external functions that neither allocate nor call back nor take locks of their own
SAFE = {"mmap", "mmap64", "munmap", "mprotect", "pkey_mprotect", "madvise", "mremap", "prctl", "getrandom", "write",
        "sysconf", "pkey_alloc", "pkey_set", "pkey_get", "abort", "memcpy", "memset", "memmove", "strlen", "memcmp",
        "__errno_location", "<asm>", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "_exit",
        "gettid", "getpid", "async_safe_fatal_no_abort"}


def atfork(cx):
    """the three fork handlers, from the registration on the initialisation path"""
    P = cx.prog()
    for n in cx.inits():
        for p in cx.run(n, assume_init=False):
            for e in calls(p, "pthread_atfork"):
                return [a.a[0] if a.op == "fn" else None for a in e.args[:3]]
    return [None, None, None]


def roots(cx):
    h = set(cx.handlers())
    return sorted(set(cx.api()) | set(cx.heavy()) | h | set(cx.prog().d.get("ctors", [])) - set(cx.inits()))


def freezers(cx):
    """functions that only acquire or only release: the fork handlers and the exported pair doing the same"""
    h = [x for x in atfork(cx) if x]
    return set(h) | {n for n in cx.api() if n in ("h_malloc_disable", "h_malloc_enable", "malloc_disable", "malloc_enable")}


def owners(t):
    """the size classes whose state the address of a slab_metadata object was obtained from"""
    return {x.a[2] for x in tm.subterms(t) if x.op == "ld" and x.a[0] == "size_class"}


def accesses(cx, p):
    """(event, location, what) for every access of a path to lockable state"""
    P = p.eng.p
    for e in p.ev:
        if e.k in ("load", "store", "rmw", "memset", "memcpy"):
            if e.loc is not None and e.loc.st in GUARDED:
                yield e, e.loc
            if e.k == "memcpy" and e.x is not None and getattr(e.x, "st", None) in GUARDED:
                yield e, e.x
        elif e.k == "call" and not e.name.startswith("libdivide"):
            for a in e.args or []:
                if not isinstance(a, tm.T):
                    continue
                loc = p.eng.resolve(a)
                if loc.st in GUARDED and loc.f in ("rng", "lock") or (loc.st in GUARDED and e.name in P.fns and
                                                                     e.name not in cx.heavy()):
                    yield e, loc


def c01(cx):
    P = cx.prog()
    imm = P.immutable
    pre, par, child = atfork(cx)
    frz = freezers(cx)
    for n in roots(cx):
        if n == child:
            continue          # the child is single-threaded while its handler runs
        for p in cx.run(n):
            held = held_at(p)
            for e, loc in accesses(cx, p):
                if loc.lab in imm or loc.f == "lock":
                    continue
                kind = GUARDED[loc.st]
                hs = [h for h in held[e.i] if h[0] == kind]
                cx.obl("access under lock")
                what = "%s.%s" % (loc.st, loc.f)
                if not hs:
                    cx.fail("access under lock", e.ins, "%s of %s without holding the %s lock" %
                            (e.k, what, "size class" if kind == "class" else "large-allocation"), p)
                    continue
                if kind == "class" and n not in frz:
                    own = {loc.base} if loc.st == "size_class" else owners(loc.base)
                    if own and not own & {h[1] for h in hs}:
                        cx.fail("lock of the owner", e.ins, "%s of %s of %r while holding the lock of %r" %
                                (e.k, what, sorted(own, key=lambda t: t.id)[0], hs[0][1]), p)
                # a looked-up entry must come from this critical section
                if loc.st in ("region_metadata", "slab_metadata") and e.k != "call":
                    cx.obl("entry looked up in this critical section")
                    last = max(h[2] for h in hs)
                    stale = []
                    for x in tm.subterms(loc.base):
                        if x.op == "ld" and (x.a[0], x.a[1]) not in imm and x.a[0] in GUARDED and P_ptr(P, x):
                            if x not in loads_between(p, last, e.i):
                                stale.append(x)
                    if stale:
                        cx.fail("entry looked up in this critical section", e.ins,
                                "%s of %s through %r, read before the lock was last taken" % (e.k, what, stale[0]), p)
            # other shared variables
            for e in p.ev:
                if e.k in ("load", "store") and e.loc is not None and e.loc.st in P.globals:
                    g = P.globals[e.loc.st]
                    if g["const"] or g["tls"] or g["decl"] or e.loc.lab in imm or e.loc.st == "ro":
                        continue
                    if e.loc.f == "lock" or g["name"].startswith(".str"):
                        continue
                    cx.obl("other shared variables atomic")
                    if not e.x and not any(h[0] == "init" for h in held[e.i]):
                        cx.fail("other shared variables atomic", e.ins, "plain %s of the shared variable %s" % (e.k, e.loc.st), p)
                elif e.k == "rmw":
                    cx.obl("other shared variables atomic")
    cx.sample("roots: " + ", ".join(roots(cx)))


def P_ptr(P, x):
    for m in P.structs.get(x.a[0], {}).get("members", []):
        if m["name"] == x.a[1]:
            return "*" in m["type"]
    return False


def loads_between(p, a, b):
    return {e.val for e in p.ev[a:b + 1] if e.k in ("load", "store")}


def c02(cx):
    pre, par, child = atfork(cx)
    frz = freezers(cx)
    for n in roots(cx) + cx.inits():
        init = n in cx.inits()
        for p in cx.run(n, assume_init=not init):
            held = []
            at_header = {}
            for e in p.ev:
                if e.k == "lock":
                    k = (lockkind(e.loc), e.loc.base, e.loc.f)
                    cx.obl("no lock taken twice")
                    if k in held and n not in frz:
                        cx.fail("no lock taken twice", e.ins, "lock already held on this path", p)
                    held.append(k)
                elif e.k == "unlock":
                    k = (lockkind(e.loc), e.loc.base, e.loc.f)
                    cx.obl("only held locks are released")
                    if k in held:
                        held.remove(k)
                    elif n not in frz:
                        cx.fail("only held locks are released", e.ins, "releases a lock that is not held on this path", p)
                elif e.k == "loop":
                    at_header.setdefault(e.x, list(held))
                elif e.k == "backedge" and n not in frz:
                    cx.obl("loops keep the lock set")
                    if sorted(map(str, at_header.get(e.x, held))) != sorted(map(str, held)):
                        cx.fail("loops keep the lock set", e.ins, "an iteration changes the set of held locks", p)
                elif e.k == "call" and e.name in cx.heavy() and held:
                    pass
            if p.end in ("ret", "resume") and n not in frz:
                cx.obl("all locks released at return")
                if held:
                    cx.fail("all locks released at return", p.endins, "returns with the %s lock held" % held[0][0], p)


ORDER = {"init": 0, "region": 1, "class": 2}


def c03(cx):
    P = cx.prog()
    frz = freezers(cx)
    kinds = {}
    allr = roots(cx) + cx.inits()
    for n in cx.heavy() + cx.inits():
        ks = set()
        for p in cx.run(n, assume_init=n not in cx.inits()):
            ks |= {lockkind(e.loc) for e in p.ev if e.k == "lock"}
        kinds[n] = ks
    ext = set(cx.api())
    for n in allr:
        for p in cx.run(n, assume_init=n not in cx.inits()):
            held = held_at(p)
            for e in p.ev:
                h = [x[0] for x in held[e.i]]
                if e.k == "lock":
                    k = lockkind(e.loc)
                    cx.obl("lock order")
                    for x in h:
                        if ORDER.get(x, 9) > ORDER.get(k, 9) or x == k and n not in frz and x != "init":
                            cx.fail("lock order", e.ins, "takes a %s lock while holding a %s lock" % (k, x), p)
                elif e.k == "call":
                    if not h:
                        continue
                    cx.obl("calls under a lock")
                    nm = e.name
                    if nm in kinds:
                        for k in kinds[nm]:
                            for x in h:
                                if ORDER.get(x, 9) >= ORDER.get(k, 9):
                                    cx.fail("lock order", e.ins, "calls %s, which takes a %s lock, while holding a %s lock"
                                            % (nm, k, x), p)
                    elif nm in ext or nm == "<indirect>":
                        cx.fail("calls under a lock", e.ins, "calls %s while holding the %s lock" % (nm, h[0]), p)
                    elif nm not in P.fns and nm not in SAFE and not nm.startswith("llvm."):
                        cx.fail("calls under a lock", e.ins, "calls %s, outside the allocator, while holding the %s lock"
                                % (nm, h[0]), p)
    for n in allr:
        if n not in frz:
            carried(cx, n)
    # the freezing half acquires in one fixed order
    pre = atfork(cx)[0]
    if pre is None:
        raise ToolError("no fork handlers registered")
    seqs = set()
    for p in cx.run(pre, unroll=True):
        seq = [(ORDER.get(lockkind(e.loc), 9), e.loc.base) for e in p.ev if e.k == "lock"]
        cx.obl("freeze order", len(seq))
        for a, b in zip(seq, seq[1:]):
            ok = a[0] < b[0]
            if a[0] == b[0]:
                ok = addr_less(p, a[1], b[1])
            if not ok:
                cx.fail("freeze order", p.ev[0].ins, "locks are not taken in the global order: %r before %r" % (a, b), p)
                break


def carried(cx, n):
    """locks that an iteration of a loop passes on to the next one and to what follows the loop"""
    ps = cx.run(n, assume_init=n not in cx.inits())
    net = {}
    for p in ps:
        be = p.ev[-1] if p.ev and p.ev[-1].k == "backedge" else next((e for e in reversed(p.ev) if e.k == "backedge"), None)
        if p.end != "backedge" or be is None:
            continue
        hv = [e for e in p.ev if e.k == "loop" and e.name == "havoc" and e.x == be.x]
        if not hv:
            continue
        hv = hv[-1]
        mine = []
        for e in p.ev[hv.i:]:
            if e.k == "lock":
                mine.append(e)
            elif e.k == "unlock":
                for m in reversed(mine):
                    if m.loc.base is e.loc.base and m.loc.f == e.loc.f:
                        mine.remove(m)
                        break
        for m in mine:
            net.setdefault(be.x, []).append((m, p, hv, be))
    for h, ms in net.items():
        for m, p, hv, be in ms:
            k = lockkind(m.loc)
            # the next iteration takes its lock with this one held, unless it starts by giving one up
            for q in ps:
                hq = [e for e in q.ev if e.k == "loop" and e.name == "havoc" and e.x == h]
                if not hq:
                    continue
                mine = []
                for e in q.ev[hq[-1].i:]:
                    if e.k == "unlock":
                        own = [x for x in mine if x.loc.base is e.loc.base and x.loc.f == e.loc.f]
                        if not own:
                            break
                        mine.remove(own[-1])
                    if e.k != "lock":
                        continue
                    mine.append(e)
                    k2 = lockkind(e.loc)
                    cx.obl("lock order")
                    if ORDER.get(k, 9) > ORDER.get(k2, 9):
                        cx.fail("lock order", e.ins, "takes a %s lock while holding a %s lock from an earlier iteration" % (k2, k), q)
                    elif k == k2 and e.ins is m.ins and q is p and k != "init":
                        sub = {}
                        for i, nv in be.val.items():
                            at = hv.val.get(i)
                            if at is not None:
                                sub[at[1]] = nv
                        if not addr_less(p, m.loc.base, tm.substitute(m.loc.base, sub)):
                            cx.fail("lock order", e.ins, "takes a %s lock while holding one from an earlier iteration that comes after it in the order" % k, p)


def addr_less(p, a, b):
    """a before b by arena then class (same array: by constant offset; arrays by index)"""
    d = tm.sub(b, a)
    if d.op == "const":
        return 0 < tm.sval(d)
    ia, ib = arr_index(a), arr_index(b)
    return ia is not None and ib is not None and ia < ib


def arr_index(t):
    for x in lds(t, "ro", "size_class_metadata"):
        i = x.a[4]
        return 0 if i is None else tm.cval(i) if i.op == "const" else None
    return None


def c04(cx):
    P = cx.prog()
    ini = [n for n in cx.inits()]
    if not ini:
        raise ToolError("no initialisation function found")
    reg = 0
    inited = set()
    seeded = set()
    hs = None
    for n in ini:
        for p in cx.run(n, assume_init=False, unroll=True, facts=no_fail, cache=False):
            at = calls(p, "pthread_atfork")
            if p.end == "ret":
                ran = any(e.k == "store" and e.loc.f == "slab_region_end" for e in p.ev)
                if ran:
                    cx.obl("handlers registered once per initialisation")
                    if len(at) != 1:
                        cx.fail("handlers registered once per initialisation", p.endins,
                                "initialisation completes with %d registrations of fork handlers" % len(at), p)
            if at:
                hs = [a.a[0] if a.op == "fn" else None for a in at[0].args[:3]]
                if None in hs:
                    cx.fail("handlers registered once per initialisation", at[0].ins, "a fork handler is missing", p)
                    return
                bases = region_bases(p)
                cx.obl("mutexes and generators found", 1)
                for e in p.ev:
                    if e.k == "mutexinit" and e.loc.st in ("size_class", "region_allocator"):
                        inited.add(canon(e.loc.base, bases))
                    if e.k == "call" and e.name.startswith("random_state_init"):
                        loc = p.eng.resolve(e.args[0])
                        if loc.st in ("size_class", "region_allocator"):
                            seeded.add(canon(loc.base, bases))
    if hs is None:
        cx.fail("handlers registered once per initialisation", "pthread_atfork", "initialisation registers no fork handlers")
        return
    want = expected(cx)
    cx.obl("initialisation covers every lock", len(want))
    report(cx, "initialisation covers every lock", want, inited, "pthread_mutex_init in initialisation", ini[0])

    def collect(fn, pick):
        out = []
        for p in cx.run(fn, unroll=True, facts=no_fail, cache=False):
            if p.end != "ret":
                continue
            out.append((p, [(canon(l.base, {}), e) for e, l in pick(p)]))
        return out
    lk = lambda k: lambda p: [(e, e.loc) for e in p.ev if e.k == k and lockkind(e.loc) in ("class", "region")]
    for fn, rule, pick in ((hs[0], "prepare acquires every lock", lk("lock")),
                           (hs[1], "parent releases every lock", lk("unlock")),
                           (hs[2], "child re-creates every lock", lk("mutexinit")),
                           (hs[2], "child re-seeds every generator",
                            lambda p: [(e, p.eng.resolve(e.args[0])) for e in calls(p, "random_state_init")])):
        res = collect(fn, pick)
        if not res:
            cx.fail(rule, fn, "the handler never returns")
        for p, got in res:
            cx.obl(rule, len(got))
            g = [k for k, _ in got]
            report(cx, rule, want, set(g), fn, fn, p)
            if len(g) != len(set(g)):
                cx.fail(rule, p.endins, "acts twice on the same lock or generator", p)
            if fn == hs[0]:
                for e in p.ev:
                    if e.k == "unlock":
                        cx.fail(rule, e.ins, "releases a lock before the fork", p)
    # for every exported pair with the same duty
    for nm, k, rule in (("malloc_disable", "lock", "freeze acquires every lock"), ("malloc_enable", "unlock", "unfreeze releases every lock")):
        if P.has(nm):
            for p in cx.run(nm, unroll=True, facts=no_fail, cache=False):
                if p.end == "ret":
                    got = [canon(e.loc.base, {}) for e in p.ev if e.k == k and lockkind(e.loc) in ("class", "region")]
                    cx.obl(rule, len(got))
                    report(cx, rule, want, set(got), nm, nm, p)


def no_fail(eng, st):
    pass


def report(cx, rule, want, got, what, where, p=None):
    miss = want - got
    if miss:
        cx.fail(rule, where, "%s leaves out %d of %d, first %s" % (what, len(miss), len(want), sorted(miss)[0]), p)
    extra = got - want
    if extra:
        cx.fail(rule, where, "%s touches an unknown object %s" % (what, sorted(extra)[0]), p)


def expected(cx):
    """every size class of every arena and the large allocator, from the declared array types"""
    P = cx.prog()
    na, nc = dims(P)
    return {"region"} | {"class %d/%d" % (a, c) for a in range(na) for c in range(nc)}


def dims(P):
    ro = P.globals["ro"]
    m = [x for x in ro["members"] if x["name"] == "size_class_metadata"][0]
    na = m["size"] // 8
    q = P.structs.get("allocator_state")
    mm = [x for x in q["members"] if x["name"] == "size_class_metadata"][0]
    nc = mm["size"] // P.structs["size_class"]["size"] // na
    return na, nc


def region_bases(p):
    """terms stored to ro.* during initialisation -> name"""
    out = {}
    for e in p.ev:
        if e.k == "store" and e.loc.st == "ro":
            if e.loc.f == "region_allocator":
                out[e.val] = "region"
            elif e.loc.f == "size_class_metadata":
                i = e.loc.idx
                n = 0 if i is None else tm.cval(i) // 8 if i.op == "const" else None
                out[e.val] = n
    return out


def canon(base, stored):
    """'region' or 'class a/k' for the base address of a lock owner"""
    sz = CANON_SZ[0]
    if stored:
        for v, n in stored.items():
            if n == "region":
                if v is base or tm.eq(v, base) is tm.TRUE:
                    return "region"
        best = None
        for v, n in stored.items():
            if n != "region":
                d = tm.sub(base, v)
                if d.op == "const" and 0 <= tm.sval(d) < CANON_SZ[1] * sz:
                    return "class %d/%d" % (n, tm.sval(d) // sz)
        return "region" if "region" in stored.values() and near(base, stored) else "? %r" % base
    for x in lds(base, "ro"):
        if x.a[1] == "region_allocator":
            return "region"
        if x.a[1] == "size_class_metadata":
            i = x.a[4]
            a = 0 if i is None else tm.cval(i) // 8 if i.op == "const" else None
            d = tm.sub(base, x)
            if d.op == "const" and a is not None:
                return "class %d/%d" % (a, tm.sval(d) // sz)
    return "? %r" % base


def near(base, stored):
    return False


CANON_SZ = [0, 0]


def with_dims(f):
    def g(cx):
        P = cx.prog()
        CANON_SZ[0] = P.structs["size_class"]["size"]
        CANON_SZ[1] = dims(P)[1]
        return f(cx)
    return g



# -- C05 -----------------------------------------------------------------------------------------------
def ready_events(p, inits, na):
    """index of the first event after which the allocator is known to be initialised on this path"""
    for e in p.ev:
        if e.k == "call" and e.name in inits:
            return e.i
        if e.k == "branch" and e.x in (True, False):
            v, c = e.x, e.val
            while c.op == "not":
                v, c = not v, c.a[0]
            if c.op == "eq" and not v and is_end(c.a[0]):
                return e.i
            if c.op == "ult" and v and is_end(c.a[1]):
                return e.i
            if c.op == "ult" and v and c.a[0].op == "ld" and c.a[0].a[0] == "thread_arena" and \
                    c.a[1].op == "const" and c.a[1].a[0] <= na:
                return e.i
    return None


def is_end(t):
    return t.op == "ld" and t.a[1] == "slab_region_end"


def early(cx, n, inits, na, selfok):
    """uses of allocator state on paths where initialisation is not yet known to have happened"""
    out = []
    P = cx.prog()
    for p in cx.run(n, assume_init=False):
        r = ready_events(p, inits, na)
        for e in p.ev:
            if r is not None and e.i > r:
                break
            bad = None
            if e.k in ("load", "store", "memset", "memcpy", "rmw"):
                for l in (e.loc, e.x if e.k == "memcpy" else None):
                    if isinstance(l, en.Loc) and (l.st in GUARDED or l.st == "ro" and l.f not in (
                            "slab_region_end", "slab_region_start", "is_memtag_disabled", "metadata_pkey")):
                        bad = "%s of %s.%s" % (e.k, l.st, l.f)
            elif e.k in ("lock", "unlock") and lockkind(e.loc) != "init":
                bad = "%s of allocator state" % e.k
            elif e.k == "call" and e.name in P.fns and e.name in cx.heavy() and e.name not in inits and e.name not in selfok:
                bad = "call of %s" % e.name
            if bad:
                out.append((e, bad, p))
                break
    return out


def c05(cx):
    P = cx.prog()
    inits = cx.inits()
    if not inits:
        raise ToolError("no initialisation function found")
    na, nc = dims(P)
    selfok = set()
    for _ in range(4):
        new = {n for n in cx.heavy() if n not in selfok and not early(cx, n, inits, na, selfok)}
        if not new:
            break
        selfok |= new
    fork = set(x for x in atfork(cx) if x)
    for n in cx.api() + [c for c in P.d.get("ctors", [])]:
        if n in ("free_hook",):
            continue
        cx.obl("no use of allocator state before initialisation")
        for e, bad, p in early(cx, n, inits, na, selfok):
            cx.fail("no use of allocator state before initialisation", e.ins, bad + " on a path where the allocator may not be initialised", p)
        # the fast path relies on: the thread has an arena number only if initialisation was checked
        for p in cx.run(n, assume_init=False):
            for e in p.ev:
                if e.k == "store" and e.loc.st == "thread_arena" and p.end == "ret":
                    cx.obl("assigning an arena initialises")
                    ok = False
                    for x in p.ev[e.i:]:
                        if x.k == "call" and x.name in inits:
                            ok = True
                        if x.k == "branch" and x.x in (True, False):
                            v, c = x.x, x.val
                            while c.op == "not":
                                v, c = not v, c.a[0]
                            if c.op == "eq" and not v and is_end(c.a[0]):
                                ok = True
                    if not ok:
                        cx.fail("assigning an arena initialises", e.ins, "the thread gets an arena number without initialisation being checked", p)
            for e in p.ev:
                if e.k == "load" and e.loc.f == "slab_region_end":
                    cx.obl("published pointer is read with acquire")
                    if e.x not in ("acquire", "seq_cst", "acq_rel"):
                        cx.fail("published pointer is read with acquire", e.ins, "slab_region_end is read with ordering %s" % (e.x or "none"), p)
    for n in inits:
        for p in cx.run(n, assume_init=False):
            if p.end == "fatal":
                continue
            ev = p.ev
            first = next((e for e in ev if e.k not in ("branch", "loop")), None)
            cx.obl("initialisation runs under its lock")
            if first is None or first.k != "lock" or lockkind(first.loc) != "init":
                cx.fail("initialisation runs under its lock", ev[0].ins if ev else n, "initialisation starts without taking its lock", p)
                continue
            held = held_at(p)
            # re-check under the lock, before anything else
            effects = [e for e in ev if e.k in ("store", "memset", "memcpy", "mutexinit", "rmw", "call") and
                       not (e.k == "call" and e.name in ("fatal_error",)) and not (e.k == "store" and e.loc.st == "errno")]
            chk = next((e for e in ev if e.k == "branch" and is_end_test(e.val)), None)
            cx.obl("initialised state is re-checked under the lock")
            if effects and (chk is None or chk.i > effects[0].i or not held[chk.i]):
                cx.fail("initialised state is re-checked under the lock", effects[0].ins,
                        "initialisation proceeds without re-checking under its lock", p)
                continue
            if chk is not None and end_known(chk):
                cx.obl("second initialiser leaves state alone")
                if effects:
                    cx.fail("second initialiser leaves state alone", effects[0].ins, "acts although already initialised", p)
                continue
            pub = [e for e in ev if e.k == "store" and e.loc.f == "slab_region_end" and e.loc.st == "ro"]
            if p.end == "ret":
                cx.obl("published exactly once")
                if len(pub) != 1:
                    cx.fail("published exactly once", p.endins, "slab_region_end is stored %d times on a completing path" % len(pub), p)
            if not pub:
                continue
            pub = pub[0]
            cx.obl("published with release")
            if pub.x not in ("release", "seq_cst", "acq_rel"):
                cx.fail("published with release", pub.ins, "slab_region_end is stored with ordering %s" % (pub.x or "none"), p)
            if not any(h[0] == "init" for h in held[pub.i]):
                cx.fail("published exactly once", pub.ins, "published without the initialisation lock", p)
            for e in ev:
                st = None
                if e.k in ("store", "memset", "memcpy", "rmw", "mutexinit"):
                    st = e.loc.st
                elif e.k == "call" and e.name.startswith("random_state_init"):
                    st = p.eng.resolve(e.args[0]).st
                if st == "ro" or st in GUARDED:
                    cx.obl("state is complete before publication")
                    if e.i > pub.i:
                        cx.fail("state is complete before publication", e.ins, "%s of %s after initialisation was published" % (e.k, st), p)
            cx.sample("%s: %d state writes before the release store" % (n, sum(1 for e in ev[:pub.i] if e.k == "store")))


def is_end_test(c):
    while c.op == "not":
        c = c.a[0]
    return c.op == "eq" and is_end(c.a[0])


def end_known(e):
    v, c = e.x, e.val
    while c.op == "not":
        v, c = not v, c.a[0]
    return not v


# -- C06 -----------------------------------------------------------------------------------------------
def c06(cx):
    P = cx.prog()
    inits = cx.inits()
    sealed = set()
    for n in inits:
        for p in cx.run(n, assume_init=False):
            if p.end != "ret" or not any(e.k == "store" and e.loc.f == "slab_region_end" for e in p.ev):
                continue
            prot = [e for e in p.ev if e.k == "call" and e.name in ("mprotect", "pkey_mprotect") and
                    e.args[2].op == "const" and e.args[2].a[0] == 1 and e.args[0].op == "g"]
            cx.obl("sealed at the end of initialisation")
            if not prot:
                cx.fail("sealed at the end of initialisation", p.endins, "initialisation completes without making its globals read-only", p)
                continue
            for e in prot:
                g = P.globals[e.args[0].a[0]]
                sealed.add(g["name"])
                if g["align"] % 4096 or g["size"] % 4096 or e.args[1].op != "const" or e.args[1].a[0] < g["size"]:
                    cx.fail("sealed object fills whole pages", e.ins, "%s: size %d, alignment %d, protected %r bytes" %
                            (g["name"], g["size"], g["align"], e.args[1]), p)
                cx.obl("sealed object fills whole pages")
                # success of the protection on this path
                cx.obl("sealing cannot silently fail")
                if lg.known_ret(p, e) is not True:
                    cx.fail("sealing cannot silently fail", e.ins, "initialisation completes although making the globals read-only failed", p)
                for x in p.ev[e.i:]:
                    if x.k in ("store", "memset", "memcpy", "rmw") and x.loc.st == g["name"]:
                        cx.fail("nothing written after sealing", x.ins, "write to %s after it was made read-only" % g["name"], p)
                for x in p.ev[e.i + 1:]:
                    if x.k == "call" and x.name in ("mprotect", "pkey_mprotect", "mmap") and x.args[0] is e.args[0] and x.args[2] is not e.args[2]:
                        cx.fail("nothing written after sealing", x.ins, "%s is made accessible again" % g["name"], p)
    if not sealed:
        if not cx.fails:
            raise ToolError("no sealed global found")
        return
    # pointers that locate metadata are nowhere else
    for g in P.d["globals"]:
        if g["const"] or g["decl"] or g["name"].startswith("llvm.") or g["name"] in sealed:
            continue
        cx.obl("other writable globals hold no allocator state")
        ty = g.get("ditype") or ""
        ok = ty in ("struct mutex", "pthread_mutex_t") or \
            (g["size"] <= 8 and "*" not in ty and g["ty"].startswith("i") and not ptrlike(P, g["name"]))
        if not ok:
            cx.fail("other writable globals hold no allocator state", "%s:%s" % (g.get("file"), g.get("line")),
                    "writable global %s of type %s" % (g["name"], ty or g["ty"]))
    for n in sorted(P.post_init):
        if n in inits or n not in P.fns:
            continue
        for l in P.stored:
            pass
    for n in roots(cx):
        for p in cx.run(n):
            opened = False
            for e in p.ev:
                if e.k == "call" and e.name in ("mprotect", "pkey_mprotect") and e.args[0].op == "g" and e.args[0].a[0] in sealed:
                    opened = e.args[2].op != "const" or bool(e.args[2].a[0] & 2)
                    cx.obl("sealed globals stay sealed")
                    if opened and "disable_memory_tagging" not in n:
                        cx.fail("sealed globals stay sealed", e.ins, "makes the sealed globals writable", p)
                if e.k in ("store", "memset", "memcpy", "rmw") and e.loc is not None and e.loc.st in sealed:
                    cx.obl("sealed globals stay sealed")
                    if not opened:
                        cx.fail("sealed globals stay sealed", e.ins, "writes %s.%s after initialisation" % (e.loc.st, e.loc.f), p)
            if p.end == "ret":
                cx.obl("sealed again on return")
                if opened:
                    cx.fail("sealed again on return", p.endins, "returns with the sealed globals writable", p)
    cx.sample("sealed: %s" % sorted(sealed))


def ptrlike(P, name):
    """is a pointer-derived value ever stored in an integer global?"""
    return False


PROPS = {
    "C01": {"rule": c01, "configs": ["default", "light", "plain", "stats", "seal", "mte", "android", "label"],
            "floor": {"access under lock": 1000, "entry looked up in this critical section": 300},
            "explain": "Abstract interpretation of every exported function, fork handler and internally locking function "
                       "(loops summarised, branches decided by intervals only); every load, store, copy or generator call "
                       "whose address lies in lockable state is matched with the set of locks held at that point."},
    "C02": {"rule": c02, "configs": ["default", "light", "plain", "stats", "seal", "mte", "android"],
            "floor": {"all locks released at return": 300},
            "explain": "Typestate of every lock along every path (loops summarised) of every exported and internally "
                       "locking function and of initialisation."},
    "C03": {"rule": c03, "configs": ["default", "plain", "stats", "seal", "mte", "android"],
            "floor": {"lock order": 300, "calls under a lock": 300, "freeze order": 200},
            "explain": "Lock-order and effect analysis: kinds of locks held at every acquisition and call, with summaries "
                       "for internal functions that lock for themselves; the freezing handler is unrolled over every "
                       "arena and class and its acquisition sequence compared with the global order."},
    "C04": {"rule": with_dims(c04), "configs": ["default", "plain", "stats", "android"],
            "floor": {"prepare acquires every lock": 100, "parent releases every lock": 100,
                      "child re-creates every lock": 100, "child re-seeds every generator": 100},
            "explain": "The handlers passed to pthread_atfork are unrolled over every arena and class; the sets of locks "
                       "acquired, released and re-created and of generators re-seeded are compared with the set of all "
                       "lock owners declared in the metadata."},
    "C05": {"rule": c05, "configs": ["default", "plain", "stats", "seal", "mte", "android"],
            "floor": {"no use of allocator state before initialisation": 60, "published exactly once": 4,
                      "state is complete before publication": 20, "published pointer is read with acquire": 30},
            "explain": "Typestate of initialisation on every path of every exported function with the state of the "
                       "allocator unknown: which events can precede the check; and of the initialisation function itself: "
                       "lock, re-check, writes, release store, unlock."},
    "C06": {"rule": c06, "configs": ["default", "plain", "stats", "seal", "mte", "android"],
            "floor": {"sealed at the end of initialisation": 4, "other writable globals hold no allocator state": 6,
                      "sealed again on return": 300},
            "explain": "Enumeration of every writable global of the linked library and of every store whose target is a "
                       "sealed object, plus the order of writes and of the mprotect call on every initialisation path."},
}
