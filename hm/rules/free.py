"""C07, C11, C13 and the freeing halves of C10, C16, C41: what freeing a slab block does."""
from .. import engine as en, term as tm, small as sm
from ..ctx import ToolError, lds, calls, lockkind
from ..term import const, add, sub


def free_entries(cx):
    """entry points followed into the release code in full; the others are shown to reach it only through the same
    function (C07)"""
    P = cx.prog(False)
    return [n for n in ("free", "free_sized") if P.has(n)]


def other_releasers(cx):
    rel = set(release_fns(cx))
    C = cx.prog(True)
    return [n for n in cx.api() if n not in free_entries(cx) and
            any(x["op"] == "call" and x.get("callee") in rel for b in C.fns[n]["blocks"] for x in b["ins"])]


def effects(p):
    """events that change bookkeeping, memory or mappings"""
    for e in p.ev:
        if e.k in ("store", "memset", "memcpy", "rmw"):
            if e.loc.st in ("alloca", "errno") or e.loc.st == "size_class" and e.loc.f in sm.STATS:
                continue
            if e.loc.st in p.eng.p.globals and p.eng.p.globals[e.loc.st].get("tls"):
                continue
            yield e
        elif e.k == "call":
            if e.name.startswith("libdivide") or e.name.startswith("pkey_") or e.x is not None and not writes_asm(e):
                continue
            if e.ins.get("noreturn") or e.name in en.NORET:
                continue
            yield e


def writes_asm(e):
    a = (e.x or "").strip() if isinstance(e.x, str) else ""
    return a.startswith(("dc ", "st", "dc\t")) or "stz" in a or "stg" in a or a == ""


def own_memory(v, e):
    """does the event touch only the block itself?"""
    if e.k in ("store", "memset", "memcpy"):
        if e.loc.st is not None:
            return False
        a = e.loc.addr
    elif e.k == "call" and e.name == "<asm>":
        a = e.args[0] if e.args else None
    else:
        return False
    return a is not None and v.ptr in tm.subterms(a) or derived(a, v.ptr)


def derived(a, ptr):
    if a is None:
        return False
    d = sub(a, ptr)
    return not any(x.op == "ld" and x.a[0] in ("size_class", "slab_metadata", "ro") for x in tm.parts(d)[1])


def place(v, i):
    """(index, slot, metadata) under which the branches before event i accept the pointer, or a message"""
    key = (v.ptr, v.C, v.k, tuple((e.val, e.x) for e in v.p.ev[:i] if e.k == "branch" and e.name != "known"))
    memo = v.cx.__dict__.setdefault("_place", {})
    if key not in memo:
        memo[key] = place_(v, i)
    return memo[key]


def place_(v, i):
    st = sm.facts_at(v.p, i)
    eng = v.p.eng
    why = None
    for ix in v.idx(v.ptr):
        for sl in v.slot(v.ptr, ix):
            pos = add(v.slab(ix), tm.mulc(sl, v.S))
            if eng.truth(st, tm.eq0(sub(pos, v.ptr))) is not True:
                why = why or "the pointer is not known to be at a slot boundary"
                continue
            cap = [x for x in st.facts if x.op == "ult" and same_idx(x.a[0], ix) and is_cap(x.a[1]) and st.facts[x]]
            cap += [x for x in st.facts if x.op == "ult" and is_cap(x.a[0]) and same_idx(add(x.a[1], const(1, 64)), ix) and False]
            if not cap:
                why = "the slab is not known to have bookkeeping in use"
                continue
            return ix, sl, v.meta(ix)
    return why or "the pointer is not located in a slab"


def same_idx(a, b):
    return a is b


def is_cap(t):
    return t.op == "ld" and t.a[0] == "size_class" and t.a[1] in ("metadata_allocated", "metadata_count")


def c07(cx):
    q = sm.has_field(cx, "slab_metadata", "quarantine_bitmap")
    for n in free_entries(cx):
        for v in sm.each_ptr(cx, n):
            first = {}
            for e in effects(v.p):
                own = own_memory(v, e)
                if own not in first:
                    first[own] = e
            for own, e in first.items():
                pl = place(v, e.i)
                what = "%s %s" % (e.k, e.name or (e.loc and "%s.%s" % e.loc.lab if e.loc and e.loc.st else "of the block") or "")
                cx.obl("pointer validated before any effect")
                if isinstance(pl, str):
                    cx.fail("pointer validated before any effect", e.ins, "%s while %s" % (what, pl), v.p)
                    continue
                ix, sl, M = pl
                for f, want, needed in (("bitmap", 1, True), ("quarantine_bitmap", 0, q and not own)):
                    if not needed:
                        continue
                    r = sm.bit_required(v, e.i, M, f, sl, want)
                    cx.obl("slot state validated before any effect")
                    if r is not True:
                        cx.fail("slot state validated before any effect", e.ins, "%s although the %s bit %s" % (what, f, r), v.p)
    # later frees of the same block see it as given up, and no other block's state changes
    marks(cx, "state of exactly the freed slot changes", q)
    # everything else gives blocks up through the same function free uses
    rule = "other entry points release through the checked path"
    cx.obl(rule)
    rel = release_fns(cx)
    C = cx.prog(True)
    names = other_releasers(cx)
    if C.has("realloc") and "realloc" not in names:
        names.append("realloc")
    for n in names:
        freed = 0
        for p in cx.run(n):
            for e in p.ev:
                if e.k == "call" and e.name in rel:
                    freed += 1
                    a = e.args[rel[e.name]]
                    cx.obl(rule)
                    if not same_block(p, a):
                        cx.fail(rule, e.ins, "releases %r instead of the old block" % a, p)
                if e.k in ("store", "rmw") and e.loc.st in ("slab_metadata",):
                    cx.fail(rule, e.ins, "changes slab bookkeeping itself", p)
        if not freed:
            cx.fail(rule, n, "never releases a small block through the function that free uses")


def release_fns(cx):
    """the self-locking function(s) free uses for slab blocks -> number of the pointer argument"""
    out = {}
    for n in ("free",):
        for p in cx.run(n):
            for e in p.ev:
                if e.k == "call" and e.name in cx.heavy():
                    kinds = {lockkind(x.loc) for q in cx.run(e.name) for x in q.ev if x.k == "lock"}
                    if "class" in kinds:
                        for j, a in enumerate(e.args):
                            if same_block(p, a):
                                out[e.name] = j
    return out


def same_block(p, a):
    """a is the pointer argument, possibly with its tag removed"""
    z = tm.atom("arg", 64, "arg0")
    return a is z or a is tm.andc(z, (1 << 56) - 1)


# -- the way of a freed slot through the quarantines ----------------------------------------------------
def qlen(cx, f, k):
    """configured length of a quarantine stage for class k (0: stage absent), and its storage in entries"""
    if not sm.has_field(cx, "size_class", f):
        return 0, 0
    sc = sm.table(cx, "size_classes")
    store = sm.field(cx, "size_class", f)["size"] // 8
    top = sc[-1].bit_length() - 1
    return (store >> (top - 4)) << (top - ((sc[k] or 16).bit_length() - 1)), store


class Chain:
    __slots__ = ("stages", "cur", "held", "problem", "dropped_null")


def chain(v):
    """follow the freed pointer through the quarantine stages of a returning path"""
    c = Chain()
    c.stages, c.cur, c.problem, c.dropped_null = [], v.ptr, None, False
    for e in v.sec:
        if e.k == "store" and e.loc.st == "size_class" and e.loc.f in ("quarantine_random", "quarantine_queue") and \
                e.loc.base is v.C:
            if not sm.same(e.val, c.cur):
                c.problem = (e, "stores %r instead of the block that comes out of the previous stage" % e.val)
                return c
            old = [q for q in v.sec if q.k == "load" and q.loc.lab == e.loc.lab and q.loc.key == e.loc.key and q.i < e.i]
            if not old:
                c.problem = (e, "overwrites a quarantine entry without taking it out")
                return c
            c.stages.append((e.loc.f, e, old[-1].val))
            c.cur = old[-1].val
            t = v.p.eng.truth_in(v.p, tm.eq0(c.cur))
            if t is True:
                c.dropped_null = True
            elif t is None and c.cur.op == "const":
                c.dropped_null = c.cur.a[0] == 0
    return c


def frees(v):
    """does the section change allocation bitmaps?"""
    return v.writes("slab_metadata", "bitmap")


def where_is(v, ptr):
    """metadata and slot of a pointer, among those the section uses"""
    for ix in v.idx(ptr):
        M = v.meta(ix)
        for e in v.sec:
            if e.loc is not None and e.loc.st == "slab_metadata" and sm.same(e.loc.base, M):
                for sl in v.slot(ptr, ix):
                    return ix, e.loc.base, v.slot(ptr, ix)
    return None


def bit_store(v, f, ptr, setit):
    """check that exactly one store changes f, and that it changes exactly the bit of ptr; -> message or None"""
    w = v.writes("slab_metadata", f)
    if len(w) != 1:
        return None, "%d stores to %s" % (len(w), f)
    loc = where_is(v, ptr)
    if loc is None:
        return w[0], "the metadata written does not belong to the block"
    ix, M, sls = loc
    if not sm.same(w[0].loc.base, M):
        return w[0], "%s of another slab is changed" % f
    r = None
    for sl in sls:
        r = sm.bit_update(v, w[0], w[0].loc.base, f, sl, setit)
        if r is True:
            return w[0], None
    return w[0], r


def marks(cx, rule, q=None):
    """every returning path of free marks the freed block's slot (quarantined, or free) and unmarks exactly the slot of the
    block that drops out of the quarantine; no other bit of either bitmap changes"""
    if q is None:
        q = sm.has_field(cx, "slab_metadata", "quarantine_bitmap")
    for v in sm.each_ptr(cx, "free", ("ret",)):
        c = chain(v)
        if c.problem:
            continue
        cx.obl(rule)
        rel = frees(v)
        if rel:
            e, msg = bit_store(v, "bitmap", c.cur, False)
            if msg:
                cx.fail(rule, (e or rel[0]).ins, "marking the released slot free: " + msg, v.p)
        elif not c.stages:
            cx.fail(rule, v.p.endins, "the freed slot stays marked as used", v.p)
        if not q:
            continue
        w = v.writes("slab_metadata", "quarantine_bitmap")
        todo = [(v.ptr, True)] + ([(c.cur, False)] if rel else [])
        if len(w) != len(todo):
            cx.fail(rule, (w[-1] if w else v.lock).ins, "%d stores to the quarantine bitmap, expected %d" % (len(w), len(todo)), v.p)
            continue
        for e, (ptr, setit) in zip(w, todo):
            loc = where_is(v, ptr)
            r = "another slab's metadata is written"
            if loc and sm.same(e.loc.base, loc[1]):
                for sl in loc[2]:
                    r = sm.bit_update(v, e, e.loc.base, "quarantine_bitmap", sl, setit)
                    if r is True:
                        break
            if r is not True:
                cx.fail(rule, e.ins, "%s the quarantine bit of the %s slot: %s" % (
                    "setting" if setit else "clearing", "freed" if setit else "released", r), v.p)


def c13(cx):
    P = cx.prog(False)
    R = "quarantine order"
    for k in range(sm.nclasses(cx)):
        lr, sr = qlen(cx, "quarantine_random", k)
        lq, sq = qlen(cx, "quarantine_queue", k)
        want = (["quarantine_random"] if lr else []) + (["quarantine_queue"] if lq else [])
        for v in sm.each_ptr(cx, "free", ("ret",), [k]):
            c = chain(v)
            p = v.p
            cx.obl(R)
            if c.problem:
                cx.fail(R, c.problem[0].ins, c.problem[1], p)
                continue
            got = [x[0] for x in c.stages]
            if got != want[:len(got)] or (not c.dropped_null and got != want):
                cx.fail(R, c.stages[-1][1].ins if c.stages else p.endins, "the block passes through %s, configured: %s" %
                        (got or "no quarantine", want), p)
                continue
            rel = frees(v)
            if c.dropped_null and rel:
                cx.fail(R, rel[0].ins, "makes a slot available although nothing dropped out of the quarantine", p)
            if not c.dropped_null and not rel:
                cx.fail(R, p.endins, "what drops out of the quarantine is never made available", p)
            if want and not c.dropped_null and p.eng.truth_in(p, tm.eq0(c.cur)) is not False:
                cx.fail(R, p.endins, "releases what drops out without knowing that there is something", p)
            if rel:
                e, msg = bit_store(v, "bitmap", c.cur, False)
                if msg:
                    cx.fail("only what drops out becomes available", (e or rel[0]).ins, msg, p)
                cx.obl("only what drops out becomes available")
            for f, e, old in c.stages:
                L = lr if f == "quarantine_random" else lq
                st = sr if f == "quarantine_random" else sq
                rule = "random index covers the configured length" if f == "quarantine_random" else "ring covers the configured length"
                cx.obl(rule)
                i = e.loc.idx if e.loc.idx is not None else const(0, 64)
                if f == "quarantine_random":
                    at, co = tm.parts(i)[1], tm.parts(i)[0]
                    r = [x for x in at]
                    if co or len(r) != 1 or at[r[0]] != 8 or unz(r[0]).op != "ret":
                        if L == 1 and i.op == "const" and i.a[0] == 0:
                            continue
                        cx.fail(rule, e.ins, "the slot of the random array is not a random number", p)
                        continue
                    ev = [q for q in v.sec if q.k == "call" and q.val is unz(r[0])]
                    if not ev or not ev[0].name.startswith("get_random_") or "_uniform" not in ev[0].name:
                        cx.fail(rule, e.ins, "the slot of the random array is not drawn with a bound", p)
                        continue
                    b = ev[0].args[1]
                    if b.op != "const" or b.a[0] != L:
                        cx.fail(rule, ev[0].ins, "class of size %d draws below %r, configured length %d" % (v.S, b, L), p)
                    g = p.eng.resolve(ev[0].args[0])
                    if g.st != "size_class" or g.f != "rng" or g.base is not v.C:
                        cx.fail(rule, ev[0].ins, "draws from another generator than the class's own", p)
                    if L > st:
                        cx.fail(rule, ev[0].ins, "length %d exceeds the storage of %d" % (L, st), p)
                else:
                    qi = [x for x in tm.loads(i) if x.a[1] == "quarantine_queue_index"]
                    if not sm.same(i, tm.mulc(qi[0], 8) if qi else None):
                        cx.fail(rule, e.ins, "the ring is not used at its index", p)
                        continue
                    fin = v.final("size_class", "quarantine_queue_index", v.C)
                    for j in sorted({0, 1, L // 2, L - 2, L - 1} & set(range(L))):
                        m = {qi[0]: const(j, 64)}
                        ok = True
                        for e2 in p.ev[v.lock.i:]:
                            if e2.k == "branch" and e2.x in (True, False) and qi[0] in tm.loads(e2.val):
                                t = tm.substitute(e2.val, m)
                                if t.op == "const" and bool(t.a[0]) != e2.x:
                                    ok = False
                        if not ok:
                            continue
                        t = tm.substitute(fin, m) if fin is not None else const(j, 64)
                        if t.op != "const" or t.a[0] != (j + 1) % L:
                            cx.fail(rule, e.ins, "class of size %d: after index %d comes %r, configured length %d" % (v.S, j, t, L), p)
                            break
                    if L > st:
                        cx.fail(rule, e.ins, "length %d exceeds the storage of %d" % (L, st), p)
            if want:
                w = v.writes("slab_metadata", "quarantine_bitmap")
                cx.obl("slot marked while quarantined")
                sets = w[:1]
                loc = where_is(v, v.ptr)
                ok = False
                if sets and loc:
                    for sl in loc[2]:
                        if sm.same(w[0].loc.base, loc[1]) and sm.bit_update(v, w[0], w[0].loc.base, "quarantine_bitmap", sl, True) is True:
                            ok = True
                if not ok:
                    cx.fail("slot marked while quarantined", (w[0] if w else v.lock).ins, "the freed slot is not marked as quarantined", p)
                elif c.stages and w[0].i > c.stages[0][1].i and False:
                    pass
                if rel:
                    ok = False
                    loc = where_is(v, c.cur)
                    if len(w) == 2 and loc:
                        for sl in loc[2]:
                            if sm.same(w[1].loc.base, loc[1]) and \
                                    sm.bit_update(v, w[1], w[1].loc.base, "quarantine_bitmap", sl, False) is True:
                                ok = True
                    if not ok:
                        cx.fail("slot marked while quarantined", w[-1].ins, "the slot that leaves the quarantine stays marked", p)
                elif len(w) != 1:
                    cx.fail("slot marked while quarantined", w[-1].ins, "changes another quarantine bit", p)
    cx.sample("lengths per class: random %s queue %s" % ([qlen(cx, "quarantine_random", k)[0] for k in (0, 1, 20)],
                                                         [qlen(cx, "quarantine_queue", k)[0] for k in (0, 1, 20)]))


def unz(t):
    while t.op in ("zext", "trunc"):
        t = t.a[0]
    return t


PROPS = {
    "C07": dict(
        rule=c07, configs=["default", "light", "mte", "nozero"], thorough=["plain", "stats", "seal", "android"],
        floor={"pointer validated before any effect": 2000, "slot state validated before any effect": 2000,
               "state of exactly the freed slot changes": 500,
               "other entry points release through the checked path": 3},
        technique="path-sensitive value analysis of free per size class, must-precede check of validation over effects",
        explain="For each size class, every path of free and free_sized (all internal functions inlined) is enumerated over value "
                "terms; at the first event that changes bookkeeping, block memory, mappings or generators the branches already "
                "taken must imply slab index < slabs with bookkeeping, pointer == slab + slot * size, allocation bit set and "
                "quarantine bit clear; the bit tests are evaluated exactly for every slot. realloc must release small blocks "
                "through the same function.",
        decides="the order of validation and effects on every path of every size class, exactly"),
    "C13": dict(
        rule=c13, configs=["default", "plain", "nozero", "stats", "bigq"], thorough=["light", "mte", "bigq"],
        floor={"quarantine order": 1000, "random index covers the configured length": 500,
               "ring covers the configured length": 500, "slot marked while quarantined": 1000},
        technique="path-sensitive value-flow analysis per size class with finite evaluation of bit and index arithmetic",
        explain="On every returning path of free, per size class, the value stored into each quarantine stage must be what came "
                "out of the stage before, in the configured order; the bound of the random index and the successor of the ring "
                "index are evaluated against the configured length scaled to the class; the freed slot's quarantine bit is set, "
                "only the slot of the last dropped block has its quarantine and allocation bits cleared.",
        decides="exact on every path and class of the analysed configurations"),
}
