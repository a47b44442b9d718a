"""Small (slab) allocations seen from the API: every path of an entry point, one size class at a time.

The class index is fixed by an interval on the request (allocation) or on the class computed from the
address (deallocation, queries), so sizes, slot counts and slab sizes are constants in the terms.
"""
from . import engine as en, term as tm
from .term import const, add, sub, parts
from .ctx import lockkind, lds, ToolError

STATS = {"allocated", "slab_allocated", "nmalloc", "ndalloc"}
SYS = {"mmap", "mmap64", "munmap", "mprotect", "pkey_mprotect", "madvise", "mremap"}


def table(cx, name, cut=False):
    P = cx.prog(cut)
    if name not in P.tables:
        raise ToolError("no constant table %s" % name)
    return P.tables[name][1]


def nclasses(cx):
    return len(table(cx, "size_classes"))


def has_field(cx, st, f):
    return any(m["name"] == f for m in cx.prog(False).structs.get(st, {}).get("members", []))


def field(cx, st, f):
    for m in cx.prog(False).structs[st]["members"]:
        if m["name"] == f:
            return m
    return None


def canary_size(cx):
    return 8 if has_field(cx, "slab_metadata", "canary_value") else 0


def bracket(cx, k):
    """the requests that class k must serve"""
    sc = table(cx, "size_classes")
    c = canary_size(cx)
    if k == 0:
        return 0, 0
    return (sc[k - 1] - c + 1 if k > 1 else 1), sc[k] - c


def geom(cx, k):
    sc, sl = table(cx, "size_classes"), table(cx, "size_class_slots")
    s = sc[k] or 16
    return s, sl[k], (s * sl[k] + 4095) // 4096 * 4096


class View:
    """one path of an entry point inside one class's critical section(s)"""
    __slots__ = ("cx", "p", "k", "S", "RS", "N", "Z", "C", "sec", "lock", "ptr", "_m")

    def F(v, f, base=None):
        """the value of an immutable field"""
        P = v.cx.prog(False)
        b = base if base is not None else v.C
        for e in v.p.ev:
            if e.k == "load" and e.loc is not None and e.loc.f == f and e.loc.base is b:
                return e.val
        return tm.atom("ld", 64, "size_class", f, b, 0, None, 0)

    def off(v, f):
        return field(v.cx, "size_class", f)["off"]

    # -- what belongs to a pointer into the class region
    def idx(v, ptr):
        d = sub(ptr, v.F("class_region_start"))
        return [tm.atom("libdiv", 64, d, add(v.C, const(v.off("slab_size_divisor"), 64))), tm.udiv(d, const(v.Z, 64))]

    def slab(v, i):
        return add(v.F("class_region_start"), tm.mulc(i, v.Z))

    def meta(v, i):
        return add(v.F("slab_info"), tm.mulc(i, v.cx.prog(False).structs["slab_metadata"]["size"]))

    def slot(v, ptr, i):
        d = sub(ptr, v.slab(i))
        return [tm.zext(tm.atom("libdiv", 32, tm.trunc(d, 32), add(v.C, const(v.off("size_divisor"), 64))), 64),
                tm.udiv(d, const(v.S, 64)), tm.zext(tm.udiv(tm.trunc(d, 32), const(v.S, 32)), 64)]

    def metas(v):
        """slab_metadata objects touched in the section: base -> index term (None if not from the array)"""
        out = {}
        for e in v.sec:
            if e.loc is not None and e.loc.st == "slab_metadata" and e.loc.base not in out:
                out[e.loc.base] = v.index_of(e.loc.base)
        return out

    def index_of(v, m):
        """index of a metadata object in the class's array"""
        d = sub(m, v.F("slab_info"))
        sz = v.cx.prog(False).structs["slab_metadata"]["size"]
        c, it = parts(d)
        if all(tm.signed(x, 64) % sz == 0 for x in it.values()) and tm.signed(c, 64) % sz == 0:
            return tm.lin(64, tm.signed(c, 64) // sz, {x: tm.signed(q, 64) // sz for x, q in it.items()})
        return tm.atom("sdiv", 64, d, const(sz, 64))

    def writes(v, st, f=None, base=None):
        return [e for e in v.sec if e.k in ("store", "rmw") and e.loc.st == st and (f is None or e.loc.f == f) and
                (base is None or e.loc.base is base)]

    def final(v, st, f, base):
        """last value stored to base->f in the section, or None"""
        w = v.writes(st, f, base)
        return w[-1].val if w else None

    def sys(v, *names):
        return [e for e in v.sec if e.k == "call" and e.name in (names or SYS)]


def unver(t, cache={}):
    """the same term with all loads at their first version"""
    r = cache.get(t)
    if r is None:
        m = {}
        for x in tm.loads(t):
            if x.a[5] and x.a[0] is not None:
                m[x] = x.a[:5] + (0,)
        if not m:
            r = t
        else:
            def go(x, memo={}):
                if x in memo:
                    return memo[x]
                if x.op == "ld":
                    st, f, b, s, i, ver = x.a
                    q = tm._mk("ld", x.w, (st, f, go(b) if b is not None else None, s, go(i) if i is not None else None,
                                           0 if st is not None else ver), x.iv)
                elif not any(y.op == "ld" for y in tm.subterms(x)):
                    q = x
                else:
                    q = tm.substitute(x, {y: go(y) for y in tm.subterms(x) if y.op == "ld" and y is not x})
                memo[x] = q
                return q
            r = go(t)
        cache[t] = r
    return r


def same(a, b):
    return a is b or a is not None and b is not None and unver(a) is unver(b)


def views(cx, p, k):
    """class critical sections of a path"""
    out = []
    S, N, Z = geom(cx, k)
    for i, e in enumerate(p.ev):
        if e.k == "lock" and lockkind(e.loc) == "class":
            v = View()
            v.cx, v.p, v.k, v.S, v.N, v.Z = cx, p, k, S, N, Z
            v.RS = table(cx, "size_classes")[k]
            v.C = e.loc.base
            v.lock = e
            j = len(p.ev)
            for q in range(i + 1, len(p.ev)):
                if p.ev[q].k == "unlock" and p.ev[q].loc.base is e.loc.base:
                    j = q
                    break
            v.sec = p.ev[i + 1:j]
            v._m = None
            v.ptr = None
            out.append(v)
    return out


def alloc_paths(cx, k, entry="malloc", arg=0, **kw):
    lo, hi = bracket(cx, k)

    def facts(eng, st):
        eng.narrow(st, st.env[eng.f["args"][arg]["id"]], lo, hi)
    key = ("alloc", entry, k, arg, tuple(sorted((a, str(b)) for a, b in kw.items())))
    if key not in cx._runs:
        cx._runs[key] = cx.run(entry, cut=False, facts=facts, cache=False, **kw)
    return cx._runs[key]


def class_term(cx, entry):
    """the term for the size class in the paths of an entry point taking an address, and the address"""
    memo = cx.__dict__.setdefault("_ct", {})
    if entry not in memo:
        memo[entry] = class_term_(cx, entry)
    return memo[entry]


def class_term_(cx, entry):
    out = None
    seen = set()
    for p in cx.run(entry, cut=False):
        for e in p.ev:
            if e.k == "lock" and lockkind(e.loc) == "class" and e.loc.base not in seen:
                seen.add(e.loc.base)
                c, d = parts(e.loc.base)
                ks = [x for x, q in d.items() if q == cx.prog(False).structs["size_class"]["size"]]
                if len(ks) != 1:
                    continue
                cand = []
                for x in tm.subterms(ks[0]):
                    if x.op == "lin":
                        for y, q in parts(x)[1].items():
                            if y.op == "ld" and y.a[1] == "slab_region_start" and tm.signed(q, 64) == -1:
                                cand.append((len(parts(x)[1]), x.id, add(x, y)))
                if cand:
                    r = (ks[0], min(cand)[2])
                    if out is None or out == r:
                        out = r
                    else:
                        raise ToolError("%s: more than one class computation" % entry)
    if out is None:
        raise ToolError("%s never locks a size class computed from its argument" % entry)
    return out


def ptr_paths(cx, k, entry="free", **kw):
    K, ptr = class_term(cx, entry)
    key = ("ptr", entry, k, tuple(sorted((a, str(b)) for a, b in kw.items())))
    if key not in cx._runs:
        cx._runs[key] = cx.run(entry, cut=False, facts=lambda eng, st: eng.narrow(st, K, k, k), cache=False, **kw)
    return cx._runs[key], ptr


def each_alloc(cx, entry="malloc", ends=("ret",), ks=None, **kw):
    for k in ks or range(nclasses(cx)):
        for p in alloc_paths(cx, k, entry, **kw):
            if p.end in ends:
                for v in views(cx, p, k):
                    yield v


def each_ptr(cx, entry="free", ends=("ret", "fatal", "backedge"), ks=None, **kw):
    for k in ks or range(nclasses(cx)):
        ps, ptr = ptr_paths(cx, k, entry, **kw)
        for p in ps:
            if p.end in ends:
                for v in views(cx, p, k):
                    v.ptr = ptr
                    yield v


# -- facts known at an event ------------------------------------------------------------------------
def facts_at(p, i):
    """state holding what the branches before event i established"""
    st = en.St()
    st.facts, st.iv = {}, {}
    eng = p.eng
    if eng.init_facts:
        class X:
            pass
    for e in p.ev[:i]:
        if e.k == "branch" and e.x in (True, False):
            eng.assume(st, e.val, e.x)
    return st


def conds_before(p, i):
    return [(e.val, e.x) for e in p.ev[:i] if e.k == "branch" and e.x in (True, False) and e.name != "known"]


def known(p, i, cond):
    """is cond established (by identity or intervals) before event i?"""
    st = facts_at(p, i)
    return p.eng.truth(st, cond)


# -- exact evaluation over the finite set of slots -----------------------------------------------------
def slot_atoms(slot, s):
    """assignment of the atoms of a slot term that makes it s"""
    c, d = parts(slot)
    rest = s - tm.signed(c, slot.w)
    m = {}
    for x, q in sorted(d.items(), key=lambda y: -tm.signed(y[1], slot.w)):
        q = tm.signed(q, slot.w)
        if q <= 0 or rest < 0:
            return None
        n = rest // q
        m[x] = n
        rest -= n * q
    if rest:
        return None
    out = {}
    for x, n in m.items():
        while x.op == "zext":
            x = x.a[0]
        out[x] = const(n, x.w)
    return out


def subst_slot(t, slot, s):
    m = slot_atoms(slot, s)
    if m is None:
        return None
    return tm.substitute(t, m)


def words_in(t, M, f):
    """bitmap words read in t: ld atoms -> word index (int) or None"""
    out = {}
    for x in tm.loads(t):
        if x.a[0] == "slab_metadata" and x.a[1] == f and unver(x.a[2]) is unver(M):
            i = x.a[4]
            out[x] = x.a[3] // 8 if i is None else (x.a[3] + tm.cval(i)) // 8 if i.op == "const" else None
    return out


def eval_bits(t, slot, s, M, f, words):
    """t with the slot fixed to s and the words of M's bitmap f fixed"""
    t = subst_slot(t, slot, s)
    if t is None:
        return None
    m = {}
    for x, i in words_in(t, M, f).items():
        if i is None or not 0 <= i < len(words):
            return None
        m[x] = const(words[i], x.w)
    return tm.substitute(t, m) if m else t


ONES = (1 << 64) - 1


def onehot(s, n=4):
    return [(1 << (s % 64)) if i == s // 64 else 0 for i in range(n)]


def allbut(s, n=4):
    return [ONES ^ b for b in onehot(s, n)]


GMETA = tm.atom("gmeta", 64, iv=(4096, 1 << 47))


def generic(ts, slot, M):
    """the terms with the slot's atoms and the metadata object replaced by fixed names (so that equal code for
    different classes is evaluated once)"""
    c, d = parts(slot)
    m = {}
    for x, q in sorted(d.items(), key=lambda y: (-tm.signed(y[1], slot.w), y[0].id)):
        while x.op == "zext":
            x = x.a[0]
        m[x] = tm.atom("gslot", x.w, len(m), iv=x.iv)
    ts = [tm.substitute(t, m) for t in ts]
    gs = tm.substitute(slot, m)
    uM = unver(tm.substitute(M, m))
    out = []
    for t in ts:
        mm = {}
        for x in tm.loads(t):
            b = x.a[2]
            if b is not None and x.a[0] == "slab_metadata" and unver(b) is uM:
                mm[b] = GMETA
        out.append(unver(tm.substitute(t, mm)) if mm else t)
    return out, gs


def bit_required(v, i, M, f, slot, want):
    """True if the branches before event i are only passable when bit `slot` of M's bitmap f equals want, and are
    passable when it does; else a message"""
    memo = v.cx.__dict__.setdefault("_bits", {})
    cs = [(c, x) for c, x in conds_before(v.p, i) if any(y.a[1] == f for y in tm.loads(c)) and words_in(c, M, f)]
    if not cs:
        return "is not tested"
    key = (tuple(cs), M, f, slot, want, v.N)
    if key not in memo:
        ts, gs = generic([c for c, _ in cs], slot, M)
        k2 = (tuple(ts), tuple(x for _, x in cs), f, gs, want, v.N)
        if k2 not in memo:
            memo[k2] = bit_required_([(t, x) for t, (_, x) in zip(ts, cs)], v.N, f, gs, want)
        memo[key] = memo[k2]
    return memo[key]


def bit_required_(cs, N, f, slot, want):
    for s in range(N):
        cc = [(subst_slot(c, slot, s), x) for c, x in cs]
        if any(c is None for c, _ in cc):
            return "cannot be evaluated"

        def passes(words):
            res = True
            for c, x in cc:
                t = eval_words(c, GMETA, f, words)
                if t is None:
                    return None
                if t.op == "const" and bool(t.a[0]) != x:
                    return False
                if t.op != "const":
                    res = "?"
            return res
        for words, has in ((onehot(s), 1), (allbut(s), 0), ([ONES] * 4, 1), ([0] * 4, 0)):
            q = passes(words)
            if q is None:
                return "is read outside the bitmap for slot %d" % s
            if has != want and q is not False:
                return "of slot %d is not what is tested" % s
            if has == want and q is False:
                return "of slot %d: the test also rejects valid blocks" % s
    return True


def eval_words(t, M, f, words):
    m = {}
    for x, i in words_in(t, M, f).items():
        if i is None or not 0 <= i < len(words):
            return None
        m[x] = const(words[i], x.w)
    return tm.substitute(t, m) if m else t


def bit_update(v, e, M, f, slot, setit):
    """True if the store e changes exactly bit `slot` of M's bitmap f to setit; else a message"""
    idx = e.loc.idx if e.loc.idx is not None else const(0, 64)
    memo = v.cx.__dict__.setdefault("_bitu", {})
    (val, idx), gs = generic([e.val, add(idx, const(e.loc.sub, 64))], slot, M)
    key = (val, idx, gs, f, v.N, setit)
    if key not in memo:
        memo[key] = bit_update_(val, idx, gs, f, v.N, setit)
    return memo[key]


def bit_update_(val, idx, slot, f, N, setit):
    lo = tm.signed(parts(slot)[0], slot.w)
    for s in range(N):
        if lo > s and all(tm.signed(x, slot.w) > 0 for x in parts(slot)[1].values()):
            continue        # the branches of this path exclude that slot
        q = subst_slot(idx, slot, s)
        if q is None or q.op != "const":
            return "cannot tell which word is written"
        w = q.a[0] // 8
        if w != s // 64:
            return "slot %d is kept in word %d, not %d" % (s, s // 64, w)
        vs = subst_slot(val, slot, s)
        for pat in ([0] * 4, [ONES] * 4, [0x0123456789abcdef * (j + 1) & ONES for j in range(4)]):
            t = eval_words(vs, GMETA, f, pat)
            if t is None or t.op != "const":
                return "cannot tell the value written for slot %d" % s
            want = pat[w] | (1 << s % 64) if setit else pat[w] & ~(1 << s % 64)
            if t.a[0] != want:
                return "for slot %d the word changes by %#x" % (s, t.a[0] ^ pat[w])
    return True


# -- loops over the allocation bitmap ------------------------------------------------------------------
def bitmap_loops(cx, k, entry="malloc"):
    """headers of loops that walk the words of a slab's bitmap"""
    out = set()
    for p in alloc_paths(cx, k, entry):
        cur = {}
        for e in p.ev:
            if e.k == "loop":
                cur[e.x] = [t for _, t in e.val.values()] if e.name == "havoc" else list(e.val.values())
            elif e.k == "load" and e.loc.lab == ("slab_metadata", "bitmap") and e.loc.idx is not None:
                sub_ = tm.subterms(e.loc.idx)
                for h, ts in cur.items():
                    if any(x in sub_ for t in ts for x in tm.subterms(t) if x.op in ("sym", "fresh")):
                        out.add(h)
    return out


def exact_slot_paths(cx, k, r, entry="malloc"):
    """paths of an allocation in class k with the search for a free slot followed word by word, when the generator
    returns r (None: no random start)"""
    hs = bitmap_loops(cx, k, entry)

    def loops(eng, h):
        return "unroll" if h in hs else "simple"

    def rv(name, args, w):
        if name.startswith("get_random_") and name.endswith("_uniform") and args[-1].op == "const" and \
                args[-1].a[0] == geom(cx, k)[1] and r is not None:
            return const(r, w)
        return None
    return alloc_paths(cx, k, entry, loops=loops, retvals=rv, spin=16)
