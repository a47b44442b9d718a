"""C10, C11, C12, C15, C16, C41: slots, slabs and what is done to their memory."""
from .. import engine as en, term as tm, small as sm, shape as sh
from ..ctx import ToolError, lds, lockkind
from ..term import const, add, sub, parts
from . import free as fr


# -- C41 -----------------------------------------------------------------------------------------------
class World:
    """concrete contents of one slab's bookkeeping"""

    def __init__(w, N, used, f="bitmap"):
        w.N = N
        w.words = [0] * 4
        for s in used:
            w.words[s // 64] |= 1 << s % 64
        w.count = len(used)

    def after(w, s, setit):
        n = World(w.N, ())
        n.words = list(w.words)
        if setit:
            n.words[s // 64] |= 1 << s % 64
        else:
            n.words[s // 64] &= ~(1 << s % 64)
        n.count = w.count + (1 if setit else -1)
        return n


def epochs(p, M):
    """loads of M's allocation state made after it was updated"""
    uM = sm.unver(M)
    out = set()
    for fld in ("bitmap", "count"):
        upd = [e.i for e in p.ev if e.k == "store" and e.loc.st == "slab_metadata" and e.loc.f == fld and
               sm.unver(e.loc.base) is uM]
        if upd:
            ld = [(e.i, e.val) for e in p.ev if e.k == "load" and e.loc.lab == ("slab_metadata", fld) and e.val.op == "ld"]
            out |= {t for i, t in ld if i > upd[0]} - {t for i, t in ld if i < upd[0]}
    return out


def valuation(M, w, post=(), wpost=None, extra=None):
    """atoms of M's state under the world w (those in post: wpost)"""
    uM = sm.unver(M)
    memo = {}

    def f(t):
        if extra and t in extra:
            return extra[t]
        if t.op != "ld" or t.a[0] != "slab_metadata" or t.a[1] not in ("bitmap", "count"):
            return None
        if sm.unver(t.a[2]) is not uM:
            return None
        x = wpost if t in post else w
        if t.a[1] == "count":
            return x.count
        i = t.a[3] if t.a[4] is None else None
        if i is None:
            i = tm._value(t.a[4], f, memo)
            if i is None:
                return None
            i += t.a[3]
        return x.words[i // 8] if i % 8 == 0 and 0 <= i < 32 else None
    return f, memo


def consistent(p, cs, f, memo):
    for c, x in cs:
        q = tm._value(c, f, memo)
        if q is not None and bool(q) != x:
            return False
    return True


def state_conds(p, M):
    uM = sm.unver(M)
    return [(c, x) for c, x in sm.conds_before(p, len(p.ev)) if
            any(t.a[0] == "slab_metadata" and t.a[1] in ("bitmap", "count") and sm.unver(t.a[2]) is uM for t in tm.loads(c))]


def patterns(N):
    """used sets with at least one free slot"""
    out = [set(range(N)) - {s} for s in range(N)]
    out.append(set())
    out.append({0})
    out.append(set(range(N)) - {0, N - 1})
    out.append(set(range(0, N, 2)) - {N - 1})
    out.append(set(range(1, N, 2)))
    out.append(set(range(N // 2)))
    out.append(set(range(N // 2 + 1, N)))
    return [u for u in out if len(u) < N]


def starts(cx, N):
    if cx.config not in ("default", "plain") and cx.tier == "quick":
        return [min(N - 1, 63)]
    r = {0, 63, 64, N // 2, N - 1} if cx.tier == "quick" else {0, 1, 62, 63, 64, 65, N // 2, 127, 128, 191, 192, N - 2, N - 1}
    return sorted(r & set(range(N)))


def chosen(cx):
    """class representatives: one per distinct slot count (and the zero class)"""
    seen = {}
    for k in range(sm.nclasses(cx)):
        seen.setdefault(sm.geom(cx, k)[1], k)
    return sorted(set(seen.values()) | {0})


def slab_of(v, R):
    """(metadata, slot term) of the allocation made in the section; message if they do not fit together"""
    w = v.writes("slab_metadata", "bitmap")
    if len(w) != 1:
        return "%d changes of allocation bitmaps" % len(w)
    M = w[0].loc.base
    i = v.index_of(M)
    d = sub(R, v.slab(i))
    c, it = parts(d)
    if tm.signed(c, 64) % v.S or any(tm.signed(q, 64) % v.S for q in it.values()):
        return "the address %r is not a slot of the slab whose bitmap changes" % R
    return w[0], M, tm.lin(64, tm.signed(c, 64) // v.S, {x: tm.signed(q, 64) // v.S for x, q in it.items()})


def untag(t):
    """the address below a memory tag"""
    for _ in range(4):
        if t.op == "and" and t.a[0].op != "const" and False:
            pass
        break
    return t


def results(p):
    """what the entry point hands out: its return value"""
    return p.ret


def alloc_address(v):
    """address handed out on the path (tag removed), None when the call fails"""
    R = v.p.ret
    if R is None or v.p.eng.truth_in(v.p, tm.eq0(R)) is True:
        return None
    return strip_tag(v, R)


def strip_tag(v, R):
    """address of a block from the value returned: tagged pointers come out of the tagging instruction"""
    for e in v.sec:
        if e.k == "call" and e.val is not None and (e.val is R) and e.name in ("<asm>", "llvm.aarch64.irg"):
            return e.args[0]
    return R


def c41(cx):
    A, B, F = "the slot handed out exists and was free", "only that slot's bit changes", "full and empty are recognised"
    used_before = {}
    # every class: address and bit belong together, the count follows
    for k in range(sm.nclasses(cx)):
        for v in sm.each_alloc(cx, ks=[k]):
            R = alloc_address(v)
            if R is None:
                continue
            cx.obl(B)
            q = slab_of(v, R)
            if isinstance(q, str):
                cx.fail(B, v.p.endins, q, v.p)
                continue
            e, M, slot = q
            r = sm.bit_update(v, e, M, "bitmap", slot, True)
            if r is not True:
                cx.fail(B, e.ins, r, v.p)
            count_step(cx, B, v, M, 1)
            if v.writes("slab_metadata", "quarantine_bitmap"):
                cx.fail(B, v.writes("slab_metadata", "quarantine_bitmap")[0].ins, "allocation changes a quarantine bit", v.p)
    # one class per slot count: the search itself
    for k in chosen(cx):
        S, N, Z = sm.geom(cx, k)
        for r in starts(cx, N):
            ps = sm.exact_slot_paths(cx, k, r)
            todo = []
            rnd = False
            for p in ps:
                if p.end == "backedge":
                    continue
                for v in sm.views(cx, p, k):
                    ms = {t.a[2] for e in v.sec if e.k == "branch" for t in tm.loads(e.val) if t.a[0] == "slab_metadata" and
                          t.a[1] in ("bitmap", "count")}
                    if not ms and p.end != "ret":
                        continue
                    todo.append((p, v, ms))
                    rnd = rnd or any(e.k == "call" and e.name.endswith("_uniform") and e.args[-1].op == "const" and
                                     e.args[-1].a[0] == N for e in v.sec)
            if not todo:
                cx.fail(A, "class %d" % k, "no allocation path")
            pats = [(u, World(N, u)) for u in patterns(N)]
            for p, v, ms in todo:
                if p.end == "ret":
                    R = alloc_address(v)
                    if R is None:
                        continue
                    q = slab_of(v, R)
                    if isinstance(q, str):
                        continue        # reported above
                    e, M, slot = q
                else:
                    M = None if len(ms) != 1 else next(iter(ms))
                    if M is None:
                        continue
                cs = state_conds(p, M)
                post = epochs(p, M)
                hit = 0
                for u, w in pats:
                    f, memo = valuation(M, w)
                    if p.end == "spin" or p.end == "fatal":
                        if p.end == "fatal" and (not cs or not searching(p)):
                            continue
                        cx.obl(A)
                        if consistent(p, cs, f, memo):
                            cx.fail(A, p.endins, "size %d: the search %s although slots %s are free (start %d)" %
                                    (S, "never ends" if p.end == "spin" else "gives up", sorted(set(range(N)) - u)[:4], r), p)
                            break
                        continue
                    pre = [(c, x) for c, x in cs if not any(t in post for t in tm.loads(c))]
                    if not consistent(p, pre, f, memo):
                        continue
                    s = tm._value(slot, f, memo)
                    cx.obl(A)
                    if s is None:
                        cx.fail(A, e.ins, "cannot tell which slot is chosen", p)
                        break
                    if not s < N or s in u:
                        cx.fail(A, e.ins, "size %d: chooses slot %d of %d (%s), start %d" %
                                (S, s, N, "in use" if s in u else "beyond the slab", r), p)
                        break
                    if is_partial_head(v, M):
                        f2, memo2 = valuation(M, w, post, w.after(s, True))
                        if consistent(p, cs, f2, memo2):
                            cx.obl(F)
                            full = len(u) + 1 == N
                            fin = v.final("size_class", "partial_slabs", v.C)
                            gone = fin is not None and not sm.same(fin, M)
                            if full != gone:
                                cx.fail(F, (v.writes("size_class", "partial_slabs") or [e])[-1].ins,
                                        "size %d: with %d of %d slots used the slab %s the partial list" %
                                        (S, len(u) + 1, N, "leaves" if gone else "stays on"), p)
                                break
            if not rnd and r:
                pass
    # freeing
    for k in range(sm.nclasses(cx)):
        S, N, Z = sm.geom(cx, k)
        for v in sm.each_ptr(cx, "free", ("ret",), [k]):
            rel = fr.frees(v)
            if not rel:
                if v.writes("slab_metadata", "count"):
                    cx.fail(B, v.writes("slab_metadata", "count")[0].ins, "the used count changes although no slot is released", v.p)
                continue
            cx.obl(B)
            c = fr.chain(v)
            e, msg = fr.bit_store(v, "bitmap", c.cur, False)
            if msg:
                cx.fail(B, (e or rel[0]).ins, msg, v.p)
                continue
            M = e.loc.base
            count_step(cx, B, v, M, -1)
            loc = fr.where_is(v, c.cur)
            cs = state_conds(v.p, M)
            post = epochs(v.p, M)
            for sl in loc[2][:1]:
                for s in sorted({0, N // 2, N - 1}):
                    other = {0 if s else N - 1} - {s}
                    for u in ({s}, {s} | other, set(range(N)), set(range(N)) - other):
                        w = World(N, u)
                        ex = {x: y.a[0] for x, y in (slot_all(loc[2], s) or {}).items()}
                        f, memo = valuation(M, w, post, w.after(s, False), ex)
                        if not consistent(v.p, cs, f, memo):
                            continue
                        cx.obl(F)
                        kind = outcome(v, M)
                        want = "empty" if len(u) == 1 else "partial" if len(u) == N else "stay"
                        if kind != want:
                            cx.fail(F, e.ins, "size %d: after freeing one of %d used slots (of %d) the slab is treated as %s instead of %s" %
                                    (S, len(u), N, kind, want), v.p)
    fr.marks(cx, "only that slot's bit changes")


def slot_all(sls, s):
    out = {}
    for sl in sls:
        m = sm.slot_atoms(sl, s)
        if m:
            out.update(m)
    return out


def searching(p):
    return True if p.msg and ("bits" in p.msg or "slot" in p.msg) else False


def count_step(cx, rule, v, M, d):
    if not sm.has_field(cx, "slab_metadata", "count"):
        return
    w = v.writes("slab_metadata", "count")
    if len(w) != 1 or not sm.same(w[0].loc.base, M):
        cx.fail(rule, (w[0].ins if w else v.p.endins), "the used count of the slab is updated %d times" % len(w), v.p)
        return
    c, it = parts(w[0].val)
    t = w[0].val
    w16 = t.w
    ok = tm.signed(c, w16) == d and len(it) == 1 and list(it.values()) == [1] and \
        list(it)[0].op == "ld" and list(it)[0].a[1] == "count" and sm.same(list(it)[0].a[2], M)
    if not ok:
        # a known previous count
        old = [e for e in v.sec if e.k == "load" and e.loc.lab == ("slab_metadata", "count") and e.i < w[0].i]
        ok = bool(old) and sm.same(add(old[-1].val, const(d & 0xffff, w16)) if old[-1].val.w == w16 else None, t)
    if not ok:
        cx.fail(rule, w[0].ins, "the used count becomes %r" % t, v.p)


def is_partial_head(v, M):
    """was M the head of the partial list when the section started?"""
    u = sm.unver(M)
    return u.op == "ld" and u.a[1] == "partial_slabs" and u.a[2] is sm.unver(v.C)


def outcome(v, M):
    """list the slab ends up on"""
    e = v.final("size_class", "empty_slabs", v.C)
    if e is not None and sm.same(e, M):
        return "empty"
    for x in v.writes("size_class", "free_slabs_quarantine"):
        if sm.same(x.val, M):
            return "empty"
    q = v.final("size_class", "partial_slabs", v.C)
    if q is not None and sm.same(q, M):
        return "partial"
    if v.writes("size_class", "partial_slabs") or v.writes("slab_metadata", "next") or v.writes("slab_metadata", "prev"):
        return "moved"
    return "stay"


# -- C15 -----------------------------------------------------------------------------------------------
QUICK15 = ["default", "plain", "nozero", "mte"]


def reps(cx):
    """class representatives for the list rules: one per slot count, plus the first and last class; the other classes are
    shared out among the configurations"""
    if cx.tier == "thorough":
        return list(range(sm.nclasses(cx)))
    n = sm.nclasses(cx)
    want = {}
    for k in range(n):
        N = sm.geom(cx, k)[1]
        want.setdefault(N if N in (1, 4, 8, 64, 256, 85) else None, k)
    r = {k for q, k in want.items() if q is not None} | {0, n - 1}
    rest = [k for k in range(n) if k not in r]
    if cx.config in QUICK15:
        r |= set(rest[QUICK15.index(cx.config)::len(QUICK15)])
    # slabs with room left after the last slot
    r |= set([k for k in range(n) if sm.geom(cx, k)[0] * sm.geom(cx, k)[1] != sm.geom(cx, k)[2]][:2])
    return sorted(r)


def free_states(cx, k):
    """(state, description, expected) for releasing a slot of slab 3"""
    S, N, Z = sm.geom(cx, k)
    stages = [f for f in ("quarantine_random", "quarantine_queue") if sm.has_field(cx, "size_class", f)]
    others = [[], [5]] if N > 1 else [[]]
    shapes = []
    if N > 1:
        for o in others:
            shapes.append((N, o, None))                         # full -> partial
        for before, after in (([], []), ([5], []), ([], [6]), ([5], [6])):
            shapes.append((1, before, after))                   # last slot
            if N > 2:
                shapes.append((2, before, after))               # stays
    else:
        shapes.append((1, [], None))
    for count, before, after in shapes:
        onlist = after is not None
        # the cache holding few slabs, or more than any limit
        for empties, T0 in (([], 0), ([7], Z), ([7, 8], 2 * Z), ([7, 8], (1 << 24) // Z * Z)):
            if T0 > 2 * Z and count != 1:
                continue
            for bad in (False, True):
                for fq in ((0, []), (0, [9]), (1, []), (1, [9])):
                    if count not in (1,) and (bad or fq != (0, []) or len(empties) == 2):
                        continue
                    st = sh.State(cx, k)
                    for i in (5, 6):
                        st.meta(i, max(1, N - 1))
                    for i in (7, 8, 9, 12):
                        st.meta(i, 0)
                    st.meta(10, N)
                    st.meta(11, N)
                    st.meta(3, count, set(range(N - count, N)))
                    st.dlist("partial_slabs", before + ([3] if onlist else []) + (after or []))
                    if not onlist:
                        # what an unlinked slab holds in its links: nothing before it, anything after it
                        st.set("slab_metadata", "next", st.M(3), st.M(6) if N > 1 and count == N else 0)
                        st.set("slab_metadata", "prev", st.M(3), 0)
                    st.slist("empty_slabs", empties)
                    st.set("size_class", "empty_slabs_total", sh.C0, T0)
                    st.slist("free_slabs_head", fq[1], "free_slabs_tail")
                    for j in range(0, 32):
                        st.set("size_class", "free_slabs_quarantine", sh.C0, st.M(12) if fq[0] else 0, 8 * j)
                    last = st.slab(3) + S * (N - 1)
                    if stages:
                        st.ptr = st.slab(10)
                        for f in stages:
                            st.set("size_class", f, sh.C0, last if f == stages[-1] else st.slab(11))
                        for j in range(4):
                            st.set("slab_metadata", "quarantine_bitmap", st.M(3), (1 << (N - 1) % 64) if (N - 1) // 64 == j else 0, 8 * j)
                            st.set("slab_metadata", "quarantine_bitmap", st.M(11), 1 if j == 0 else 0, 8 * j)
                    else:
                        st.ptr = last
                    st.fails = {"mmap", "mmap64"} if bad else set()
                    yield st, (count, before, after, empties, bad, fq, T0)


def c15(cx):
    R = "each slab ends up on the list that matches its state"
    W = "an unused slab's whole range is replaced before it is queued"
    A = "a slab is accessible as a whole before it is used"
    stages = [f for f in ("quarantine_random", "quarantine_queue") if sm.has_field(cx, "size_class", f)]
    limit = []
    noacc = [0, 0x20] if "PROT_MTE" in " ".join(cx.prog(True).d.get("flags", [])) else [0]
    for k in reps(cx):
        S, N, Z = sm.geom(cx, k)
        # -- freeing
        vs = [v for v in sm.each_ptr(cx, "free", ("ret",), [k]) if fr.frees(v)]
        evs = [sh.prepare(v.p) for v in vs]
        for st, d in free_states(cx, k):
            count, before, after, empties, bad, fq, T0 = d
            got = []
            for v, ev in zip(vs, evs):
                r = sh.transfer(v, st, ev)
                if r is not None:
                    got.append((v, r))
            cx.obl(R)
            desc = "size %d, %d of %d slots used, partial list %s, %d cached slabs of %d bytes%s" % (
                S, count, N, before + [3] * (after is not None) + (after or []), len(empties), T0, ", mmap fails" if bad else "")
            if not got:
                cx.fail(R, "free", "no way to release a slot when %s" % desc)
                continue
            for v, (q, calls, bad_) in got:
                w = (v.writes("size_class") or v.writes("slab_metadata"))[-1].ins
                if bad_:
                    cx.fail(R, w, bad_, v.p)
                    continue
                part = q.read("partial_slabs", True)
                emp = q.read("empty_slabs")
                fre = q.read("free_slabs_head")
                tot = q.get("size_class", "empty_slabs_total", sh.C0)
                tail = q.get("size_class", "free_slabs_tail", sh.C0)
                maps = [(n, a) for n, a, e in calls if n in sm.SYS]
                fqv = q.get("size_class", "free_slabs_quarantine", sh.C0)
                rest = before + (after or [])
                fq0 = st.get("size_class", "free_slabs_quarantine", sh.C0)
                same_queue = fre == fq[1] and fqv == fq0
                if count > 1 or count == N and N > 1:
                    want = [3] + before if after is None else before + [3] + after
                    if part != want or emp != empties or tot != T0 or not same_queue or maps:
                        cx.fail(R, w, "after %s: partial %s (expected %s), cached %s total %s%s" %
                                (desc, part, want, emp, tot, ", kernel calls %s" % [m[0] for m in maps] if maps else ""), v.p)
                    continue
                # the slab became unused
                cached = emp == [3] + empties
                if part != rest:
                    cx.fail(R, w, "after %s: partial list %s, expected %s" % (desc, part, rest), v.p)
                    continue
                fixed = [(n, a) for n, a in maps if n in ("mmap", "mmap64")]
                if cached:
                    if tot != T0 + Z or not same_queue:
                        cx.fail(R, w, "after %s: the slab is cached with total %s and free list %s" % (desc, tot, fre), v.p)
                    if not maps:
                        limit.append((T0 + Z, None, k, w))
                        continue
                    limit.append((None, T0 + Z, k, w))
                    if not bad:
                        cx.fail(W, w, "after %s: the slab stays cached although it was replaced" % desc, v.p)
                    cx.obl(W)
                    if not any(n == "madvise" and a[:3] == [st.slab(3), Z, 4] for n, a in maps):
                        cx.fail(W, w, "after %s: replacing the slab failed and it is cached without having been purged" % desc, v.p)
                    continue
                limit.append((None, T0 + Z, k, w))
                cx.obl(W)
                if emp != empties or tot != T0:
                    cx.fail(R, w, "after %s: cached %s total %s, expected unchanged" % (desc, emp, tot), v.p)
                if not fixed or fixed[0][1][:4] not in [[st.slab(3), Z, x, 0x32] for x in noacc] or bad:
                    cx.fail(W, w, "after %s: the slab is queued after %s" % (desc, "replacing it failed" if bad else
                            "kernel calls %s" % [(n, a[1:4]) for n, a in maps]), v.p)
                ins = [e for n, a, e in calls if n in ("mmap", "mmap64")]
                put = [e for e in v.writes("size_class", "free_slabs_quarantine")]
                if ins and put and put[0].i < ins[0].i:
                    cx.fail(W, put[0].ins, "the slab is queued before it is replaced", v.p)
                if fqv != st.M(3):
                    cx.fail(R, w, "after %s: the slab does not enter the random free-slab array" % desc, v.p)
                wantq = fq[1] + ([12] if fq[0] else [])
                if fre != wantq or (tail or 0) != (st.M(wantq[-1]) if wantq else 0) and wantq:
                    cx.fail(R, w, "after %s: the free queue is %s with tail %s, expected %s" %
                            (desc, fre, tail and (tail - sh.INFO) // st.msz, wantq), v.p)
        # how many slabs stay cached at most
        def kept(m):
            st = next(st for st, d in free_states(cx, k) if d[0] == 1 and d[3] == [7] and not d[4])
            st.set("size_class", "empty_slabs_total", sh.C0, Z * m)
            for v, ev in zip(vs, evs):
                r = sh.transfer(v, st, ev)
                if r is not None:
                    return r[0].read("empty_slabs")[:1] == [3]
            raise ToolError("free: no way to release the last slot of a slab with %d cached" % m)
        if k and kept(1):
            lo_, hi_ = 1, 2
            while kept(hi_) and Z * hi_ < 1 << 30:
                lo_, hi_ = hi_, 2 * hi_
            while hi_ - lo_ > 1:
                mid = (lo_ + hi_) // 2
                lo_, hi_ = (mid, hi_) if kept(mid) else (lo_, mid)
            w = [e for v in vs for e in v.writes("size_class", "empty_slabs_total")]
            limit.append((Z * (lo_ + 1), None, k, w[-1].ins))
            limit.append((None, Z * (hi_ + 1), k, w[-1].ins))
        # the index into the array is a bounded random number
        for v in vs:
            for e in v.writes("size_class", "free_slabs_quarantine"):
                cx.obl("the free-slab array is entered at a random index")
                i = e.loc.idx if e.loc.idx is not None else const(0, 64)
                r = [fr.unz(x) for x in parts(i)[1]]
                ev = [q for q in v.sec if q.k == "call" and r and q.val is r[0]]
                n = sm.field(cx, "size_class", "free_slabs_quarantine")["size"] // 8
                if len(r) != 1 or not ev or "_uniform" not in ev[0].name or ev[0].args[1].op != "const" or \
                        ev[0].args[1].a[0] != n or list(parts(i)[1].values()) != [8] or parts(i)[0]:
                    cx.fail("the free-slab array is entered at a random index", e.ins, "index %r for an array of %d" % (i, n), v.p)
        # -- allocating
        alloc_lists(cx, k, R, A)
    lo = [x for x in limit if x[0] is not None]
    hi = [x for x in limit if x[1] is not None]
    cx.obl("one fixed limit for cached slabs")
    if not lo or not hi:
        cx.fail("one fixed limit for cached slabs", "free", "slabs are %s cached" % ("never" if not lo else "always"))
    else:
        a, b = max(lo, key=lambda x: x[0]), min(hi, key=lambda x: x[1])
        if a[0] >= b[1]:
            cx.fail("one fixed limit for cached slabs", a[3], "class of size %d caches %d bytes, class of size %d refuses %d" %
                    (sm.geom(cx, a[2])[0], a[0], sm.geom(cx, b[2])[0], b[1]))


def alloc_states(cx, k):
    S, N, Z = sm.geom(cx, k)
    if N > 1:
        for c in sorted({1, N - 1, max(1, N - 2)}):
            for rest in ([], [5]):
                yield "partial", dict(part=[3] + rest, c=c)
    for emp in ([3], [3, 7]):
        for fre in ([], [9]):
            yield "empty", dict(emp=emp, fre=fre)
    for fre in ([3], [3, 9]):
        for bad in (False, True):
            yield "free", dict(fre=fre, bad=bad)
    for cnt, allocd in ((20, 42), (42, 42), (20, 20), (0, 0)):
        for ung in (0, 1, 2, 3, 7):
            for bad in (False, True):
                yield "new", dict(cnt=cnt, allocd=allocd, ung=ung, bad=bad)


def build(cx, k, kind, d):
    S, N, Z = sm.geom(cx, k)
    st = sh.State(cx, k)
    for i in (5, 6):
        st.meta(i, max(1, N - 1))
    for i in (3, 7, 8, 9, 12):
        st.meta(i, 0)
    # links left behind by earlier lives
    for i in (7, 9):
        st.set("slab_metadata", "prev", st.M(i), 0)
    if "c" in d:
        st.meta(3, d["c"])
    st.dlist("partial_slabs", d.get("part", []))
    st.slist("empty_slabs", d.get("emp", []))
    st.set("size_class", "empty_slabs_total", sh.C0, Z * len(d.get("emp", [])))
    st.slist("free_slabs_head", d.get("fre", []), "free_slabs_tail")
    if kind == "new":
        st.set("size_class", "metadata_count", sh.C0, d["cnt"])
        st.set("size_class", "metadata_allocated", sh.C0, d["allocd"])
        st.set("size_class", "metadata_count_unguarded", sh.C0, d["ung"])
        st.meta(d["cnt"], 0)
    if d.get("bad"):
        st.fails = {"mprotect", "pkey_mprotect"}
    return st


def alloc_lists(cx, k, R, A):
    S, N, Z = sm.geom(cx, k)
    vs = list(sm.each_alloc(cx, ks=[k]))
    evs = [sh.prepare(v.p) for v in vs]
    for kind, d in alloc_states(cx, k):
        st = build(cx, k, kind, d)
        got = []
        for v, ev in zip(vs, evs):
            r = sh.transfer(v, st, ev)
            if r is not None:
                got.append((v, r))
        cx.obl(R)
        desc = "size %d, %s" % (S, {"partial": "partial list %s with %s of %d slots used" % (d.get("part"), d.get("c"), N),
                                    "empty": "cached slabs %s" % d.get("emp"), "free": "free slabs %s" % d.get("fre"),
                                    "new": "no reusable slab"}[kind]) + (", mprotect fails" if d.get("bad") else "")
        if not got:
            cx.fail(R, "malloc", "no path when %s" % desc)
            continue
        for v, (q, calls, bad_) in got:
            w = (v.writes("size_class") or [v.lock])[-1].ins
            if bad_:
                cx.fail(R, w, bad_, v.p)
                continue
            R_ = alloc_address(v)
            part, emp, fre = q.read("partial_slabs", True), q.read("empty_slabs"), q.read("free_slabs_head")
            tot = q.get("size_class", "empty_slabs_total", sh.C0)
            tail = q.get("size_class", "free_slabs_tail", sh.C0)
            want = dict(part=d.get("part", []), emp=d.get("emp", []), fre=d.get("fre", []))
            X = 3 if kind != "new" else d["cnt"]
            prot = [(e, a) for n, a, e in calls if n in ("mprotect", "pkey_mprotect")]
            slabprot = [(e, a) for e, a in prot if a[0] is not None and sh.REGION <= a[0] < sh.REGION + (1 << 40)]
            failed = R_ is None
            if failed:
                if not d.get("bad") or not prot:
                    cx.fail(R, v.p.endins, "fails although nothing went wrong when %s" % desc, v.p)
            else:
                if kind == "partial":
                    if d["c"] + 1 == N:
                        want["part"] = want["part"][1:]
                else:
                    want["part"] = [X] if N > 1 else []
                    if kind in ("empty", "free"):
                        f = "emp" if kind == "empty" else "fre"
                        want[f] = want[f][1:]
                    if kind in ("free", "new") and k:
                        cx.obl(A)
                        if not slabprot or slabprot[-1][1][:3] != [st.slab(X), Z, 3]:
                            cx.fail(A, w, "%s: the slab is used after %s, its range is %#x bytes" %
                                    (desc, ["%s%s" % (e.name, a[1:3]) for e, a in slabprot] or "no mprotect", Z), v.p)
                        else:
                            for e in v.p.ev[:slabprot[-1][0].i]:
                                if e.k in ("load", "store", "memset", "memcpy") and e.loc.st is None:
                                    cx.fail(A, e.ins, "%s: slab memory is touched before it is accessible" % desc, v.p)
                        if d.get("bad") and not (kind == "new" and d["cnt"] < d["allocd"] and False):
                            cx.fail(A, w, "%s: the slab is used although making it accessible failed" % desc, v.p)
                if slabprot and kind in ("partial", "empty"):
                    cx.fail(A, slabprot[0][0].ins, "protection of a slab in use changes", v.p)
            if (part, emp, fre) != (want["part"], want["emp"], want["fre"]) or tot != Z * len(want["emp"]) or \
                    (tail or 0) != (st.M(want["fre"][-1]) if want["fre"] else 0):
                cx.fail(R, w, "%s: %s leaves partial %s cached %s (total %s) free %s, expected %s" %
                        (desc, "failure" if failed else "allocation", part, emp, tot, fre, list(want.values())), v.p)


PROPS = {
    "C41": dict(
        rule=c41, configs=["default", "plain", "mte"], thorough=["light", "stats", "nozero", "android"],
        floor={"the slot handed out exists and was free": 5000, "only that slot's bit changes": 2000,
               "full and empty are recognised": 2000},
        technique="path-sensitive value analysis per size class with exact evaluation of the bit arithmetic over every slot",
        explain="For every class and path of malloc, the address returned and the bitmap bit set must be the same slot of the same "
                "slab and the count rises by one; for every distinct slot count the search loop is followed word by word and its "
                "result evaluated for every single-free-slot bitmap and several others and several random starts: it must be a "
                "free slot below the slot count, and the search may not give up or run on. For free, the released slot's bit and "
                "count, and the decision that a slab was full or became empty, are evaluated for boundary fill levels.",
        decides="bit and address arithmetic exactly for every slot; the search for every position of a single free slot"),
    "C15": dict(
        rule=c15, configs=["default", "plain", "nozero", "mte"], thorough=["light", "stats", "android"],
        floor={"each slab ends up on the list that matches its state": 200,
               "an unused slab's whole range is replaced before it is queued": 30,
               "a slab is accessible as a whole before it is used": 30,
               "the free-slab array is entered at a random index": 10, "one fixed limit for cached slabs": 1},
        technique="shape analysis: transfer functions extracted per path applied to all small list configurations",
        explain="For representative classes (all in the thorough tier) the transfer function of every path of malloc and free is "
                "applied to every configuration of the partial, cached and free lists with up to three slabs, fill levels at "
                "the boundaries and kernel calls succeeding or failing: the resulting lists, back links, totals and tails must be "
                "those of the specified automaton; mprotect/mmap arguments must cover the whole slab and precede use/queueing; "
                "the cache limit is the same for all classes.",
        decides="exact for the enumerated list shapes; list operations touch at most the neighbours, so larger lists behave alike"),
}
