"""C10, C11, C12, C16, C20: what is written to, read from and checked in the memory of slab slots."""
from .. import engine as en, term as tm, small as sm
from ..ctx import ToolError, lds, lockkind
from ..term import const, add, sub, parts
from . import free as fr
from .slab import alloc_address, slab_of

MEM = ("load", "store", "memset", "memcpy", "rmw")


def memtag(v, i=None):
    """is memory tagging known on/off on the path (None: not built in / not decided)"""
    return memtag_p(v.p, i)


def memtag_p(p, i=None):
    for e in p.ev[:i]:
        if e.k == "branch" and e.x in (True, False):
            for x in tm.loads(e.val):
                if x.a[1] == "is_memtag_disabled":
                    t = p.eng.truth_in(p, tm.eq0(x))
                    if t is not None:
                        return t
                    f = lambda y: 1 if y is x else None
                    q = tm.value(e.val, f)
                    if q is not None:
                        return bool(q) != e.x
    return None


def raw(v, evs=None):
    """accesses to memory that is not allocator bookkeeping"""
    for e in (v.sec if evs is None else evs):
        if e.k in MEM:
            if e.loc is not None and e.loc.st is None:
                yield e, e.loc.addr
            if e.k == "memcpy" and e.x is not None and e.x.st is None:
                yield e, e.x.addr


def class_of(v):
    """index of the class whose lock is taken, or None"""
    c, it = parts(v.C)
    sz = v.cx.prog(False).structs["size_class"]["size"]
    c = tm.signed(c, 64)
    if c % sz or not 0 <= c // sz or any(tm.signed(q, 64) != 1 for q in it.values()):
        return None
    return c // sz % sm.nclasses(v.cx) if not it or len(it) == 1 else None


def source(v, M):
    """where the slab of an allocation came from"""
    u = sm.unver(M)
    if u.op == "ld" and u.a[0] == "size_class" and u.a[2] is sm.unver(v.C):
        return {"partial_slabs": "partial", "empty_slabs": "cached", "free_slabs_head": "purged"}.get(u.a[1], u.a[1])
    return "new"


def alloc_cases(cx, ks=None):
    for k in ks or range(sm.nclasses(cx)):
        for v in sm.each_alloc(cx, ks=[k]):
            R = alloc_address(v)
            if R is None:
                continue
            q = slab_of(v, R)
            if isinstance(q, str):
                yield k, v, R, None, q
            else:
                yield k, v, R, q[1], q[2]


# -- C10 -----------------------------------------------------------------------------------------------
def c10(cx):
    W, C, N_, L = ("canary written on allocation", "canary checked before the block is given up", "canary drawn afresh per slab life",
                   "canary lies beyond the request")
    if not cx.opt("SLAB_CANARY"):
        if sm.canary_size(cx):
            raise ToolError("canaries without SLAB_CANARY")
        for n in ("free",):
            for v in sm.each_ptr(cx, n, ("ret",)):
                cx.obl("no canary when disabled")
        return
    cx.obl(L)
    if not sm.canary_size(cx):
        cx.fail(L, "struct slab_metadata", "the slab has no canary value although canaries are enabled")
        return
    for k, v, R, M, x in alloc_cases(cx):
        if M is None:
            cx.fail(W, v.p.endins, x, v.p)
            continue
        cx.obl(L)
        if class_of(v) != k:
            cx.fail(L, v.lock.ins, "requests of %d..%d bytes use class %s, whose blocks leave no room for the canary" %
                    (sm.bracket(cx, k) + (class_of(v),)), v.p)
            continue
        at = add(R, const(v.S - 8, 64))
        w = [e for e, a in raw(v) if e.k in ("store", "memset", "memcpy")]
        can = [e for e in w if e.k == "store" and e.loc.addr is at and e.w == 64]
        drawn = v.writes("slab_metadata", "canary_value")
        src = source(v, M)
        if k == 0:
            if w:
                cx.fail(W, w[0].ins, "writes to a zero-size block", v.p)
        else:
            mt = memtag(v)
            cx.obl(W)
            if mt is True:
                pass
            elif not can:
                cx.fail(W, v.p.endins, "size %d from a %s slab: no canary at the end of the block%s" % (
                    v.S, src, "; writes %s instead" % [repr(sub(e.loc.addr, R)) for e in w[:3]] if w else ""), v.p)
            else:
                cv = canary_now(v, M, can[-1].i)
                if not any(sm.same(can[-1].val, c) for c in cv):
                    cx.fail(W, can[-1].ins, "size %d from a %s slab: the value written is not the slab's canary" % (v.S, src), v.p)
                later = [e for e in w if e.i > can[-1].i and e is not can[-1]]
                if later:
                    cx.fail(W, later[0].ins, "block memory is written after the canary", v.p)
        # a fresh canary when the slab starts a new life, and only then
        cx.obl(N_)
        mine = [e for e in drawn if sm.same(e.loc.base, M)]
        if len(mine) != len(drawn):
            cx.fail(N_, drawn[0].ins, "changes the canary of another slab", v.p)
        elif src in ("new", "purged"):
            if not mine:
                cx.fail(N_, v.p.endins, "a %s slab is used without a new canary" % src, v.p)
            else:
                msg = fresh_canary(v, mine)
                if msg:
                    cx.fail(N_, mine[-1].ins, msg, v.p)
                if can and mine[-1].i > can[-1].i:
                    cx.fail(N_, mine[-1].ins, "the canary changes after it was written to a block", v.p)
        elif mine:
            cx.fail(N_, mine[0].ins, "the canary of a %s slab changes while its blocks carry the old one" % src, v.p)
    cx.obl(C)
    # checks
    for n in fr.free_entries(cx) + ["malloc_usable_size"]:
        for v in sm.each_ptr(cx, n, ("ret",), range(1, sm.nclasses(cx))):
            cx.obl(C)
            if memtag(v) is True:
                continue
            msg = checked(v, first_use(v) if n != "malloc_usable_size" else len(v.p.ev))
            if msg:
                cx.fail(C, v.p.endins, "%s of a %d byte block: %s" % (n, v.S, msg), v.p)


def canary_now(v, M, i):
    """terms that denote the canary of M at event i"""
    w = [e for e in v.writes("slab_metadata", "canary_value", None) if sm.same(e.loc.base, M) and e.i < i]
    if w:
        return [w[-1].val]
    return [e.val for e in v.p.ev[:i + 1] if e.k == "load" and e.loc.lab == ("slab_metadata", "canary_value") and
            sm.same(e.loc.base, M)]


def fresh_canary(v, mine):
    last = mine[-1].val
    first = mine[0].val
    r = [x for x in tm.subterms(first) if x.op == "ret"]
    ev = [e for e in v.sec if e.k == "call" and e.val in r]
    if len(ev) != 1 or ev[0].name != "get_random_u64":
        return "the canary %r is not a random number" % first
    g = v.p.eng.resolve(ev[0].args[0])
    if g.st != "size_class" or g.f != "rng" or g.base is not v.C:
        return "the canary does not come from the class's generator"
    x = ev[0].val
    for val in ((1 << 64) - 1, 0x0123456789abcdef, 0xfedcba9876543210, 0xff00, 1 << 63, 0xff):
        q = tm.value(first, lambda t: val if t is x else None)
        if q is None:
            return "cannot evaluate the canary"
        if q & 0xff:
            return "the lowest byte of the canary is not zero"
        if q != val & ~0xff:
            return "the canary keeps %#x of the random %#x" % (q, val)
    if last is not first:
        # a replacement for zero only
        if last.op != "const" or last.a[0] == 0 or last.a[0] & 0xff:
            return "the canary is replaced by %r" % last
        if v.p.eng.truth_in(v.p, tm.eq0(first)) is not True:
            return "the canary is replaced although it is not zero"
    return None


def first_use(v):
    """first event that gives up the block: contents overwritten or bookkeeping changed"""
    for e in fr.effects(v.p):
        if e.i > v.lock.i:
            return e.i
    return len(v.p.ev)


def checked(v, i):
    """None if before event i the canary of the block was compared with its slab's"""
    at = add(v.ptr, const(v.S - 8, 64))
    got = [e.val for e in v.p.ev[:i] if e.k == "load" and e.loc.st is None and e.loc.addr is at and e.w == 64]
    if not got:
        other = [repr(sub(e.loc.addr, v.ptr)) for e in v.p.ev[:i] if e.k == "load" and e.loc.st is None]
        return "its canary is not read%s" % ("; reads offset %s instead" % other[0] if other else "")
    st = sm.facts_at(v.p, i)
    loc = fr.where_is(v, v.ptr)
    if loc is None:
        return "no bookkeeping of its slab"
    cans = [e.val for e in v.p.ev[:i] if e.k == "load" and e.loc.lab == ("slab_metadata", "canary_value") and
            any(sm.same(e.loc.base, v.meta(ix)) for ix in v.idx(v.ptr))]
    for g in got:
        for c in cans:
            if v.p.eng.truth(st, tm.eq0(sub(g, c))) is True:
                return None
        # tagging built in: an all-zero canary was never written
        if memtag(v) is False and v.p.eng.truth(st, tm.eq0(g)) is True:
            return None
    return "its canary is not required to match the slab's before the block is given up"


# -- C11 -----------------------------------------------------------------------------------------------
def c11(cx, R="block zeroed before it leaves the caller's hands", strict=True):
    on = cx.opt("ZERO_ON_FREE")
    can = 8 if cx.opt("SLAB_CANARY") else 0
    for n in fr.free_entries(cx):
        for v in sm.each_ptr(cx, n, ("ret",)):
            cx.obl(R)
            w = [e for e, a in raw(v) if e.k in ("store", "memset", "memcpy")] + tag_events(v)
            if v.k == 0 or not on:
                if w and strict:
                    cx.fail(R, w[0].ins, "writes to %s" % ("a zero-size block" if v.k == 0 else "the block although zeroing is disabled"), v.p)
                continue
            need = v.S - can
            done = None
            for e in w:
                if e.k == "memset" and e.loc.addr is v.ptr and e.args[1].op == "const" and e.args[1].a[0] & 0xff == 0 and \
                        e.args[2].op == "const":
                    if e.args[2].a[0] > v.S:
                        cx.fail(R, e.ins, "clears %d bytes of a %d byte block" % (e.args[2].a[0], v.S), v.p)
                    elif e.args[2].a[0] >= need:
                        done = e
                elif e.k == "call" and tag_range(v, e):
                    done = e
            done = done or cleared_by_loop(v, need)
            if done is None:
                cx.fail(R, v.p.endins, "a %d byte block is released with %s" % (v.S, "only %s cleared" % [
                    repr(e.args[2]) for e in w if e.k == "memset"] if w else "its contents"), v.p)
                continue
            gone = [e for e in v.sec if e.k == "store" and (e.loc.st == "size_class" and e.loc.f not in sm.STATS or
                                                           e.loc.st == "slab_metadata" and e.loc.f != "quarantine_bitmap")]
            if gone and gone[0].i < done.i:
                cx.fail(R, done.ins, "the block is cleared only after %s.%s made it reusable" % gone[0].loc.lab, v.p)
    shared_release(cx, R)


def cleared_by_loop(v, need):
    """a loop storing zeros over [ptr, ptr+need)"""
    for h, info in scan_loops(v, "store").items():
        if info["from"] is not None and covers(v, info, v.ptr, need) and info["zero"]:
            return info["ev"]
    return None


def shared_release(cx, rule):
    """the other entry points release small blocks through the function free uses (checked in detail by C07)"""
    rel = fr.release_fns(cx)
    cx.obl(rule)
    if not rel:
        raise ToolError("free has no separate function for slab blocks")
    for n in fr.other_releasers(cx):
        for p in cx.run(n):
            for e in p.ev:
                if e.k == "store" and e.loc.st == "slab_metadata":
                    cx.fail(rule, e.ins, "%s changes slab bookkeeping itself" % n, p)


def tag_events(v):
    return [e for e in v.sec if e.k == "call" and e.name == "<asm>" and fr.writes_asm(e)]


def num(t, m):
    return tm.value(t, lambda x: m.get(x))


ADDR = 0x7123456780


def tag_range(v, e, at=None, tag=0):
    """does a tag-and-clear instruction cover exactly the slot of the freed pointer with the given tag?"""
    m = {}
    for x in tm.subterms(v.ptr if at is None else at):
        if x.op == "arg":
            m[x] = ADDR
    if len(e.args) < 2:
        return False
    vals = sorted(x for x in (num(a, m) for a in e.args) if x is not None)
    base = num(v.ptr if at is None else at, m)
    if base is None or len(vals) < 2:
        return False
    return vals[0] == base + (tag << 56) and vals[-1] == base + (tag << 56) + v.S


# -- loops over a block --------------------------------------------------------------------------------
def scan_loops(v, kind):
    """loops in the section whose body accesses block memory: header -> start/step of the address, width"""
    out = {}
    p = v.p
    cur = {}
    for e in p.ev[v.lock.i:]:
        if e.k == "loop":
            cur[e.x] = e
            continue
        if e.k == kind and e.loc.st is None:
            for h, l in cur.items():
                if l.name != "havoc":
                    continue
                m = {}
                for _, (a, b) in l.val.items():
                    for x in parts(b)[1]:
                        m[x] = None
                    m[b] = a
                phis = [x for x in tm.subterms(e.loc.addr) if x.op in ("sym", "fresh") and x in m or x in m]
                if phis:
                    out[h] = {"loop": l, "ev": e, "addr": e.loc.addr, "w": e.w // 8,
                              "zero": e.val is not None and e.val.op == "const" and e.val.a[0] == 0, "from": True}
    return out


def loop_step(l, t):
    """(value of t on entry, t) for a term over the loop's counters"""
    m = {}
    for _, (a, b) in l.val.items():
        if b.op == "lin":
            c, it = parts(b)
            if c == 0 and len(it) == 1:
                x, q = list(it.items())[0]
                if a.op == "const" and tm.signed(a.a[0], a.w) % tm.signed(q, b.w) == 0:
                    m[x] = const(tm.signed(a.a[0], a.w) // tm.signed(q, b.w), x.w)
        else:
            m[b] = a
    return tm.substitute(t, m)


def covers(v, info, start, need):
    """on leaving the loop every byte of [start, start+need) has been accessed (upward loops)"""
    l, A = info["loop"], info["addr"]
    if loop_step(l, A) is not start:
        return False
    # the address grows by the access width on every round
    back = [p for p in back_paths(v) if p.ev and p.end == "backedge" and p.ret == l.x]
    if not back:
        return False
    for q in back:
        l2 = [e for e in q.ev if e.k == "loop" and e.x == l.x][-1]
        be = [e for e in q.ev if e.k == "backedge"][-1]
        m = {}
        for i, (a, b) in l2.val.items():
            n = be.val.get(i)
            if n is not None:
                if b.op == "lin":
                    c, it = parts(b)
                    x, co = list(it.items())[0]
                    d = sub(n, b)
                    if d.op == "const" and tm.signed(d.a[0], b.w) % tm.signed(co, b.w) == 0:
                        m[x] = add(x, const(tm.signed(d.a[0], b.w) // tm.signed(co, b.w), x.w))
                else:
                    m[b] = n
        acc = [e for e in q.ev[l2.i:] if e.k == info["ev"].k and e.loc.st is None and e.w // 8 == info["w"]]
        ok = False
        for e in acc:
            if sub(tm.substitute(e.loc.addr, m), e.loc.addr) is const(info["w"], 64):
                ok = e
        if not ok:
            return False
        if info["ev"].k == "load" and q.eng.truth_in(q, tm.eq0(ok.val)) is not True:
            return False
    return True


def back_paths(v):
    key = ("back", v.p.entry, v.k)
    memo = v.cx.__dict__.setdefault("_back", {})
    if key not in memo:
        ps = sm.alloc_paths(v.cx, v.k) if v.ptr is None else sm.ptr_paths(v.cx, v.k, v.p.entry)[0]
        memo[key] = [p for p in ps if p.end == "backedge"]
    return memo[key]


# -- C12 -----------------------------------------------------------------------------------------------
def c12(cx):
    R = "reused slot verified to be zero"
    on = cx.opt("WRITE_AFTER_FREE_CHECK")
    can = 8 if cx.opt("SLAB_CANARY") else 0
    for k, v, R_, M, x in alloc_cases(cx):
        if M is None:
            cx.fail(R, v.p.endins, x, v.p)
            continue
        src = source(v, M)
        if not on:
            cx.obl("no check when disabled")
            continue
        if k == 0 or src in ("new", "purged"):
            continue
        cx.obl(R)
        if memtag(v) is True:
            continue
        need = v.S - can
        msg = verified(v, R_, need)
        if msg:
            cx.fail(R, v.p.endins, "size %d, slot of a %s slab: %s" % (v.S, src, msg), v.p)
            continue
        # before the memory is changed
    cx.count("classes", sm.nclasses(cx))


def verified(v, R, need):
    """None if the path leaves with every byte of [R, R+need) known to have been zero"""
    # straight-line reads
    got = {}
    st = None
    for e in v.sec:
        if e.k == "load" and e.loc.st is None:
            d = sub(e.loc.addr, R)
            if d.op == "const" and v.p.eng.truth_in(v.p, tm.eq0(e.val)) is True:
                for b in range(e.w // 8):
                    got[tm.signed(d.a[0], 64) + b] = e
    have = 0
    while have in got:
        have += 1
    if have >= need:
        return None
    why = "its contents are not examined" if not have else "only the first %d bytes are examined" % have
    # loops: the ones entered on this path
    for e in v.sec:
        if e.k != "loop" or e.name != "havoc":
            continue
        for i, (a, b) in e.val.items():
            pass
    loops = [e for e in v.sec if e.k == "loop" and e.name == "havoc"]
    for l in loops:
        A = body_access(v, l, R)
        if A is None:
            continue
        addr, w, nxt = A
        s0 = loop_step(l, sub(addr, R))
        if s0.op != "const" or tm.signed(s0.a[0], 64) > have or tm.signed(s0.a[0], 64) < 0:
            why = "the check starts at offset %r" % s0
            continue
        stt = sm.facts_at(v.p, len(v.p.ev))
        if have + w >= need and any(a.op == "const" and v.p.eng.iv(stt, b)[0] > a.a[0] for a, b in l.val.values()):
            return None     # at least one round was completed and one round is all it takes
        step = sub(tm.substitute(sub(addr, R), nxt), sub(addr, R))
        if step is not const(w, 64):
            why = "the check advances by %r while reading %d bytes" % (step, w)
            continue
        # reached end: what the path knows about the first address not examined
        here = [e for e in v.sec if e.k == "load" and e.loc.st is None and e.i > l.i and e.loc.addr is addr]
        end = sub(addr, R)
        if here:
            end = tm.substitute(end, nxt)
        lo = v.p.eng.iv(stt, end)[0]
        # ... or about another counter of the loop
        n = rounds(v, l, nxt, stt)
        if n is not None:
            lo = max(lo, tm.signed(s0.a[0], 64) + (n + bool(here)) * w)
        if lo >= need:
            return None
        why = "only the first %d of %d bytes are sure to be examined" % (lo, need) if lo < need else why
    return why


def rounds(v, l, nxt, stt):
    """how many complete rounds the path has certainly made, from any counter with a constant step"""
    best = None
    for a, b in l.val.values():
        x = atom_of(b)
        if x is None or x[0] not in nxt or a.op != "const":
            continue
        d = sub(tm.substitute(b, {x[0]: nxt[x[0]]}), b)
        if d.op != "const" or d.a[0] == 0:
            continue
        d, a0 = tm.signed(d.a[0], b.w), a.a[0]
        lo, hi = v.p.eng.iv(stt, b)[:2]
        n = (lo - a0) // d if d > 0 else (a0 - hi) // -d
        if n > 0 and (best is None or n > best):
            best = n
    return best


def body_access(v, l, R):
    """(address, width, next address) of the checked read in the body of loop l"""
    got = None
    for q in back_paths(v):
        if q.ret != l.x:
            continue
        l2 = [e for e in q.ev if e.k == "loop" and e.x == l.x][-1]
        be = [e for e in q.ev if e.k == "backedge"][-1]
        ren, nx = {}, {}
        for i, (a, b) in l2.val.items():
            b1 = l.val[i][1]
            n = be.val.get(i)
            x2, x1 = atom_of(b), atom_of(b1)
            if x2 is None or x1 is None:
                continue
            ren[x2[0]] = x1[0]
            if n is not None:
                d = sub(n, b)
                if d.op == "const" and tm.signed(d.a[0], b.w) % x2[1] == 0:
                    nx[x1[0]] = add(x1[0], const(tm.signed(d.a[0], b.w) // x2[1], x1[0].w))
        mine = other = False
        for e in q.ev[l2.i:]:
            if e.k == "load" and e.loc.st is None and q.eng.truth_in(q, tm.eq0(e.val)) is True:
                A = tm.substitute(e.loc.addr, ren)
                if any(x in ren.values() for x in atoms(loop_step(l, sub(A, R)))) or loop_step(l, sub(A, R)).op != "const":
                    other = True        # a path of another allocation
                    continue
                if got is not None and (got[0] is not A or got[1] != e.w // 8 or got[2] != nx):
                    continue
                got, mine = (A, e.w // 8, nx), True
                break
        if not mine and not other:
            return None         # a round without a check
    return got


def atom_of(b):
    if b.op == "lin":
        c, it = parts(b)
        if len(it) == 1 and c == 0:
            x, q = list(it.items())[0]
            return x, tm.signed(q, b.w)
        return None
    return b, 1


def atoms(t):
    if t.op == "const":
        return []
    return list(parts(t)[1]) if t.op == "lin" else [t]


# -- C16 -----------------------------------------------------------------------------------------------
def c16(cx):
    A, B, C = "zero bytes have a class of their own", "zero-size slabs stay inaccessible", "no access to a zero-size block"
    for k in range(sm.nclasses(cx)):
        for v in sm.each_alloc(cx, ends=("ret", "fatal"), ks=[k]):
            cx.obl(A)
            j = class_of(v)
            if (j == 0) != (k == 0):
                lo, hi = sm.bracket(cx, k)
                cx.fail(A, v.lock.ins, "a request of %d..%d bytes is served from class %s" % (lo, hi, j), v.p)
    for n, v in zero_views(cx):
        cx.obl(B)
        for e in v.sys("mprotect", "pkey_mprotect", "mmap", "mmap64", "mremap"):
            # the slab's own range (its bookkeeping is elsewhere)
            i = 2
            mine = [x for x in e.args[:1] if any(y.a[1] == "class_region_start" for y in tm.loads(x)) or
                    v.ptr is not None and v.ptr in tm.subterms(x)]
            if mine and len(e.args) > i and not noaccess(e.args[i]):
                cx.fail(B, e.ins, "%s: memory of a zero-size slab is made accessible" % n, v.p)
        cx.obl(C)
        for e, a in raw(v, v.p.ev):
            if (v.ptr is not None and v.ptr in tm.subterms(a)) or any(y.a[1] == "class_region_start" for y in tm.loads(a)):
                cx.fail(C, e.ins, "%s reads or writes a zero-size block (%s)" % (n, e.k), v.p)
        for e in v.p.ev:
            if e.k == "call" and (e.name == "<asm>" or e.name == "llvm.aarch64.irg") and (fr.writes_asm(e) or e.name != "<asm>"):
                cx.fail(C, e.ins, "%s tags a zero-size block" % n, v.p)
    # queries
    Q = "usable size zero"
    for n in ("malloc_usable_size",):
        for v in sm.each_ptr(cx, n, ("ret",), [0]):
            cx.obl(Q)
            if v.p.ret is not const(0, 64):
                cx.fail(Q, v.p.endins, "%s of a zero-size block returns %r" % (n, v.p.ret), v.p)
    # memory is taken accessible only through the slab paths above
    K = "slab regions start out inaccessible"
    for n in cx.inits():
        for p in cx.run(n, assume_init=False):
            for e in p.ev:
                if e.k == "call" and e.name in ("mmap", "mmap64") and stored_to(p, e, "slab_region_start"):
                    cx.obl(K)
                    if not noaccess(e.args[2]):
                        cx.fail(K, e.ins, "the slab regions are mapped with protection %r" % e.args[2], p)
                elif e.k == "call" and e.name in ("mprotect", "pkey_mprotect") and any(
                        y.a[1] in ("slab_region_start", "class_region_start") for y in tm.loads(e.args[0])):
                    cx.fail(K, e.ins, "slab memory is made accessible at initialisation", p)


def noaccess(t):
    """protection without read/write/execute"""
    return t.op == "const" and not t.a[0] & 7 or t.op == "select" and all(noaccess(x) for x in t.a[1:])


def stored_to(p, e, f):
    return any(s.k == "store" and s.loc.f == f and e.val is not None and e.val in tm.subterms(s.val) for s in p.ev[e.i:])


def zero_views(cx):
    for v in sm.each_alloc(cx, ends=("ret", "fatal", "backedge"), ks=[0]):
        yield "malloc", v
    for n in fr.free_entries(cx) + ["malloc_usable_size", "malloc_object_size"]:
        for v in sm.each_ptr(cx, n, ks=[0]):
            yield n, v


# -- C20 -----------------------------------------------------------------------------------------------
def c20(cx):
    KT = "slab memory given back stays mapped for tagging"
    T, X, RC, F, U, I = ("every slot handed out is tagged", "the tag differs from reserved, previous and neighbouring tags",
                         "the new tag is recorded for its slot", "freed slots carry the reserved tag",
                         "tags are stripped from pointers passed in", "slab memory is mapped for tagging")
    todo = []
    for k, v, R, M, x in alloc_cases(cx, range(1, sm.nclasses(cx))):
        mt = memtag(v)
        if mt is None:
            cx.fail(T, v.p.endins, "size %d: a block is handed out without asking whether tagging is on" % v.S, v.p)
            continue
        if mt is False:
            if any(e.name == "llvm.aarch64.irg" for e in v.sec if e.k == "call"):
                cx.fail(T, v.p.endins, "tags used although tagging is off", v.p)
            continue
        cx.obl(T)
        irg = [e for e in v.sec if e.k == "call" and e.name == "llvm.aarch64.irg"]
        asm = tag_events(v)
        if len(irg) != 1 or v.p.ret is not irg[0].val or irg[0].args[0] is not R:
            cx.fail(T, v.p.endins, "size %d (%s slab): the pointer returned is not the slot's address with a random tag" %
                    (v.S, source(v, M)), v.p)
            continue
        irg = irg[0]
        vals = sorted(q for q in (num(a, {irg.val: ADDR}) for e in asm for a in e.args) if q is not None)
        if len(asm) != 1 or vals != [ADDR, ADDR + v.S]:
            cx.fail(T, v.p.endins, "size %d: the slot's memory is not tagged from its first to its last byte (%s)" %
                    (v.S, [q - ADDR for q in vals]), v.p)
            continue
        st = [e for e in v.sec if e.k == "store" and e.loc.lab == ("slab_metadata", "arm_mte_tags")]
        cx.obl(RC)
        if len(st) != 1 or not sm.same(st[0].loc.base, M):
            cx.fail(RC, v.p.endins, "size %d: %d updates of the slab's tag records" % (v.S, len(st)), v.p)
            continue
        todo.append((k, v, x, M, irg, st[0]))
    # where each slot's tag is recorded, over all paths of a class, then what is excluded
    layout = {}
    for k, v, x, M, irg, st in todo:
        at, pos = tag_places(v, x, M, irg, st)
        if at == "R":
            cx.fail(RC, st.ins, "size %d: %s" % (v.S, pos), v.p)
            continue
        lay = layout.setdefault(k, {})
        for s_, q in pos.items():
            if lay.setdefault(s_, q) != q:
                cx.fail(RC, st.ins, "size %d: the tag of slot %d is recorded in different places" % (v.S, s_), v.p)
    for k, lay in layout.items():
        if len(set(lay.values())) != len(lay):
            v, st = next((v, st) for k2, v, x, M, irg, st in todo if k2 == k)
            s_ = next(a for a in lay if any(b != a and lay[b] == lay[a] for b in lay))
            cx.fail(RC, st.ins, "size %d: slot %d shares its tag record with another slot" % (v.S, s_), v.p)
    for k, v, x, M, irg, st in todo:
        cx.obl(X)
        if tag_places(v, x, M, irg, st)[0] == "R":
            continue
        msg = tags_ok(v, x, M, irg, st, layout[k])
        if msg:
            cx.fail(X, st.ins, "size %d: %s" % (v.S, msg), v.p)
    for n in fr.free_entries(cx):
        for v in sm.each_ptr(cx, n, ("ret",), range(1, sm.nclasses(cx))):
            for e in v.sys("mmap", "mmap64"):
                keeps_tags(cx, KT, v.p, e, "%s of a %d byte slot" % (n, v.S))
            if memtag(v) is not True:
                continue
            cx.obl(F)
            t = [e for e in tag_events(v)]
            if len(t) != 1 or not tag_range(v, t[0]):
                cx.fail(F, v.p.endins, "%s of a %d byte slot does not retag exactly the slot with the reserved tag" % (n, v.S), v.p)
    for n in fr.free_entries(cx) + ["realloc", "malloc_usable_size", "malloc_object_size", "malloc_object_size_fast"]:
        if n not in cx.prog(False).fns:
            continue
        if n not in ("realloc", "malloc_object_size_fast"):
            K, ptr = sm.class_term(cx, n)
            cx.obl(U)
            m = {x: ADDR | 0xb << 56 for x in tm.subterms(ptr) if x.op == "arg"}
            if not m or num(ptr, m) != ADDR:
                cx.fail(U, "%s" % n, "the size class of a tagged pointer is computed from %r" % ptr)
        for p in cx.run(n):
            for e in p.ev:
                if e.k == "call" and e.name in cx.heavy() and e.name not in cx.exported():
                    for a in e.args:
                        ar = [y for y in tm.subterms(a) if y.op == "arg" and y.a[0] == "arg0"]
                        q = num(a, {y: ADDR | 0xb << 56 for y in ar}) if ar and a.w == 64 else None
                        if q is not None and q & (1 << 56) - 1 == ADDR:
                            cx.obl(U)
                            if q != ADDR:
                                cx.fail(U, e.ins, "%s passes the tagged pointer to %s" % (n, e.name), p)
                if e.k != "branch" or e.x not in (True, False) or e.val.op not in ("eq", "not"):
                    continue
                rg = [y for y in tm.loads(e.val) if y.a[1] == "p" and y.a[0] == "region_metadata"]
                ar = [y for y in tm.subterms(e.val) if y.op == "arg"]
                if len(rg) == 1 and rg[0].a[2] is not None and ar and not any(y.op == "arg" for y in tm.parts(rg[0])[1]):
                    outer = [y for y in tm.subterms(e.val) if y.op == "eq"]
                    d = outer[0].a[0] if outer else None
                    if d is None or d.op != "lin" or rg[0] not in parts(d)[1]:
                        continue
                    q = num(d, {rg[0]: ADDR, **{a: ADDR | 0xb << 56 for a in ar}})
                    if q is None:
                        continue
                    cx.obl(U)
                    if q:
                        cx.fail(U, e.ins, "%s looks large blocks up by the tagged address" % n, p)
    for n in ("malloc_trim", "h_malloc_trim"):
        for p in cx.run(n) if n in cx.prog(False).fns else []:
            for e in p.ev:
                if e.k == "call" and e.name in ("mmap", "mmap64") and any(y.a[1] == "class_region_start" for y in tm.loads(e.args[0])):
                    keeps_tags(cx, KT, p, e, n)
    for n in cx.inits():
        for p in cx.run(n, assume_init=False):
            for e in p.ev:
                if e.k == "call" and e.name in ("mmap", "mmap64") and stored_to(p, e, "slab_region_start"):
                    cx.obl(I)
                    on = memtag_p(p, e.i)
                    if on is not False and not any(c.op == "const" and c.a[0] & 0x20 for c in tm.subterms(e.args[2])):
                        cx.fail(I, e.ins, "the slab regions are mapped with protection %r" % e.args[2], p)


def keeps_tags(cx, rule, p, e, what):
    """a mapping that replaces slab memory is one with tags, when tagging is on (mprotect cannot add them later)"""
    if memtag_p(p, e.i) is False:
        return
    cx.obl(rule)
    dis = {x: 0 for x in tm.loads(e.args[2]) if x.a[1] == "is_memtag_disabled"}
    q = num(e.args[2], dis)
    if q is None:
        q = 0x20 if e.args[2].op == "select" and any(c.op == "const" and c.a[0] & 0x20 for c in e.args[2].a[1:]) else 0
    if not q & 0x20:
        cx.fail(rule, e.ins, "%s replaces a slab by memory without tags (protection %r)" % (what, e.args[2]), p)


def tag_terms(v, slot, M, irg, st):
    """mask, recorded value, place of the record and the branches on the slot alone, in terms of a generic slot"""
    off = lambda l: add(l.idx if l.idx is not None else const(0, 64), const(l.sub, 64))
    sa = set(parts(slot)[1])
    sa |= {x.a[0] for x in sa if x.op == "zext"}
    cs = {}
    for e in v.p.ev:
        if e.k == "branch" and e.x in (True, False) and e.name != "known":
            q = tm.subterms(e.val)
            if any(x in q for x in sa) and not tm.loads(e.val):
                cs[e.val, e.x] = 1
    cs = list(cs)
    ts, gs = sm.generic([irg.args[1], st.val, off(st.loc)] + [c for c, _ in cs], slot, M)
    return ts[0], ts[1], ts[2], gs, tuple(zip(ts[3:], (x for _, x in cs)))


def tag_places(v, slot, M, irg, st):
    """(slots this path may be taken for, where the tag of each is recorded), or ("R", what is wrong)"""
    memo = v.cx.__dict__.setdefault("_tags", {})
    mask, val, idx, gs, cs = tag_terms(v, slot, M, irg, st)
    r = next((y for y in tm.subterms(val) if y.op == "ret"), None)
    if r is None:
        return "R", "the value recorded does not depend on the new tag"
    g = tm.atom("gtag", 64)
    val = tm.substitute(val, {r: g})
    key = (val, idx, gs, cs, v.N)
    if key not in memo:
        memo[key] = tag_places_(val, idx, gs, g, cs, v.N)
    return memo[key]


def tag_places_(val, idx, slot, g, cs, N):
    lo = tm.signed(parts(slot)[0], slot.w)
    pos = {}
    at = {}
    for s in range(N):
        if lo > s and all(tm.signed(q, slot.w) > 0 for q in parts(slot)[1].values()):
            continue        # excluded by the branches of this path
        a = sm.slot_atoms(slot, s)
        if a is None:
            return "R", "cannot evaluate slot %d" % s
        a = {x: c.a[0] for x, c in a.items()}

        def ev(t, tags, tag=0, a=a):
            def f(x):
                if x in a:
                    return a[x]
                if x is g:
                    return ADDR | tag << 56
                if x.op == "ld" and x.a[1] == "arm_mte_tags":
                    i = x.a[3] + (tm.value(x.a[4], f) if x.a[4] is not None else 0)
                    return tags(i)
                return None
            return tm.value(t, f)
        if any(q is not None and bool(q) != x for q, x in ((ev(c, lambda i: 0), x) for c, x in cs)):
            continue
        at[s] = a
        b = ev(idx, lambda i: 0)
        one = ev(val, lambda i: 0, 0xf)
        if b is None or one is None:
            return "R", "cannot evaluate the record of slot %d" % s
        one &= 0xff
        if one not in (0xf, 0xf0):
            return "R", "tag 15 of slot %d is recorded as %#x" % (s, one)
        sh = 0 if one == 0xf else 4
        for old in (0, 0xff, 0xa5):
            for tag in (0, 5, 0xa, 0xf):
                w = ev(val, lambda i, old=old: old, tag)
                if w is None or w & 0xff != (old & ~(0xf << sh) | tag << sh) & 0xff:
                    return "R", "recording tag %d of slot %d over %#x gives %s" % (tag, s, old, w)
        pos[s] = (b, sh)
    return at, pos


def tags_ok(v, slot, M, irg, st, lay):
    """what is wrong with the tags excluded, for the slots this path may be taken for"""
    memo = v.cx.__dict__.setdefault("_tagx", {})
    mask, val, idx, gs, cs = tag_terms(v, slot, M, irg, st)
    at, _ = tag_places(v, slot, M, irg, st)
    key = (mask, gs, tuple(sorted(at)), tuple(sorted(lay.items())), v.N)
    if key not in memo:
        memo[key] = tags_ok_(mask, at, lay, v.N)
    return memo[key]


def tags_ok_(mask, at, pos, N):
    for s in sorted(at):
        a = at[s]
        for pat in ((3, 7, 12), (15, 1, 8), (9, 9, 9), (2, 14, 5), (6, 10, 13), (4, 11, 2)):
            cell = {}
            want = {0}
            for q, t in zip((s - 1, s, s + 1), pat):
                if q in pos:
                    b, sh = pos[q]
                    cell[b] = cell.get(b, 0) | t << sh
                    want.add(t)
            def f(x):
                if x in a:
                    return a[x]
                if x.op == "ld" and x.a[1] == "arm_mte_tags":
                    i = x.a[3] + (tm.value(x.a[4], f) if x.a[4] is not None else 0)
                    return cell.get(i, 0)
                return None
            m = tm.value(mask, f)
            if m is None:
                return "cannot evaluate the tags excluded for slot %d" % s
            miss = [t for t in want if not m >> t & 1]
            if miss:
                return "slot %d of %d may be given tag %d, which %s" % (
                    s, N, miss[0], "is reserved" if miss[0] == 0 else "it or a neighbour already has")
            if m & 0xffff == 0xffff:
                return "every tag is excluded for slot %d" % s
    return None


PROPS = {
    "C10": dict(
        rule=c10, configs=["default", "light", "mte", "nozero"], thorough=["stats", "android"],
        floor={"canary written on allocation": 500, "canary checked before the block is given up": 500,
               "canary drawn afresh per slab life": 500, "canary lies beyond the request": 500},
        technique="path-sensitive value-flow analysis per size class (must-write, must-check-before)",
        explain="every path of malloc for one size class at a time (and of free, sized free and malloc_usable_size for the block of each class); the addresses, sizes and values written to user memory are compared with the block's end and its slab's canary field; the canary's derivation is evaluated on sample values of the generator",
        decides="for every class: room for the canary beyond the largest request, canary stored at the block's last 8 bytes and not overwritten, drawn from the class's generator with a zero first byte once per slab life, and compared before a block is given up or its size reported; that the 64-bit value itself is unpredictable is C36"),
    "C11": dict(
        rule=c11, configs=["default", "light", "mte", "nozero"], thorough=["plain", "stats", "android"],
        floor={"block zeroed before it leaves the caller's hands": 1000},
        technique="path-sensitive must-precede analysis per size class", explain="every returning path of free and sized free per class: the block's bytes up to the canary are cleared by a fill of constant length at the freed address, a tag-and-clear instruction or a loop shown to cover them, before bookkeeping makes the slot reusable; nothing is written when zeroing is off or the class is the zero class",
        decides='the property for slab blocks on release; large blocks are replaced by fresh mappings (C14)'),
    "C12": dict(
        rule=c12, configs=["default", "mte", "stats"], thorough=["light", "android"],
        floor={"reused slot verified to be zero": 100},
        technique="path-sensitive loop-coverage analysis per size class", explain='every returning path of malloc per class that takes a slot of a used slab: the path may only be taken when every word of the slot up to the canary was read and found zero (straight-line reads, or a loop whose first address, step and exit value cover the slot)',
        decides='the property; slots of slabs whose pages were replaced are exempt, and with tagging on the hardware check replaces it'),
    "C16": dict(
        rule=c16, configs=["default", "mte", "plain"], thorough=["light", "nozero", "stats", "android"],
        floor={"zero bytes have a class of their own": 500, "zero-size slabs stay inaccessible": 50,
               "no access to a zero-size block": 50, "usable size zero": 1, "slab regions start out inaccessible": 1},
        technique="path-sensitive effect analysis of the zero class (must-not-access)", explain='the class whose lock a request takes, computed for every request bracket; protection changes, raw accesses and tag instructions on all paths of class 0 in malloc, free, sized free and the queries; protection of the slab reservation at initialisation',
        decides="the property as stated; realloc's copy length for zero-size blocks is decided under C25"),
    "C20": dict(
        rule=c20, configs=["mte"], thorough=["android"],
        floor={"every slot handed out is tagged": 500, "the tag differs from reserved, previous and neighbouring tags": 500,
               "the new tag is recorded for its slot": 500, "freed slots carry the reserved tag": 50,
               "tags are stripped from pointers passed in": 4, "slab memory is mapped for tagging": 1,
               "slab memory given back stays mapped for tagging": 500},
        technique="path-sensitive value-flow analysis, tag masks evaluated for every slot", explain='every path of malloc and free per class in the tagging configuration: arguments of the tag generator and of the tag-and-clear instruction, the exclusion mask and the recorded tag evaluated for every slot index over sample tag records, tag stripping evaluated on a tagged address, protection flags of the slab reservation and of every mapping that replaces a slab',
        decides="the property at the level of the architecture's instructions; that the assembler loop tags what its operands say is trusted"),
}
