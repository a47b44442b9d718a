"""C21: metadata sealed with a memory protection key."""
from .. import engine as en, term as tm
from ..ctx import GUARDED, ToolError, lds, calls
from . import locks

SEALED, OPEN = "sealed", "accessible"
ONES = 0xffffffff


def is_key(t):
    return t is not None and (t.op == "ld" and t.a[1] == "metadata_pkey" or t.op == "ret" and t.a[0] == "pkey_alloc")


def no_key(p):
    """the path on which the kernel had no key to give: its branches exclude every real key"""
    for e in p.ev:
        if e.k == "branch" and e.x in (True, False):
            keys = [x for x in tm.subterms(e.val) if is_key(x)]
            if len(keys) != 1:
                continue
            r = []
            for k in (1, 15):
                c = tm.substitute(e.val, {keys[0]: tm.const(k, keys[0].w)})
                if c.op == "not" and tm.isconst(c.a[0]):
                    c = tm.const(1 - tm.cval(c.a[0]), 1)
                r.append(bool(tm.cval(c)) == e.x if tm.isconst(c) else True)
            if not any(r):
                return True
    return False


def guarded(cx, p, e):
    """what lockable or bookkeeping state an event touches"""
    if e.k in ("load", "store", "rmw", "memset", "memcpy", "lock", "unlock", "mutexinit"):
        for l in (e.loc, e.x if e.k == "memcpy" else None):
            if isinstance(l, en.Loc) and l.st in GUARDED:
                return "%s of %s.%s" % (e.k, l.st, l.f)
    elif e.k == "call":
        P = p.eng.p
        for a in e.args or []:
            if isinstance(a, tm.T):
                l = p.eng.resolve(a)
                if l.st in GUARDED and e.name in P.fns and e.name not in cx.heavy():
                    return "%s on %s.%s" % (e.name, l.st, l.f)
    return None


class Seal:
    def __init__(self, cx):
        self.cx, self.P = cx, cx.prog()
        self.memo = {}
        self.inits = cx.inits()
        self.done = set()

    def exits(self, fn, st):
        """states in which fn can return when entered in state st"""
        k = (fn, st)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = {st}
        out = set()
        for p in self.cx.run(fn, assume_init=fn not in self.inits):
            if not no_key(p):
                out |= self.path(p, st)
        self.memo[k] = out
        return out

    def path(self, p, st):
        cx = self.cx
        heads = {}
        for e in p.ev:
            if e.k == "call":
                if e.name == "pkey_set":
                    cx.obl("key operations use the metadata key")
                    if not is_key(e.args[0]):
                        cx.fail("key operations use the metadata key", e.ins, "sets the rights of key %r" % e.args[0], p)
                    a = e.args[1]
                    if a.op != "const":
                        cx.fail("key operations use the metadata key", e.ins, "rights %r" % a, p)
                        return set()
                    if a.a[0] not in (0, 1, 3):
                        cx.fail("key operations use the metadata key", e.ins, "leaves the metadata readable (rights %d)" % a.a[0], p)
                    st = OPEN if a.a[0] == 0 else SEALED
                    continue
                if e.name == "pkey_alloc":
                    st = OPEN if e.args[1].op == "const" and e.args[1].a[0] == 0 else SEALED
                    continue
                if e.name in self.P.fns and (e.name in cx.heavy() or e.name in self.inits):
                    r = self.exits(e.name, st)
                    if len(r) > 1:
                        cx.fail("sealed on return", e.ins, "%s can return with the metadata either %s" % (e.name, " or ".join(sorted(r))), p)
                        return set()
                    if r:
                        st = next(iter(r))
                    continue
            w = guarded(cx, p, e)
            if w:
                cx.obl("metadata accessed only while accessible")
                if st != OPEN:
                    cx.fail("metadata accessed only while accessible", e.ins, w + " while the metadata is sealed", p)
            elif e.k == "call" and st == OPEN:
                cx.obl("nothing outside the allocator is called while accessible")
                if e.name == "<indirect>" or e.name not in self.P.fns and e.name not in locks.SAFE and \
                        not e.name.startswith("llvm."):
                    cx.fail("nothing outside the allocator is called while accessible", e.ins,
                            "calls %s while the metadata is accessible" % e.name, p)
            elif e.k == "loop":
                heads.setdefault(e.x, st)
            elif e.k == "backedge":
                cx.obl("loops keep the state")
                if heads.get(e.x, st) != st:
                    cx.fail("loops keep the state", e.ins, "an iteration leaves the metadata %s" % st, p)
        if p.end in ("ret", "resume"):
            return {st}
        return set()


def returns_ready(cx, n, na):
    """does the function return only if the allocator is initialised?"""
    ps = [p for p in cx.run(n, assume_init=False) if p.end in ("ret", "resume")]
    return bool(ps) and all(locks.ready_events(p, cx.inits(), na) is not None for p in ps)


def uses_key_early(cx, n, checked):
    """key operations before the allocator is known to be initialised"""
    P = cx.prog()
    inits = cx.inits()
    na, _ = locks.dims(P)
    for p in cx.run(n, assume_init=False):
        r = locks.ready_events(p, inits, na)
        for e in p.ev:
            if r is not None and e.i > r:
                break
            if e.k == "call" and e.name in checked:
                break
            if e.k == "call" and e.name in ("pkey_set", "pkey_mprotect") or \
                    e.k == "load" and e.loc.st == "ro" and e.loc.f == "metadata_pkey":
                yield e, p
                break


def meta_addr(t):
    """does an address locate bookkeeping?"""
    if lds(t, "size_class", "slab_info") and not lds(t, "size_class", "class_region_start"):
        return True
    return bool(lds(t, "ro", "regions") or lds(t, "region_allocator", "regions")) or t.op == "addr" and t.a[0] in GUARDED


def prot(e):
    """(address, writable, key) of a protection change"""
    if e.name == "pkey_mprotect":
        return e.args[0], e.args[2], e.args[3]
    if e.name == "mprotect":
        return e.args[0], e.args[2], None
    return None


def c21(cx):
    P = cx.prog()
    S = Seal(cx)
    inits = S.inits
    if not inits:
        raise ToolError("no initialisation function found")
    ctors = [c for c in P.d.get("ctors", []) if c not in inits]
    tops = sorted(set(cx.api()) | set(cx.handlers()) | set(ctors))
    for n in tops + inits:
        if n == "free_hook":
            continue
        for p in cx.run(n, assume_init=n not in inits):
            if no_key(p):
                continue
            r = S.path(p, SEALED)
            if p.end in ("ret", "resume"):
                cx.obl("sealed on return")
                if r and r != {SEALED}:
                    cx.fail("sealed on return", p.endins, "%s returns with the metadata accessible" % n, p)
    na, _ = locks.dims(P)
    checked = {n for n in cx.heavy() if returns_ready(cx, n, na)}
    # internal functions that are only ever called by initialised callers need no check of their own
    for n in sorted(set(cx.api()) | set(ctors)) + sorted(checked):
        if n == "free_hook":
            continue
        cx.obl("key not used before it is allocated")
        for e, p in uses_key_early(cx, n, checked):
            cx.fail("key not used before it is allocated", e.ins,
                    "%s on a path where the allocator may not be initialised" % (e.name or "load of the key"), p)
    # which key each page gets
    for n in sorted(set(tops) | set(cx.heavy())) + inits:
        init = n in inits
        for p in cx.run(n, assume_init=not init):
            if init and p.end not in ("ret", "resume"):
                continue
            gone = [e.args[0] for e in p.ev if e.k == "call" and e.name == "munmap"]
            for e in p.ev:
                if e.k != "call":
                    continue
                if e.name == "mmap":
                    if e.args[2].op == "const" and e.args[2].a[0] & 2 and (init or meta_addr(e.args[0])):
                        cx.fail("metadata writable only under the key", e.ins, "maps writable pages without the key", p)
                    continue
                x = prot(e)
                if x is None:
                    continue
                a, pr, key = x
                if pr.op == "const" and not pr.a[0] & 2:
                    continue
                plain = key is None or key.op == "const" and key.a[0] == ONES
                if init:
                    if a.op == "g":
                        continue        # the read-only globals: C06
                    cx.obl("metadata writable only under the key")
                    if plain:
                        m = {x for x in tm.subterms(a) if x.op == "ret" and x.a[0] == "mmap"}
                        if not any(m & set(tm.subterms(g)) for g in gone) and not no_key(p):
                            cx.fail("metadata writable only under the key", e.ins,
                                    "allocator state %r made writable without the metadata key" % a, p)
                    elif not is_key(key):
                        cx.fail("metadata writable only under the key", e.ins, "uses key %r" % key, p)
                elif meta_addr(a):
                    cx.obl("metadata writable only under the key")
                    if not is_key(key):
                        cx.fail("metadata writable only under the key", e.ins, "metadata %r made writable under key %r" % (a, key), p)
                else:
                    cx.obl("user pages never get the key")
                    if not plain:
                        cx.fail("user pages never get the key", e.ins, "user pages %r made writable under key %r" % (a, key), p)
    # the key is what the kernel returned
    for n in inits:
        for p in cx.run(n, assume_init=False):
            al = calls(p, "pkey_alloc")
            if p.end != "ret" or not any(e.k == "store" and e.loc.f == "slab_region_end" for e in p.ev):
                continue
            cx.obl("one key is allocated and recorded")
            st = [e for e in p.ev if e.k == "store" and e.loc.st == "ro" and e.loc.f == "metadata_pkey"]
            if len(al) != 1 or len(st) != 1 or not is_key(st[0].val) or st[0].val not in (al[0].val, tm.trunc(al[0].val, 32)):
                cx.fail("one key is allocated and recorded", p.endins, "%d keys allocated, recorded %r" % (
                    len(al), [s.val for s in st]), p)
    cx.sample("entry points: " + ", ".join(tops))


PROPS = {
    "C21": {"rule": c21, "configs": ["seal", "androidseal"],
            "floor": {"metadata accessed only while accessible": 1000, "sealed on return": 300,
                      "metadata writable only under the key": 10, "user pages never get the key": 3,
                      "nothing outside the allocator is called while accessible": 100,
                      "key not used before it is allocated": 20, "one key is allocated and recorded": 1},
            "explain": "Typestate of the thread's rights on the metadata key along every path (loops summarised) of every "
                       "exported function, fork handler, constructor, internally locking function (summarised per entry "
                       "state) and of initialisation: rights at every access to bookkeeping and at every external call, "
                       "rights at return, and the key passed to every change of page protection."},
}
