"""C19: nothing is kept in, or taken from, the memory of allocations."""
from collections import defaultdict
from .. import engine as en, term as tm
from ..ctx import GUARDED, ToolError
from . import locks

BLOCK, OUT, LOCAL, META = "block", "out", "local", "bookkeeping"
OUTS = {"posix_memalign": {0}}
OUTS.update({"h_" + k: v for k, v in list(OUTS.items())})
MTE = ("mte", "android")
# library calls whose result depends on the memory passed
READERS = {"memcmp", "bcmp", "strlen", "strcmp", "memchr", "rawmemchr", "memmem", "strnlen", "memrchr"}
R_W, R_D, R_U, R_P = ("only zeros, canaries and copies are written to allocations", "user memory only decides whether to abort",
                      "user memory is never used as data", "bookkeeping pointers point to bookkeeping")


def leaves(t):
    """pointer atoms an address is built on"""
    if t.op == "select":
        return leaves(t.a[1]) | leaves(t.a[2])
    if t.op in ("and", "or"):
        return leaves(t.a[0]) | leaves(t.a[1])
    if t.op == "zext":
        return set()
    out = set()
    c, d = tm.parts(t)
    for a, k in d.items():
        if k == 1:
            if a is t:
                out.add(a)
            else:
                out |= leaves(a)
    return out


class Taint:
    def __init__(self, cx):
        self.cx, self.P = cx, cx.prog()
        self.heavy = set(cx.heavy())
        self.roots = locks.roots(cx)
        self.argrole = {}
        self.callsites()

    # -- what pointers point to -----------------------------------------------------------------------
    def field(self, st, f):
        for m in self.P.structs.get(st, {}).get("members", []) or self.P.globals.get(st, {}).get("members", []) or []:
            if m["name"] == f:
                return m["type"]
        return None

    def arg(self, fn, i):
        if (fn, i) in self.argrole:
            return self.argrole[(fn, i)]
        a = self.P.fns[fn]["args"]
        if i >= len(a) or not a[i]["ptr"]:
            return set()
        if a[i]["sret"] or i in OUTS.get(fn, ()):
            return {OUT}
        if fn in self.heavy and fn not in self.cx.api():
            return set()        # until a call site is seen
        return {BLOCK}

    def leaf(self, p, a, phis):
        eng = p.eng
        if a in eng.types and eng.types[a] in GUARDED or a in eng.types and eng.types[a] in self.P.globals:
            return {META}
        if a.op == "g" or a.op == "fn":
            return {META}
        if a.op in ("alloca", "errno"):
            return {LOCAL}
        if a.op == "arg":
            n = a.a[0]
            i = int(n[3:]) if isinstance(n, str) else n
            return self.arg(p.entry, i)
        if a.op == "ld":
            st, f = a.a[0], a.a[1]
            if st is None:
                return {BLOCK} if self.ptrload(p, a) else set()
            ty = self.field(st, f) or ""
            if "*" not in ty and "void" not in ty:
                return set()
            if any("struct " + g in ty for g in GUARDED):
                return {META}
            return {BLOCK}
        if a.op == "ret":
            n = a.a[0]
            if n in ("mmap", "mmap64", "mremap"):
                return {BLOCK}
            if n in self.heavy and self.P.fns[n]["retptr"]:
                return {BLOCK}
            return set()
        if a in phis:
            return phis[a][3]
        return set()

    def ptrload(self, p, a):
        return a.iv is not None and a.iv[1] == 1 << 47

    def roles(self, p, t, phis):
        r = set()
        for a in leaves(t):
            r |= self.leaf(p, a, phis)
        return r

    def loops(self, ps):
        """loop-carried atoms -> (value on entry, values at the ends of iterations, is it a pointer)"""
        ptr = {}
        for b in ps[0].eng.g.blocks.values() if ps else []:
            for i in b:
                if i["op"] == "phi":
                    ptr[i["id"]] = bool(i.get("ptr"))
        backs = defaultdict(list)
        for p in ps:
            for e in p.ev:
                if e.k == "backedge":
                    for i, v in e.val.items():
                        if v not in backs[i]:
                            backs[i].append(v)
        out = {}
        for p in ps:
            for e in p.ev:
                if e.k == "loop" and e.name == "havoc":
                    for i, (ent, atom) in e.val.items():
                        for x in [atom] if atom.op != "lin" else leaves_any(atom):
                            if x not in out or out[x][1] is not backs[i]:
                                out[x] = (ent, backs[i], ptr.get(i, False), set())
        # what loop-carried pointers point to: least fixpoint over entry values and back edges
        work = {a: {v for v in [ent] + bs if isinstance(v, tm.T)} for a, (ent, bs, isptr, r) in out.items() if isptr}
        grow = True
        while grow:
            grow = False
            for a, vs in work.items():
                r = out[a][3]
                n = len(r)
                for v in vs:
                    r |= self.roles(ps[0], v, out)
                grow |= len(r) > n
        return out

    def callsites(self):
        """roles of the arguments of internal functions, from all their call sites"""
        for _ in range(4):
            before = {k: set(v) for k, v in self.argrole.items()}
            for n in self.roots:
                ps = self.cx.run(n)
                phis = self.loops(ps)
                seen = set()
                for p in ps:
                    for e in p.ev:
                        if e.k == "call" and e.name in self.heavy:
                            for i, a in enumerate(e.args or []):
                                if isinstance(a, tm.T) and i < len(self.P.fns[e.name]["args"]) and \
                                        self.P.fns[e.name]["args"][i]["ptr"] and (e.name, i, a) not in seen:
                                    seen.add((e.name, i, a))
                                    if a.op != "const":
                                        self.argrole.setdefault((e.name, i), set()).update(self.roles(p, a, phis) or {BLOCK})
            if before == self.argrole:
                break

    def where(self, p, loc, phis):
        """does a location lie in the memory of allocations?"""
        if not isinstance(loc, en.Loc) or loc.addr is None:
            return False
        if loc.st in ("alloca", "errno"):
            return False
        r = self.roles(p, loc.addr, phis)
        if loc.st in GUARDED or loc.st in self.P.globals:
            return r == {BLOCK}
        return BLOCK in r or not r

    # -- the rules ---------------------------------------------------------------------------------------
    def function(self, fn):
        cx = self.cx
        ps = cx.run(fn)
        if not ps:
            return
        phis = self.loops(ps)
        src = set()             # atoms read from allocations
        for p in ps:
            for e in p.ev:
                if e.k == "load" and isinstance(e.val, tm.T) and e.val.op == "ld" and e.val.a[:2] in (
                        (None, "mem"), e.loc.lab) and self.where(p, e.loc, phis):
                    src.add(e.val)
                    cx.count("loads from allocations")
                elif e.k == "call" and e.name in READERS and isinstance(e.val, tm.T):
                    if any(isinstance(a, tm.T) and BLOCK in self.roles(p, a, phis) for a in e.args):
                        src |= {x for x in tm.subterms(e.val) if x.op == "ret"}
        # through loops
        grow = True
        while grow:
            grow = False
            for a, (ent, backs, isptr, _) in phis.items():
                if a not in src and any(isinstance(v, tm.T) and src & set(tm.subterms(v)) for v in [ent] + backs):
                    src.add(a)
                    grow = True
        dirty = lambda t: isinstance(t, tm.T) and bool(src & set(tm.subterms(t))) if src else False
        # decisions: one side must always abort
        side = defaultdict(lambda: {True: [], False: []})
        for p in ps:
            for e in p.ev:
                if e.k == "branch" and e.x in (True, False) and e.name != "known" and dirty(e.val):
                    side[(en.where_chain(e.ins), e.ins.get("id"))][e.x].append((p, e))
                elif e.k == "branch" and e.x not in (True, False) and dirty(e.val):
                    cx.fail(R_D, e.ins, "several outcomes depend on the contents of an allocation", p)
        for k, s in side.items():
            cx.obl(R_D)
            if not any(all(p.end == "fatal" for p, e in s[x]) for x in (True, False)):
                p, e = (s[True] or s[False])[0]
                c = e.val
                while c.op == "not":
                    c = c.a[0]
                if cx.config in MTE and c.op == "eq" and c.a[0] in src:
                    continue        # with tagging in use canaries are not written: a zero one is not checked
                cx.fail(R_D, e.ins, "the allocator goes on in different ways depending on the contents of an allocation: %s" %
                        tm.show(e.val)[:120], p)
        for p in ps:
            for e in p.ev:
                if e.k == "store" and e.loc is not None and e.loc.st == "slab_metadata" and "canary" in e.loc.f and isinstance(e.val, tm.T):
                    cx.obl(R_W)
                    for a in atoms(e.val):
                        if a.op in ("ld", "arg", "alloca", "g", "fn", "ret") and (self.leaf(p, a, phis) & {META, BLOCK, LOCAL} or
                                                                  a.op == "ld" and a.a[0] in ("slab_metadata", "size_class", "region_metadata")):
                            cx.fail(R_W, e.ins, "canaries are made from %s, and end up in allocations" % tm.show(a)[:120], p)
                            break
            canaries = None
            for e in p.ev:
                if e.k in ("load", "store", "rmw", "memset", "memcpy"):
                    for l in (e.loc, e.x if e.k == "memcpy" else None):
                        if isinstance(l, en.Loc) and l.addr is not None and dirty(l.addr):
                            cx.obl(R_U)
                            cx.fail(R_U, e.ins, "an address is computed from the contents of an allocation: %r" % l, p)
                if e.k in ("store", "rmw", "memset", "memcpy") and self.where(p, e.loc, phis):
                    cx.obl(R_W)
                    if e.k == "memcpy":
                        if not (isinstance(e.x, en.Loc) and self.where(p, e.x, phis)) and not self.written_local(p, e):
                            cx.fail(R_W, e.ins, "copies %r into an allocation" % (e.x,), p)
                        continue
                    v = e.val if not isinstance(e.val, tuple) else None
                    if v is not None and v.op == "const" and v.a[0] == 0:
                        continue
                    if v is not None and v in src:
                        continue        # copied
                    if canaries is None:
                        canaries = self.canaries(p)
                    if v is None or not (v in canaries or v.op == "const" and v.a[0] == 0):
                        cx.fail(R_W, e.ins, "%s of %s into an allocation" % (e.k, tm.show(v)[:120] if v is not None else "?"), p)
                elif e.k in ("store", "rmw", "memset") and e.loc is not None:
                    cx.obl(R_U)
                    if dirty(e.val) and not (e.loc.st == "alloca"):
                        cx.fail(R_U, e.ins, "the contents of an allocation are stored in %r" % e.loc, p)
                    if e.k == "store" and e.loc.st in GUARDED and isinstance(e.val, tm.T) and e.val.op != "const":
                        ty = self.field(e.loc.st, e.loc.f) or ""
                        if any("struct " + g in ty for g in GUARDED) and "*" in ty:
                            cx.obl(R_P)
                            r = self.roles(p, e.val, phis)
                            if BLOCK in r and META not in r:
                                cx.fail(R_P, e.ins, "%s.%s is made to point to %r" % (e.loc.st, e.loc.f, e.val), p)
                elif e.k == "memcpy" and isinstance(e.x, en.Loc) and self.where(p, e.x, phis):
                    cx.obl(R_U)
                    cx.fail(R_U, e.ins, "the contents of an allocation are copied to %r" % e.loc, p)
                elif e.k == "call" and e.name != "fatal_error":
                    for a in e.args or []:
                        if dirty(a):
                            cx.obl(R_U)
                            cx.fail(R_U, e.ins, "the contents of an allocation are passed to %s" % e.name, p)
            if p.end in ("ret", "resume"):
                cx.obl(R_U)
                if dirty(p.ret):
                    cx.fail(R_U, p.endins, "%s returns something computed from the contents of an allocation" % fn, p)

    def written_local(self, p, e):
        return False

    def canaries(self, p):
        """canary values known to the path"""
        out = set()
        for e in p.ev:
            if e.k in ("load", "store") and e.loc is not None and e.loc.st == "slab_metadata" and "canary" in e.loc.f:
                out.add(e.val)
        return out


def atoms(t, seen=None):
    """what a value is computed from (not what the addresses of its loads are computed from)"""
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    if t.op in ("ld", "ret", "arg", "alloca", "g", "fn", "errno"):
        return {t}
    out = set()
    for a in t.a:
        for x in (a if isinstance(a, tuple) else (a,)):
            if isinstance(x, tm.T):
                out |= atoms(x, seen)
            elif isinstance(x, tuple):
                out |= {y for z in x if isinstance(z, tm.T) for y in atoms(z, seen)}
    return out


def leaves_any(t):
    c, d = tm.parts(t)
    return list(d)


def c19(cx):
    T = Taint(cx)
    for n in T.roots:
        T.function(n)
        cx.count("functions analysed")
    # bookkeeping and allocations come from different reservations
    P = cx.prog()
    for n in cx.inits():
        for p in cx.run(n, assume_init=False):
            if p.end != "ret":
                continue
            slab = set()
            for e in p.ev:
                if e.k == "store" and e.loc.st == "ro" and e.loc.f == "slab_region_start":
                    slab |= {x for x in tm.subterms(e.val) if x.op == "ret"}
            for e in p.ev:
                if e.k == "store" and e.loc.st in ("ro",) + tuple(GUARDED) and isinstance(e.val, tm.T):
                    ty = T.field(e.loc.st, e.loc.f) or ""
                    if any("struct " + g in ty for g in GUARDED) and "*" in ty and e.val.op != "const":
                        cx.obl(R_P)
                        if slab & leaves(e.val):
                            cx.fail(R_P, e.ins, "%s.%s lies in the reservation of the slabs" % (e.loc.st, e.loc.f), p)
    cx.sample({k: sorted(v) for k, v in T.argrole.items()})


PROPS = {
    "C19": {"rule": c19, "configs": ["default", "light", "plain", "stats", "nozero", "android"],
            "thorough": ["seal", "mte", "label", "bigq"],
            "floor": {R_W: 40, R_D: 10, R_U: 1000, R_P: 40},
            "explain": "Points-to and information-flow analysis over every path (loops summarised, flow through loop-carried "
                       "values by iteration) of every exported and internally locking function: pointers are classified by "
                       "what they are built on (allocation, bookkeeping, local, out parameter; arguments of internal functions "
                       "from all call sites); every store into an allocation must be zero, a canary or a copy; whatever "
                       "is loaded from one must not reach an address, a store, a call or a result, and a branch on it must "
                       "abort on one side."},
}
