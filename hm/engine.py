"""Path-partitioned abstract interpretation of one function of the inlined program.

Every feasible acyclic path (loops collapsed, see `Loops`) from the entry is walked once over the value
terms of term.py; what it does to memory, locks, the kernel, the generator and errno is recorded as a
list of events that the rules inspect.  Branches whose condition is decided by the facts of the path
(identical conditions, intervals) are pruned; everything else is explored.  No path is executed and none
is handed to a solver.
"""
import re
from . import term as tm
from .term import const, parts, lin, add, sub, eq0, eq, not_, TRUE, FALSE
from .frontend import ToolError


class Loc:
    """abstract location: a field of a struct object, or raw memory"""
    __slots__ = ("st", "f", "base", "sub", "idx", "addr", "ftype")

    def __init__(s, st, f, base, sub_, idx, addr, ftype=None):
        s.st, s.f, s.base, s.sub, s.idx, s.addr, s.ftype = st, f, base, sub_, idx, addr, ftype

    @property
    def lab(s):
        return (s.st, s.f)

    @property
    def key(s):
        return (s.base, s.sub, s.idx)

    def __repr__(s):
        if s.st is None:
            return "*(%r)" % s.addr
        return "%s.%s{%r%s%s}" % (s.st, s.f, s.base, "+%d" % s.sub if s.sub else "",
                                  "[%r]" % s.idx if s.idx is not None else "")


class Ev:
    """kind: load store call lock unlock mutexinit branch loop errno_store errno_load rmw ret end"""
    __slots__ = ("k", "ins", "loc", "val", "args", "name", "w", "x", "i", "nf", "pts")

    def __init__(s, k, ins, loc=None, val=None, args=None, name=None, w=0, x=None):
        s.k, s.ins, s.loc, s.val, s.args, s.name, s.w, s.x = k, ins, loc, val, args, name, w, x
        s.pts = None

    def __repr__(s):
        return "%s%s %s%s%s%s" % (s.k, " " + s.name if s.name else "", s.loc if s.loc else "",
                                  " = %r" % s.val if s.val is not None else "",
                                  " %r" % (s.args,) if s.args else "", " @" + where(s.ins) if s.ins else "")


def where(ins):
    l = ins.get("loc") if ins else None
    if not l:
        return "?"
    return "%s:%d" % (l[0][0], l[0][1])


def where_chain(ins):
    l = ins.get("loc") if ins else None
    if not l:
        return "?"
    return " <- ".join("%s:%d (%s)" % (a, b, c) for a, b, c in l)


class Path:
    __slots__ = ("ev", "end", "ret", "facts", "iv", "mem", "endins", "msg", "entry", "eng", "env")

    def __repr__(s):
        return "<path %s ret=%r %d events>" % (s.end, s.ret, len(s.ev))


class St:
    __slots__ = ("env", "mem", "ver", "facts", "iv", "ev", "blk", "prev", "arr", "inloop", "pc")

    def fork(s):
        n = St()
        n.env = dict(s.env)
        n.mem = dict(s.mem)
        n.ver = dict(s.ver)
        n.facts = dict(s.facts)
        n.iv = dict(s.iv)
        n.ev = list(s.ev)
        n.blk, n.prev = s.blk, s.prev
        n.arr = dict(s.arr)
        n.inloop = s.inloop
        n.pc = s.pc
        return n


LOCKFN = {"pthread_mutex_lock": "lock", "pthread_mutex_unlock": "unlock", "pthread_mutex_init": "mutexinit"}
ERRNO_SETTERS = {"mmap", "mmap64", "munmap", "mprotect", "pkey_mprotect", "madvise", "mremap", "prctl", "getrandom",
                 "write", "sysconf", "pkey_alloc", "pkey_set", "fprintf", "fputs", "syscall"}
MEMSYS = {"mmap", "mmap64", "munmap", "madvise", "mremap"}
NORET = {"abort", "fatal_error", "_exit", "exit", "_Exit", "__assert_fail", "__builtin_trap", "llvm.trap"}


class Program:
    """the loaded IR plus derived static facts"""

    def __init__(self, d):
        self.d = d
        self.config = d.get("config")
        self.fns = d["functions"]
        self.finfo = d["finfo"]
        self.structs = d["structs"]
        self.lls = d["llstructs"]
        self.globals = {g["name"]: g for g in d["globals"]}
        self.aliases = {a["name"]: a["target"] for a in d["aliases"]}
        self.tables = {}
        self.cfg = {}
        for g in d["globals"]:
            if g.get("const") and "init" in g and g["init"][0] in ("agg", "zero"):
                v = self._flat(g["init"], g)
                if v:
                    self.tables[g["name"]] = v
        self.by_di = {}
        for n, f in self.fns.items():
            self.by_di.setdefault(f.get("diname"), n)
        self.immutable = None

    def _flat(self, init, g):
        if init[0] == "agg" and all(e[0] == "c" for e in init[1]):
            return (g.get("elt", 0), tuple(int(e[1]) for e in init[1]))
        return None

    def fn(self, name):
        if name in self.fns:
            return name
        if name in self.aliases and self.aliases[name] in self.fns:
            return self.aliases[name]
        if "h_" + name in self.fns:
            return "h_" + name
        raise ToolError("no function %s in the library (configuration %s)" % (name, self.config))

    def has(self, name):
        return name in self.fns or self.aliases.get(name) in self.fns or "h_" + name in self.fns

    def field_at(self, st, off):
        """(struct, member, offset of member, type) of the innermost named struct at offset"""
        s = self.structs.get(st)
        if s is None:
            return None
        for m in s["members"]:
            if m["off"] <= off < m["off"] + max(1, m["size"]):
                r = re.match(r"struct (\w+)((\[\])*)$", m["type"])
                if r and r.group(1) in self.structs and r.group(1) not in ("mutex", "random_state") \
                        and not r.group(1).startswith("libdivide"):
                    es = self.structs[r.group(1)]["size"]
                    return ("nest", r.group(1), m["off"], es, m["size"])
                return ("field", st, m["name"], m["off"], m["type"])
        return None

    def slab_end_load(self, i):
        return i["op"] == "load" and i.get("atomic") and i["ops"][0][0] == "g" and self.is_ro_field(i["ops"][0], "slab_region_end")

    def is_ro_field(self, op, name):
        g = self.globals.get(op[1])
        if not g:
            return False
        for m in g.get("members", []):
            if m["name"] == name and m["off"] == op[2]:
                return True
        return False

    # -- what is written after initialisation -----------------------------------------------------
    def reachable_after_init(self, name):
        """blocks of a function reachable when slab_region_end is known to be non-null"""
        g = self.graph(name)
        val = {}

        def ev(o, d=0):
            if o[0] == "c":
                return int(o[1])
            if o[0] != "v" or d > 20:
                return None
            if o[1] in val:
                return val[o[1]]
            i = g.defs.get(o[1])
            r = None
            if i is None:
                return None
            if self.slab_end_load(i):
                r = "nn"
            elif i["op"] in ("zext", "sext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr"):
                r = ev(i["ops"][0], d + 1)
            elif i["op"] == "icmp":
                a, b = ev(i["ops"][0], d + 1), ev(i["ops"][1], d + 1)
                if {a, b} == {"nn", 0} or {a, b} == {0, 1}:
                    r = {"eq": 0, "ne": 1}.get(i["pred"])
                elif a is not None and a == b and a != "nn":
                    r = {"eq": 1, "ne": 0}.get(i["pred"])
            elif i["op"] == "xor":
                a, b = ev(i["ops"][0], d + 1), ev(i["ops"][1], d + 1)
                if isinstance(a, int) and isinstance(b, int):
                    r = (a ^ b) & 1
            elif i["op"] == "call" and i.get("callee", "").startswith("llvm.expect"):
                r = ev(i["ops"][0], d + 1)
            elif i["op"] == "phi":
                q = {ev(o2, d + 3) for _, o2 in i["inc"]}
                r = q.pop() if len(q) == 1 else None
            val[o[1]] = r
            return r
        seen, st = {g.f["entry"]}, [g.f["entry"]]
        while st:
            b = st.pop()
            t = g.blocks[b][-1]
            nx = g.succ[b]
            if t["op"] == "br" and "cond" in t:
                v = ev(t["cond"])
                if v in (0, 1):
                    nx = [t["succ"][0 if v else 1]]
            for x in nx:
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        return g, seen

    def first_members(self):
        r = set()
        for st in ("size_class", "region_allocator", "slab_metadata", "region_metadata", "quarantine_info"):
            ms = self.structs.get(st, {}).get("members", [])
            if ms:
                r.add((st, ms[0]["name"]))
        return r

    def compute_immutable(self):
        """(struct, field) labels never stored once initialisation is complete"""
        stored = set()
        live, work = set(), [n for n, i in self.finfo.items() if n in self.fns and
                             (i.get("default_vis") or i.get("addr_taken"))]
        work += [n for n in self.d.get("ctors", [])]
        self.writers = {}
        while work:
            n = work.pop()
            if n in live or n not in self.fns:
                continue
            live.add(n)
            g, blocks = self.reachable_after_init(n)
            e = Engine(self, n)
            labs, everything, raw = e.loop_stores(blocks)
            for l in labs:
                self.writers.setdefault(l, set()).add(n)
            stored |= labs
            for b in blocks:
                for i in g.blocks[b]:
                    if i["op"] in ("call", "invoke"):
                        work.append(i["callee"])
                    for o in i.get("ops", []):
                        if o[0] == "fn":
                            work.append(o[1])
        self.post_init = live
        allf = set()
        for st in ("size_class", "region_allocator", "slab_metadata", "region_metadata"):
            for m in self.structs.get(st, {}).get("members", []):
                allf.add((st, m["name"]))
        for g in self.d["globals"]:
            for m in g.get("members", []):
                allf.add((g["name"], m["name"]))
        self.stored = stored
        # a store through a bare pointer may be to the first member of a structure (no address
        # computation is left in the IR for offset 0)
        self.immutable = allf - stored - self.first_members()
        return self.immutable

    # -- CFG ------------------------------------------------------------------------------------
    def graph(self, name):
        if name not in self.cfg:
            self.cfg[name] = Graph(self.fns[name])
        return self.cfg[name]


class Graph:
    def __init__(self, f):
        self.f = f
        self.blocks = {b["id"]: b["ins"] for b in f["blocks"]}
        self.defs = {}
        self.blk_of = {}
        self.succ = {}
        for b, ins in self.blocks.items():
            for i in ins:
                self.defs[i["id"]] = i
                self.blk_of[i["id"]] = b
            self.succ[b] = self.term_succ(ins[-1])
        # reverse post-order, dominators
        order, seen = [], set()
        st = [(f["entry"], iter(self.succ[f["entry"]]))]
        seen.add(f["entry"])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        num = {b: i for i, b in enumerate(self.rpo)}
        self.num = num
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        idom = {f["entry"]: f["entry"]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])
                elif num[s] <= num[b]:
                    raise ToolError("irreducible control flow in %s" % f.get("diname"))
        self.innermost = {}
        for h, body in sorted(self.loops.items(), key=lambda kv: -len(kv[1])):
            for b in body:
                self.innermost[b] = h

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    @staticmethod
    def term_succ(t):
        if t["op"] == "br":
            return list(dict.fromkeys(t["succ"]))
        if t["op"] == "switch":
            return list(dict.fromkeys([t["default"]] + [c[1] for c in t["cases"]]))
        if t["op"] == "invoke":
            return [t["normal"], t["unwind"]]
        return []


class Engine:
    def __init__(self, prog, fname, assume_init=True, loops="auto", args=None, max_paths=20000, hook=None,
                 typed_args=None, facts=None, unroll=False, opaque_load=None, retvals=None, spin=None, private=False, fixed=None):
        self.p = prog
        self.private = private      # also report stores to local variables
        self.name = prog.fn(fname)
        self.f = prog.fns[self.name]
        self.g = prog.graph(self.name)
        self.assume_init = assume_init
        self.unroll = unroll
        self.max_paths = max_paths
        self.types = {}
        self.uid = 0
        self.hook = hook
        self.argiv = args or {}
        self.fixed = fixed or {}      # arguments with a known value
        self.typed_args = typed_args or {}
        self.init_facts = facts
        self.rescache = {}
        self.steps = 0
        self.loopmode = loops
        self.retvals = retvals
        self.spin = spin
        self.symn = {}
        self.retcount = 0
        self.immutable = prog.immutable if (assume_init and prog.immutable) else set()

    # -- naming ---------------------------------------------------------------------------------
    def nid(self):
        self.uid += 1
        return self.uid

    # -- intervals with path facts ----------------------------------------------------------------
    def iv(self, st, t):
        if t.op == "const":
            return (t.a[0], t.a[0])
        m = st.iv
        r = m.get(t)
        op = t.op
        if op == "lin":
            q = tm.iv_lin(t, lambda x: self.iv(st, x)) or (0, (1 << t.w) - 1)
        elif op == "shr":
            l, h = self.iv(st, t.a[0])
            q = (l >> t.a[1], h >> t.a[1])
        elif op == "udiv" and t.a[1].op == "const":
            l, h = self.iv(st, t.a[0])
            c = t.a[1].a[0]
            q = (l // c, h // c)
        elif op == "zext":
            q = self.iv(st, t.a[0])
        elif op == "trunc":
            q = self.iv(st, t.a[0])
            if q[1] >> t.w:
                q = t.iv
        elif op == "clz":
            l, h = self.iv(st, t.a[0])
            q = (t.w - h.bit_length(), t.w - l.bit_length())
        elif op == "tab":
            l, h = self.iv(st, t.a[1])
            vs = t.a[2]
            v = vs[l:h + 1] if l < len(vs) else ()
            q = (min(v), max(v)) if v else t.iv
        elif op == "shl":
            xl, xh = self.iv(st, t.a[0])
            nl, nh = self.iv(st, t.a[1])
            q = (xl << nl, xh << nh) if nh < t.w and (xh << nh) < (1 << t.w) else t.iv
        elif op == "lshr":
            xl, xh = self.iv(st, t.a[0])
            nl, nh = self.iv(st, t.a[1])
            q = (xl >> min(nh, t.w), xh >> min(nl, t.w))
        elif op == "mul":
            a, b = self.iv(st, t.a[0]), self.iv(st, t.a[1])
            q = (a[0] * b[0], a[1] * b[1]) if a[1] * b[1] < (1 << t.w) else t.iv
        elif op == "and":
            q = (0, min(self.iv(st, t.a[0])[1], self.iv(st, t.a[1])[1]))
        elif op == "select":
            a, b = self.iv(st, t.a[1]), self.iv(st, t.a[2])
            q = (min(a[0], b[0]), max(a[1], b[1]))
        else:
            q = t.iv
        if r is None:
            return q
        return (max(r[0], q[0]), min(r[1], q[1]))

    def fold(self, st, t):
        """replace a term by a constant when the facts of the path fix its value"""
        if t.op == "const":
            return t
        l, h = self.iv(st, t)
        if l == h:
            return const(l, t.w)
        return t

    def truth(self, st, b):
        """value of a condition under the facts, or None"""
        if b.op == "const":
            return bool(b.a[0])
        if b.op == "not":
            v = self.truth(st, b.a[0])
            return None if v is None else not v
        v = st.facts.get(b)
        if v is not None:
            return v
        if b.op == "eq":
            l, h = self.iv(st, b.a[0])
            if l > 0:
                return False
            if l == h == 0:
                return True
            # equal difference of two terms with disjoint intervals
            c, d = parts(b.a[0])
            if b.a[0].w == 64 and self.nonnull(d):
                return False
            if len(d) == 2:
                (x, kx), (y, ky) = d.items()
                w = b.a[0].w
                if (kx + ky) & ((1 << w) - 1) == 0 and kx in (1, (1 << w) - 1):
                    xi, yi = self.iv(st, x), self.iv(st, y)
                    s = tm.signed(c, w) if kx == 1 else -tm.signed(c, w)
                    # x - y + s == 0
                    if 0 <= xi[0] + s and xi[1] + s < 1 << w and (xi[1] + s < yi[0] or xi[0] + s > yi[1]):
                        return False
            if len(d) == 1:
                (x, kx), = d.items()
                w = b.a[0].w
                if kx in (1, (1 << w) - 1):
                    val = (-c if kx == 1 else c) & ((1 << w) - 1)
                    l, h = self.iv(st, x)
                    if val < l or val > h:
                        return False
            return None
        if b.op == "ult":
            x, y = b.a
            xl, xh = self.iv(st, x)
            yl, yh = self.iv(st, y)
            if xh < yl:
                return True
            if xl >= yh:
                return False
            if st.facts.get(tm.ult(y, x)):
                return False
            d = sub(y, x)
            if d.op == "const":
                ivf = lambda q: self.iv(st, q)
                ex, ey = tm.exact(x, ivf), tm.exact(y, ivf)
                if ex and ey and ex[1] == ey[1]:
                    return ex[0] < ey[0]
            return None
        if b.op == "slt":
            x, y = b.a
            h = 1 << (x.w - 1)
            xl, xh = self.iv(st, x)
            yl, yh = self.iv(st, y)
            if xh < h and yh < h:
                return True if xh < yl else False if xl >= yh else None
            if xl >= h and yh < h:
                return True
            if yl >= h and xh < h:
                return False
            return None
        if b.op == "and":
            v = [self.truth(st, z) for z in b.a]
            return False if False in v else True if v == [True, True] else None
        if b.op == "or":
            v = [self.truth(st, z) for z in b.a]
            return True if True in v else False if v == [False, False] else None
        return None

    def nonnull(self, d):
        """an address inside an object that a field fixed at initialisation points to"""
        base = None
        for a, k in d.items():
            if a.op == "ld" and a in self.types and k == 1 and (a.a[0], a.a[1]) in self.immutable and base is None:
                base = a
            elif a.op in ("g", "alloca", "arg", "ret", "fn", "sym") or a.op == "ld" and (a in self.types or a.iv[1] == 1 << 47):
                return False
        return base is not None

    def truth_in(self, p, b):
        """value of a condition under everything a finished path knows"""
        st = St()
        st.facts, st.iv = p.facts, p.iv
        return self.truth(st, b)

    def iv_in(self, p, t):
        st = St()
        st.facts, st.iv = p.facts, p.iv
        return self.iv(st, t)

    def narrow(self, st, t, lo, hi):
        l, h = self.iv(st, t)
        l2, h2 = max(l, lo), min(h, hi)
        if l2 > h2:
            return False
        if (l2, h2) != (l, h) or t not in st.iv:
            st.iv[t] = (l2, h2)
            if t.op == "zext":
                return self.narrow(st, t.a[0], l2, min(h2, (1 << t.a[0].w) - 1))
            if t.op == "trunc":
                xl, xh = self.iv(st, t.a[0])
                if xh < 1 << t.w:
                    return self.narrow(st, t.a[0], l2, h2)
            if t.op == "shr":
                k = t.a[1]
                return self.narrow(st, t.a[0], l2 << k, (h2 << k) | ((1 << k) - 1))
            if t.op == "lin":
                c, d = parts(t)
                if len(d) == 1:
                    (x, k), = d.items()
                    ks = tm.signed(k, t.w)
                    cs = tm.signed(c, t.w)
                    xl, xh = self.iv(st, x)
                    if ks > 0 and 0 <= ks * xl + cs and ks * xh + cs < 1 << t.w:
                        return self.narrow(st, x, max(0, -((cs - l2) // ks)), (h2 - cs) // ks)
        return True

    def assume(self, st, b, val):
        if b.op == "const":
            return bool(b.a[0]) == val
        if b.op == "not":
            return self.assume(st, b.a[0], not val)
        tv = self.truth(st, b)
        if tv is not None and tv != val:
            return False
        st.facts[b] = val
        if b.op == "eq":
            d = b.a[0]
            c, it = parts(d)
            if len(it) == 1:
                (x, k), = it.items()
                w = d.w
                m = (1 << w) - 1
                if k in (1, m):
                    v = (-c if k == 1 else c) & m
                    if val:
                        return self.narrow(st, x, v, v)
                    l, h = self.iv(st, x)
                    if l == v:
                        return self.narrow(st, x, v + 1, h)
                    if h == v:
                        return self.narrow(st, x, l, v - 1)
                elif not val and c == 0 and k & 1:
                    l, h = self.iv(st, x)
                    if l == 0:
                        return self.narrow(st, x, 1, h)
            elif val and len(it) == 2:
                # x - y + c == 0: intersect intervals
                (x, kx), (y, ky) = it.items()
                w = d.w
                m = (1 << w) - 1
                if c == 0 and kx == 1 and ky == m or c == 0 and kx == m and ky == 1:
                    xl, xh = self.iv(st, x)
                    if not self.narrow(st, y, xl, xh):
                        return False
                    yl, yh = self.iv(st, y)
                    return self.narrow(st, x, yl, yh)
            if not val:
                l, h = self.iv(st, d)
                if l == 0:
                    return self.narrow(st, d, 1, h) if h else False
        elif b.op == "ult":
            x, y = b.a
            xl, xh = self.iv(st, x)
            yl, yh = self.iv(st, y)
            if val:
                return yh > 0 and self.narrow(st, x, xl, yh - 1) and self.narrow(st, y, xl + 1, yh)
            return self.narrow(st, x, yl, xh) and self.narrow(st, y, yl, xh)
        elif b.op == "slt":
            x, y = b.a
            h = 1 << (x.w - 1)
            xl, xh = self.iv(st, x)
            yl, yh = self.iv(st, y)
            if xh < h and yh < h:
                if val:
                    return yh > 0 and self.narrow(st, x, xl, yh - 1) and self.narrow(st, y, xl + 1, yh)
                return self.narrow(st, x, yl, xh) and self.narrow(st, y, yl, xh)
            if y.op == "const" and y.a[0] < h and not val:
                return self.narrow(st, x, y.a[0], h - 1)
            if y.op == "const" and y.a[0] == 0 and val:
                return self.narrow(st, x, h, 2 * h - 1)
        elif b.op == "and" and val or b.op == "or" and not val:
            return self.assume(st, b.a[0], val) and self.assume(st, b.a[1], val)
        elif b.op == "zext":
            pass
        return True

    # -- locations --------------------------------------------------------------------------------
    def settype(self, a, st):
        if a not in self.types:
            self.types[a] = st
            self.rescache.clear()

    def resolve(self, addr, hint=None):
        r = self.rescache.get(addr)
        if r is None:
            r = self._resolve(addr)
            self.rescache[addr] = r
        return r

    def _resolve(self, addr):
        c, d = parts(addr)
        m64 = (1 << 64) - 1
        for a, k in d.items():
            if k != 1:
                continue
            if a.op == "g":
                g = self.p.globals.get(a.a[0], {})
                rest = {x: kk for x, kk in d.items() if x is not a}
                off = tm.signed(c, 64)
                mem = g.get("members")
                if mem:
                    for mm in mem:
                        if mm["off"] <= off < mm["off"] + max(1, mm["size"]):
                            idx = lin(64, off - mm["off"], rest)
                            return Loc(a.a[0], mm["name"], a, 0, None if idx.op == "const" and idx.a[0] == 0 else idx,
                                       addr, mm["type"])
                idx = lin(64, c, rest)
                return Loc(a.a[0], "", a, 0, None if idx.op == "const" and idx.a[0] == 0 else idx, addr,
                           g.get("ditype"))
            if a.op == "alloca":
                rest = {x: kk for x, kk in d.items() if x is not a}
                idx = lin(64, 0, rest)
                return Loc("alloca", a.a[0], a, tm.signed(c, 64), None if idx.op == "const" else idx, addr)
            if a.op == "errno":
                return Loc("errno", "", a, 0, None, addr)
        cand = [a for a, k in d.items() if k == 1 and a in self.types]
        for a in cand:
            stn = self.types[a]
            r = self._in_struct(stn, addr, a)
            if r:
                return r
        return Loc(None, None, None, 0, None, addr)

    def _in_struct(self, stn, addr, a):
        c, d = parts(addr)
        sz = self.p.structs[stn]["size"]
        off = tm.signed(c, 64)
        elem = off // sz
        rem = off - elem * sz
        inner = {}
        basev = {a: 1}
        for x, k in d.items():
            if x is a:
                continue
            ks = tm.signed(k, 64)
            if ks % sz == 0:
                basev[x] = k
            else:
                inner[x] = k
        # peel nested structs
        base = lin(64, elem * sz, basev)
        cur = stn
        for _ in range(6):
            q = self.p.field_at(cur, rem)
            if q is None:
                return Loc(cur, "?", base, rem, None if not inner else lin(64, 0, inner), addr)
            if q[0] == "field":
                _, s, fn, fo, ty = q
                return Loc(s, fn, base, rem - fo, None if not inner else lin(64, 0, inner), addr, ty)
            _, nst, fo, es, msz = q
            r2 = rem - fo
            e2 = r2 // es
            take = {}
            for x in list(inner):
                ks = tm.signed(inner[x], 64)
                if ks % es == 0 and abs(ks) < msz + es:
                    take[x] = inner.pop(x)
            base = add(base, lin(64, fo + e2 * es, take))
            rem = r2 - e2 * es
            cur = nst
        return None

    def pointee(self, ty):
        if not ty:
            return None
        r = re.match(r"(?:_Atomic )?struct (\w+)\*(\[\])*$", ty)
        if r and r.group(1) in self.p.structs:
            return r.group(1)
        return None

    # -- memory -----------------------------------------------------------------------------------
    def mload(self, st, loc, w, ptr, ins):
        lab = loc.lab
        if loc.st is not None:
            tabs = self.p.tables.get(loc.st)
            if tabs and loc.base.op == "g" and self.p.globals[loc.st].get("const"):
                es, vals = tabs
                if es * 8 == w:
                    if loc.idx is None:
                        return const(vals[0], w)
                    c, d = parts(loc.idx)
                    if all(tm.signed(k, 64) % es == 0 for k in d.values()) and tm.signed(c, 64) % es == 0:
                        i = lin(64, tm.signed(c, 64) // es, {x: tm.signed(k, 64) // es for x, k in d.items()})
                        i = self.fold(st, i)
                        return self.fold(st, tm.tab(loc.st, i, vals, w))
            g = self.p.globals.get(loc.st)
            if g and g.get("const") and "init" in g and g["init"][0] == "c" and loc.idx is None:
                return const(int(g["init"][1]), w)
        mm = st.mem.get(lab)
        key = loc.key if loc.st is not None else loc.addr
        if mm:
            v = mm.get(key)
            if v is not None:
                if v.w == w:
                    return v
                if v.w > w:
                    return tm.trunc(v, w)
                if v.op == "const" and v.a[0] == 0 and v.iv == (0, 0) and (lab, "zeroed") in st.mem:
                    return const(0, w)
        if loc.st is not None:
            zb = st.mem.get((lab, "zeroed"))
            if zb and (loc.base, None) in zb:
                return const(0, w)
            ver = 0 if lab in self.immutable else st.ver.get(lab, st.ver.get("*", 0))
            t = tm.atom("ld", w, loc.st, loc.f, loc.base, loc.sub, loc.idx, ver,
                        iv=(0, 1 << 47) if ptr and w == 64 else None)
            if lab == ("__none",):
                pass
            pt = self.pointee(loc.ftype)
            if pt:
                self.settype(t, pt)
        else:
            ver = st.ver.get(lab, st.ver.get("*", 0))
            t = tm.atom("ld", w, None, "mem", loc.addr, 0, None, ver)
        if self.assume_init and loc.st is not None and loc.f == "slab_region_end":
            st.iv.setdefault(t, (1 << 40, (1 << 47)))
        nm = dict(mm) if mm else {}
        nm[key] = t
        st.mem[lab] = nm
        return t

    def mstore(self, st, loc, v):
        lab = loc.lab
        mm = st.mem.get(lab)
        key = loc.key if loc.st is not None else loc.addr
        nm = {}
        killed = False
        if mm:
            for k, x in mm.items():
                if k == key:
                    continue
                if loc.st is not None:
                    dif = sub(self.keyaddr(k), self.keyaddr(key))
                    if dif.op == "const" and dif.a[0] != 0 or self.truth(st, eq0(dif)) is False:
                        nm[k] = x
                    elif k[0].op == "alloca" and key[0].op == "alloca" and k[0] is not key[0]:
                        nm[k] = x
                    else:
                        killed = True
                else:
                    dif = sub(k, key)
                    if dif.op == "const":
                        nm[k] = x
                    else:
                        killed = True
        if loc.st is None or loc.idx is not None or mm is None or killed or loc.base.op not in ("g", "alloca"):
            st.ver[lab] = self.nid()
        nm[key] = v
        st.mem[lab] = nm
        if loc.st is not None and (lab, "zeroed") in st.mem and loc.idx is not None:
            st.mem.pop((lab, "zeroed"))

    @staticmethod
    def keyaddr(k):
        a = add(k[0], const(k[1], 64))
        return add(a, k[2]) if k[2] is not None else a

    def kill(self, st, pred):
        for lab in list(st.mem):
            l = lab[0] if isinstance(lab[0], tuple) else lab
            if l[0] == "alloca" or l in self.immutable or l[0] == "errno":
                continue
            if pred(l):
                del st.mem[lab]
                st.ver[l] = self.nid()

    def kill_all(self, st):
        self.kill(st, lambda l: True)
        n = self.nid()
        for l in list(st.ver):
            if l == "*" or (l[0] not in ("alloca", "errno") and l not in self.immutable):
                st.ver[l] = n
        st.ver["*"] = n

    # -- operands ---------------------------------------------------------------------------------
    def op(self, st, o):
        k = o[0]
        if k == "v":
            return st.env.get(o[1]) or self.undef(st, o)
        if k == "c":
            return const(int(o[1]), int(o[2]))
        if k == "g":
            a = tm.atom("g", 64, o[1], iv=(4096, 1 << 47))
            return add(a, const(o[2], 64)) if o[2] else a
        if k == "undef":
            return tm.atom("undef", o[1] or 64)
        if k == "agg":
            fl = [self.op(st, x) for x in o[1]]
            return tm.atom("strct", sum(max(t.w, 1) for t in fl), *fl)
        if k == "fn":
            return tm.atom("fn", 64, o[1], iv=(4096, 1 << 47))
        if k == "alias":
            return tm.atom("fn", 64, self.p.aliases.get(o[1], o[1]), iv=(4096, 1 << 47))
        return tm.atom("opaque", 64, str(o)[:80])

    def undef(self, st, o):
        t = tm.fresh("undef", 64)
        st.env[o[1]] = t
        return t

    # -- running ------------------------------------------------------------------------------------
    def run(self):
        st = St()
        st.env, st.mem, st.ver, st.facts, st.iv, st.ev = {}, {}, {}, {}, {}, []
        st.arr, st.inloop, st.pc = {}, None, 0
        for n, a in enumerate(self.f["args"]):
            iv = self.argiv.get(n)
            t = tm.atom("arg", a["w"], "arg%d" % n)
            st.env[a["id"]] = const(self.fixed[n], a["w"]) if n in self.fixed else t
            if iv:
                st.iv[t] = iv
            if n in self.typed_args:
                self.settype(t, self.typed_args[n])
        if self.init_facts:
            self.init_facts(self, st)
        st.blk, st.prev = self.f["entry"], None
        self.paths = []
        work = [st]
        while work:
            s = work.pop()
            self.walk(s, work)
            if len(self.paths) > self.max_paths:
                raise ToolError("%s: more than %d paths" % (self.name, self.max_paths))
        return self.paths

    def finish(self, st, end, ins, ret=None, msg=None):
        p = Path()
        p.ev, p.end, p.ret, p.facts, p.iv, p.mem, p.endins, p.msg = st.ev, end, ret, st.facts, st.iv, st.mem, ins, msg
        p.entry = self.name
        p.eng = self
        p.env = st.env
        for i, e in enumerate(st.ev):
            e.i = i
        if self.hook:
            self.hook(p)
        else:
            self.paths.append(p)

    def mode(self, h):
        if self.unroll or self.loopmode == "unroll":
            return "unroll"
        if callable(self.loopmode):
            return self.loopmode(self, h)
        if self.loopmode == "simple":
            return "simple"
        body = self.g.loops[h]
        m = self._modecache.get(h) if hasattr(self, "_modecache") else None
        if m:
            return m
        if not hasattr(self, "_modecache"):
            self._modecache = {}
        m = "precise"
        for b in body:
            if b != h and b in self.g.loops:
                m = "simple"
            for i in self.g.blocks[b]:
                if i["op"] == "call" and (i.get("callee") in LOCKFN or i.get("callee") in MEMSYS):
                    m = "simple"
        self._modecache[h] = m
        return m

    def goto(self, st, target, work):
        """enter block `target` from st.blk; returns False when the path ends here"""
        g = self.g
        src = st.blk
        # leaving loops resets their arrival counts
        if st.arr:
            for h in list(st.arr):
                if target not in g.loops[h]:
                    del st.arr[h]
        ins = g.blocks[target]
        phis = []
        for i in ins:
            if i["op"] != "phi":
                break
            for b, o in i["inc"]:
                if b == src:
                    phis.append((i, self.op(st, o)))
                    break
        if target in g.loops:
            body = g.loops[target]
            back = src in body
            mode = self.mode(target)
            n = st.arr.get(target, 0)
            if mode == "unroll":
                st.arr[target] = n + 1
                if self.spin and n >= self.spin:
                    self.finish(st, "spin", g.blocks[src][-1], ret=target)
                    return False
                if n > 300000:
                    raise ToolError("loop not bounded by constants in %s" % self.name)
            else:
                if back and (mode == "simple" or n >= 3):
                    e = Ev("backedge", g.blocks[src][-1], val={i["id"]: v for i, v in phis}, x=target)
                    st.ev.append(e)
                    self.finish(st, "backedge", g.blocks[src][-1], ret=target)
                    return False
                if not back:
                    st.arr[target] = 1
                    n = 1
                else:
                    n += 1
                    st.arr[target] = n
                if mode == "simple" or n == 2:
                    entryvals = {i["id"]: v for i, v in phis}
                    phis = [(i, self.havoc_phi(st, target, i, v)) for i, v in phis]
                    self.havoc_mem(st, body)
                    st.ev.append(Ev("loop", ins[0], name="havoc", x=target,
                                    val={i["id"]: (entryvals[i["id"]], v) for i, v in phis}))
                else:
                    st.ev.append(Ev("loop", ins[0], name="arrive%d" % n, x=target, val={i["id"]: v for i, v in phis}))
        for i, v in phis:
            st.env[i["id"]] = v
        st.prev, st.blk = src, target
        return True

    def havoc_phi(self, st, h, i, v):
        # lower bound: non-decreasing counters
        t = tm.fresh("phi%d" % i["id"], i["w"])
        c = self.counter(h, i)
        if c and v.op == "const":
            step = c
            st.iv[t] = (v.a[0], (1 << i["w"]) - 1)
            if step > 1 and v.a[0] % step == 0:
                q = tm.fresh("it", i["w"], iv=(0, (1 << i["w"]) // step - 1))
                t2 = tm.mulc(q, step)
                return t2
        elif i.get("ptr"):
            # a pointer advanced by a constant stride stays within the object it starts in
            step = self.stride(h, i)
            if step:
                return add(v, tm.mulc(tm.fresh("it", i["w"], iv=(0, (1 << 47) // step)), step))
        if v in self.types:
            self.settype(t, self.types[v])
        else:
            # pointer phi: use the type of the base of the incoming value
            for a in parts(v)[1]:
                if a in self.types and i.get("ptr"):
                    r = self.resolve(v)
                    if r.st == self.types[a] and r.sub == 0 and r.base is v:
                        self.settype(t, self.types[a])
        return t

    def stride(self, h, i):
        """constant positive number of bytes by which a loop-header pointer advances on every back edge, else None"""
        step = None
        for b, o in i["inc"]:
            if b in self.g.loops[h]:
                d = self.g.defs.get(o[1]) if o[0] == "v" else None
                if not d or d["op"] != "getelementptr" or d["base"] != ["v", i["id"]] or d["vars"] or d["off"] <= 0:
                    return None
                if step not in (None, d["off"]):
                    return None
                step = d["off"]
        return step

    def counter(self, h, i):
        """constant positive step of a loop-header phi (i = i + step on every back edge), else None"""
        step = None
        for b, o in i["inc"]:
            if b in self.g.loops[h]:
                if o[0] != "v":
                    return None
                d = self.g.defs.get(o[1])
                if not d or d["op"] != "add" or d["ops"][0] != ["v", i["id"]] or d["ops"][1][0] != "c":
                    return None
                s = int(d["ops"][1][1])
                if s >= 1 << (i["w"] - 1) or step not in (None, s):
                    return None
                step = s
        return step

    def havoc_mem(self, st, body):
        labs, everything, raw = self.loop_stores(body)
        if everything:
            self.kill_all(st)
        if (None, None) in labs:
            labs = labs | self.p.first_members()
        for l in labs:
            if l in self.immutable:
                continue
            if l in st.mem:
                del st.mem[l]
            st.ver[l] = self.nid()
        for al in raw:
            self.kill_alloca(st, al)

    def kill_alloca(self, st, al):
        for lab in list(st.mem):
            if lab[0] == "alloca" and lab[1] == al:
                del st.mem[lab]
                st.ver[lab] = self.nid()

    def loop_stores(self, body):
        key = min(body), len(body), max(body)
        c = self.__dict__.setdefault("_ls", {})
        if key in c:
            return c[key]
        labs, everything, raw = set(), False, set()
        for b in body:
            for i in self.g.blocks[b]:
                if i["op"] == "store" or i["op"] == "atomicrmw" or i["op"] == "cmpxchg":
                    o = i["ops"][1] if i["op"] == "store" else i["ops"][0]
                    l = self.static_label(o)
                    if l is None:
                        labs.add((None, None))
                    elif l[0] == "alloca":
                        raw.add(l[1])
                    else:
                        labs.add(l)
                elif i["op"] in ("call", "invoke"):
                    cal = i["callee"]
                    if cal in LOCKFN or cal in MEMSYS or cal == "<indirect>":
                        everything = True
                    for o in i["ops"]:
                        l = self.static_label(o)
                        if l and l[0] == "alloca":
                            raw.add(l[1])
                        elif l and not cal.startswith("llvm.dbg"):
                            labs.add(l)
                    if cal.startswith(("llvm.mem", "memset", "memcpy", "memmove")):
                        l = self.static_label(i["ops"][0])
                        if l is None:
                            labs.add((None, None))
                        st_ = self.static_struct(i["ops"][0])
                        if st_:
                            for m in self.p.structs[st_]["members"]:
                                labs.add((st_, m["name"]))
        c[key] = (labs, everything, raw)
        return c[key]

    def static_struct(self, o):
        if o[0] != "v":
            return None
        d = self.g.defs.get(o[1])
        if d and d["op"] == "getelementptr":
            m = re.match(r"%(?:struct|union)\.(\w+?)(?:\.\d+)?$", d["srcty"])
            if m and m.group(1) in self.p.structs and not [s for s in d["steps"] if s[0] == "f"]:
                return m.group(1)
        return None

    def static_label(self, o, depth=0):
        """(struct, field) addressed by an SSA pointer operand, from its GEP chain"""
        if depth > 12:
            return None
        here = not depth
        if o[0] == "g":
            g = self.p.globals.get(o[1], {})
            for mm in g.get("members", []):
                if mm["off"] <= o[2] < mm["off"] + max(1, mm["size"]):
                    return (o[1], mm["name"])
            return (o[1], "")
        if o[0] != "v":
            return None
        d = self.g.defs.get(o[1])
        if d is None:
            return None
        if d["op"] == "alloca":
            return ("alloca", d["id"])
        if d["op"] == "call" and d.get("callee", "").startswith("llvm.threadlocal"):
            return self.static_label(d["ops"][0], depth + 1)
        if d["op"] == "call" and d.get("callee") == "__errno_location":
            return ("errno", "")
        if d["op"] == "getelementptr":
            m = re.match(r"%(?:struct|union)\.(\w+?)(?:\.\d+)?$", d["srcty"])
            if m and m.group(1) in self.p.structs and any(s[0] == "f" for s in d["steps"]):
                q = self.p.field_at(m.group(1), d["off"] if d["off"] >= 0 else 0)
                n = 0
                off = d["off"]
                while q and q[0] == "nest" and n < 5:
                    off = (off - q[2]) % q[3]
                    q = self.p.field_at(q[1], off)
                    n += 1
                if q and q[0] == "field":
                    return (q[1], q[2])
            b = self.static_label(d["base"], depth + 1)
            if b is None and here and m and m.group(1) in self.p.structs and \
                    not d["off"] % max(1, self.p.structs[m.group(1)]["size"]):
                # pointer to an element of an array of structures: its first member
                q = self.p.field_at(m.group(1), 0)
                while q and q[0] == "nest" and depth < 12:
                    q = self.p.field_at(q[1], 0)
                    depth += 1
                if q and q[0] == "field":
                    return (q[1], q[2])
            return b
        if d["op"] in ("bitcast", "freeze"):
            return self.static_label(d["ops"][0], depth + 1)
        if d["op"] == "phi":
            r = {self.static_label(x, depth + 4) for _, x in d["inc"]}
            if len(r) == 1:
                return r.pop()
        return None

    def walk(self, st, work):
        while True:
            ins = self.g.blocks[st.blk]
            n = len(ins)
            i = st.pc
            st.pc = 0
            while i < n:
                x = ins[i]
                i += 1
                op = x["op"]
                if op == "phi":
                    continue
                self.steps += 1
                h = getattr(self, "i_" + op, None)
                if h is None:
                    if op in ("br", "switch", "ret", "unreachable", "invoke", "resume"):
                        break
                    st.env[x["id"]] = tm.fresh(op, x["w"] or 64)
                    continue
                r = h(st, x)
                if r == "end":
                    return
                if isinstance(r, tuple) and r[0] == "fork":
                    # re-execute this instruction in both states
                    other = st.fork()
                    okA = self.assume(st, r[1], True)
                    okB = self.assume(other, r[1], False)
                    other.pc = i - 1
                    if okB:
                        other.ev.append(Ev("branch", x, val=r[1], x=False))
                        work.append(other)
                    if not okA:
                        return
                    st.ev.append(Ev("branch", x, val=r[1], x=True))
                    i -= 1
            x = ins[-1]
            op = x["op"]
            if op == "br":
                if "cond" not in x:
                    if not self.goto(st, x["succ"][0], work):
                        return
                    continue
                c = self.op(st, x["cond"])
                v = self.truth(st, c)
                sc = x["succ"]
                if sc[0] == sc[1]:
                    v = True
                hdr = st.blk
                # in the generic warm-up iteration loop exits are not taken (see Loops)
                inn = self.g.innermost.get(st.blk)
                suppress = None
                if inn is not None and st.arr.get(inn) == 2 and self.mode(inn) == "precise":
                    suppress = self.g.loops[inn]
                if v is not None:
                    st.ev.append(Ev("branch", x, val=c, x=v, name="known"))
                    t = sc[0] if v else sc[1]
                    if suppress is not None and t not in suppress:
                        return
                    if not self.goto(st, t, work):
                        return
                    continue
                other = st.fork()
                okB = self.assume(other, c, False)
                if suppress is not None and sc[1] not in suppress:
                    okB = False
                if okB:
                    other.ev.append(Ev("branch", x, val=c, x=False))
                    if self.goto(other, sc[1], work):
                        work.append(other)
                if not self.assume(st, c, True) or (suppress is not None and sc[0] not in suppress):
                    return
                st.ev.append(Ev("branch", x, val=c, x=True))
                if not self.goto(st, sc[0], work):
                    return
                continue
            if op == "switch":
                c = self.op(st, x["cond"])
                rest = st.fork()
                ok = True
                for cv, tgt in x["cases"]:
                    q = eq(c, const(int(cv), c.w))
                    s2 = rest.fork()
                    if self.assume(s2, q, True):
                        s2.ev.append(Ev("branch", x, val=q, x=True))
                        if self.goto(s2, tgt, work):
                            work.append(s2)
                    if not self.assume(rest, q, False):
                        ok = False
                        break
                if not ok:
                    return
                rest.ev.append(Ev("branch", x, val=c, x="default"))
                st = rest
                if not self.goto(st, x["default"], work):
                    return
                continue
            if op == "ret":
                v = self.op(st, x["ops"][0]) if x["ops"] else None
                st.ev.append(Ev("ret", x, val=v))
                self.finish(st, "ret", x, ret=v)
                return
            if op == "invoke":
                r = self.i_call(st, x)
                if r == "end":
                    return
                other = st.fork()
                other.ev.append(Ev("unwind", x, name=x["callee"]))
                if self.goto(other, x["unwind"], work):
                    work.append(other)
                if not self.goto(st, x["normal"], work):
                    return
                continue
            if op == "resume":
                self.finish(st, "resume", x)
                return
            self.finish(st, "unreachable", x)
            return

    # -- instructions ---------------------------------------------------------------------------------
    def i_alloca(self, st, x):
        t = tm.atom("alloca", 64, x["id"], iv=(4096, 1 << 47))
        st.env[x["id"]] = t
        m = re.match(r"%(?:struct|union)\.(\w+?)(?:\.\d+)?$", x["aty"])

    def i_load(self, st, x):
        a = self.op(st, x["ops"][0])
        loc = self.resolve(a)
        if loc.st is None:
            loc = self.hinted(x["ops"][0], loc)
        if loc.st == "errno":
            v = self.mload(st, loc, x["w"], False, x)
            st.ev.append(Ev("errno_load", x, loc, v))
        else:
            v = self.mload(st, loc, x["w"], x.get("ptr"), x)
            v = self.fold(st, v)
            if loc.st != "alloca":
                st.ev.append(Ev("load", x, loc, v, w=x["w"], x=x.get("atomic")))
        st.env[x["id"]] = v

    def hinted(self, o, loc):
        """label of an untyped address from the static GEP chain"""
        l = self.static_label(o)
        if l and l[0] in self.p.structs:
            base, sub = loc.addr, 0
            d = self.g.defs.get(o[1]) if o[0] == "v" else None
            if d is not None and d["op"] == "getelementptr" and d["srcty"].split(".")[-1] == l[0] and \
                    all(sc % self.p.structs[l[0]]["size"] == 0 for _, sc, _ in d["vars"]):
                # address of a member of this very structure: the structure starts before it
                off = d["off"] % self.p.structs[l[0]]["size"]
                q = self.p.field_at(l[0], off)
                if q and q[0] == "field" and q[2] == l[1]:
                    base, sub = add(loc.addr, const(-off, 64)), off - q[3]
            return Loc(l[0], l[1], base, sub, None, loc.addr, self.ftype(l))
        return loc

    def ftype(self, l):
        for m in self.p.structs[l[0]]["members"]:
            if m["name"] == l[1]:
                return m["type"]

    def i_store(self, st, x):
        v = self.op(st, x["ops"][0])
        a = self.op(st, x["ops"][1])
        loc = self.resolve(a)
        if loc.st is None:
            loc = self.hinted(x["ops"][1], loc)
        if loc.st == "errno":
            st.ev.append(Ev("errno_store", x, loc, v))
        elif loc.st != "alloca" or self.private:
            st.ev.append(Ev("store", x, loc, v, w=x["sw"], x=x.get("atomic")))
        pt = self.pointee(loc.ftype)
        if pt and v.op in ("ret", "sym", "ld") and v not in self.types:
            self.settype(v, pt)
        self.mstore(st, loc, v)

    def i_atomicrmw(self, st, x):
        a = self.op(st, x["ops"][0])
        loc = self.resolve(a)
        v = tm.fresh("rmw", x["w"])
        st.ev.append(Ev("rmw", x, loc, self.op(st, x["ops"][1]), [v], w=x["w"], x=x.get("atomic"), name=x["rmw"]))
        st.ver[loc.lab] = self.nid()
        st.mem.pop(loc.lab, None)
        st.env[x["id"]] = v

    def i_cmpxchg(self, st, x):
        a = self.op(st, x["ops"][0])
        loc = self.resolve(a)
        st.ev.append(Ev("rmw", x, loc, self.op(st, x["ops"][2]), w=x["w"], x=x.get("atomic"), name="cmpxchg"))
        st.ver[loc.lab] = self.nid()
        st.mem.pop(loc.lab, None)
        st.env[x["id"]] = tm.fresh("cmpxchg", x["w"] or 64)

    def i_fence(self, st, x):
        st.ev.append(Ev("fence", x))

    def i_getelementptr(self, st, x):
        b = self.op(st, x["base"])
        r = add(b, const(x["off"], 64)) if x["off"] else b
        for o, sc, w in x["vars"]:
            v = self.op(st, o)
            if v.w < 64:
                v = self.sx(st, v)
            v = self.fold(st, v)
            r = add(r, tm.mulc(v, sc))
        st.env[x["id"]] = r
        m = re.match(r"%(?:struct|union)\.(\w+?)(?:\.\d+)?$", x["srcty"])
        if m and m.group(1) in self.p.structs:
            at = self.single(b)
            if at is not None and at not in self.types and at.op in ("arg", "ret", "sym", "undef"):
                if m.group(1) not in ("mutex",):
                    self.settype(at, m.group(1))

    def single(self, b):
        return b if b.op not in ("lin", "const") else None

    def sx(self, st, v):
        if self.iv(st, v)[1] < 1 << (v.w - 1):
            return self.zx(st, v, 64)
        return tm.sext(v, 64)

    def zx(self, st, v, w):
        if v.op == "lin":
            ex = tm.exact(v, lambda x: self.iv(st, x))
            if ex:
                r = const(ex[0], w)
                for a, k in ex[1].items():
                    r = add(r, tm.mulc(self.zx(st, a, w), k))
                return r
        if v.op == "trunc" and v.a[0].w == w and self.iv(st, v.a[0])[1] < 1 << v.w:
            return v.a[0]
        return tm.zext(v, w)

    def bin(fn):
        def f(self, st, x):
            a = self.op(st, x["ops"][0])
            b = self.op(st, x["ops"][1])
            st.env[x["id"]] = self.fold(st, fn(self, st, a, b))
        return f

    i_add = bin(lambda s, st, a, b: add(a, b))
    i_sub = bin(lambda s, st, a, b: sub(a, b))
    i_mul = bin(lambda s, st, a, b: tm.mul(s.fold(st, a), s.fold(st, b)))
    i_and = bin(lambda s, st, a, b: tm.and_(s.fold(st, a), s.fold(st, b)))
    i_or = bin(lambda s, st, a, b: tm.or_(s.fold(st, a), s.fold(st, b)))
    i_xor = bin(lambda s, st, a, b: tm.xor(s.fold(st, a), s.fold(st, b)))
    i_shl = bin(lambda s, st, a, b: tm.shl(a, s.fold(st, b)))
    i_lshr = bin(lambda s, st, a, b: tm.lshr(a, s.fold(st, b)))
    i_ashr = bin(lambda s, st, a, b: tm.ashr(a, s.fold(st, b)))
    i_udiv = bin(lambda s, st, a, b: s.dv(st, a, b))
    i_urem = bin(lambda s, st, a, b: sub(a, tm.mul(s.dv(st, a, b), b)))
    i_sdiv = bin(lambda s, st, a, b: s.sdv(st, a, b))
    i_srem = bin(lambda s, st, a, b: s.srm(st, a, b))

    def dv(self, st, a, b):
        b = self.fold(st, b)
        if b.op == "const" and b.a[0]:
            # exact division of linear terms by a constant
            k = b.a[0]
            ex = tm.exact(a, lambda x: self.iv(st, x)) if a.op == "lin" else None
            if ex and ex[0] % k == 0 and all(v % k == 0 for v in ex[1].values()):
                return lin(a.w, ex[0] // k, {x: v // k for x, v in ex[1].items()})
        return tm.udiv(a, b)

    def srm(self, st, a, b):
        h = 1 << (a.w - 1)
        if self.iv(st, a)[1] < h and self.iv(st, b)[1] < h:
            return tm.urem(a, b)
        return tm.atom("srem", a.w, a, b)

    def sdv(self, st, a, b):
        h = 1 << (a.w - 1)
        if self.iv(st, a)[1] < h and self.iv(st, b)[1] < h:
            return self.dv(st, a, b)
        # pointer difference divided by the element size: exact by the language rules
        if b.op == "const":
            k = tm.sval(b)
            c, d = parts(a)
            cs = tm.signed(c, a.w)
            if k > 0 and cs % k == 0 and all(tm.signed(v, a.w) % k == 0 for v in d.values()):
                return lin(a.w, cs // k, {x: tm.signed(v, a.w) // k for x, v in d.items()})
        return tm.atom("sdiv", a.w, a, b)

    def i_icmp(self, st, x):
        a = self.fold(st, self.op(st, x["ops"][0]))
        b = self.fold(st, self.op(st, x["ops"][1]))
        st.env[x["id"]] = tm.icmp(x["pred"], a, b)

    def i_zext(self, st, x):
        st.env[x["id"]] = self.fold(st, self.zx(st, self.op(st, x["ops"][0]), x["w"]))

    def i_sext(self, st, x):
        v = self.op(st, x["ops"][0])
        if self.iv(st, v)[1] < 1 << (v.w - 1):
            st.env[x["id"]] = self.zx(st, v, x["w"])
        else:
            st.env[x["id"]] = tm.sext(v, x["w"])

    def i_trunc(self, st, x):
        st.env[x["id"]] = self.fold(st, tm.trunc(self.fold(st, self.op(st, x["ops"][0])), x["w"]))

    def i_ptrtoint(self, st, x):
        v = self.op(st, x["ops"][0])
        st.env[x["id"]] = tm.trunc(v, x["w"]) if x["w"] < v.w else tm.zext(v, x["w"])

    def i_inttoptr(self, st, x):
        st.env[x["id"]] = tm.zext(self.op(st, x["ops"][0]), 64)

    def i_bitcast(self, st, x):
        st.env[x["id"]] = self.op(st, x["ops"][0])

    i_freeze = i_bitcast

    def i_select(self, st, x):
        c = self.op(st, x["ops"][0])
        v = self.truth(st, c)
        a, b = self.op(st, x["ops"][1]), self.op(st, x["ops"][2])
        if v is None and a.w == 1:
            st.env[x["id"]] = tm.select(c, a, b)
            return
        if v is None:
            return ("fork", c)
        st.env[x["id"]] = a if v else b

    def i_extractvalue(self, st, x):
        v = self.op(st, x["ops"][0])
        if v.op == "ovf":
            _, opn, a, b = (v,) + v.a
            if x["idx"] == [0]:
                st.env[x["id"]] = {"umul": tm.mul, "uadd": add, "usub": sub}[opn](a, b)
            else:
                st.env[x["id"]] = self.ovf(st, opn, a, b)
            return
        if v.op == "strct":
            st.env[x["id"]] = v.a[x["idx"][0]]
            return
        st.env[x["id"]] = tm.atom("field", x["w"] or 64, v, tuple(x["idx"]))

    def ovf(self, st, opn, a, b):
        (al, ah), (bl, bh) = self.iv(st, a), self.iv(st, b)
        m = 1 << a.w
        if opn == "uadd":
            if ah + bh < m:
                return FALSE
            return tm.atom("addovf", 1, *sorted((a, b), key=lambda t: t.id))
        if opn == "umul":
            if ah * bh < m:
                return FALSE
            return tm.atom("mulovf", 1, *sorted((a, b), key=lambda t: t.id))
        return tm.ult(a, b)

    def i_insertvalue(self, st, x):
        v = self.op(st, x["ops"][0])
        e = self.op(st, x["ops"][1])
        n = x["idx"][0]
        fl = list(v.a) if v.op == "strct" else [const(0, w) if x["ops"][0][0] == "zero" else tm.atom("undef", w) for w in x.get("fields", [64] * 4)]
        while len(fl) <= n:
            fl.append(tm.atom("undef", 64))
        fl[n] = e
        st.env[x["id"]] = tm.atom("strct", x["w"] or 64, *fl)

    def retsym(self, name, w, iv=None):
        self.retcount += 1
        return tm.atom("ret", w, name, self.retcount, iv=iv)

    def i_call(self, st, x):
        cal = x["callee"]
        if cal.startswith("llvm."):
            return self.intrinsic(st, x, cal)
        args = [self.op(st, o) for o in x["ops"]]
        if cal == "__errno_location":
            st.env[x["id"]] = tm.atom("errno", 64, iv=(4096, 1 << 47))
            return
        if cal in LOCKFN:
            loc = self.resolve(args[0])
            if loc.st is None:
                loc = self.hinted(x["ops"][0], loc)
            k = LOCKFN[cal]
            ev = Ev(k, x, loc, args=args, name=cal)
            st.ev.append(ev)
            if k == "lock":
                self.kill_all(st)
            if k == "mutexinit":
                st.env[x["id"]] = self.retsym(cal, x["w"])
            elif x["w"]:
                st.env[x["id"]] = const(0, x["w"])
            return
        w = x["w"]
        iv = None
        if cal in ("memcpy", "memset", "memmove"):
            st.env[x["id"]] = args[0]
            return self.memop(st, x, {"memcpy": "llvm.memcpy", "memmove": "llvm.memmove", "memset": "llvm.memset"}[cal], args)
        if cal == "strlen":
            s = self.cstring(x["ops"][0], args[0])
            if s is not None:
                st.env[x["id"]] = const(len(s), 64)
                return
        if cal.startswith("get_random_") and cal.endswith("_uniform"):
            l, h = self.iv(st, args[-1])
            iv = (0, max(0, h - 1))
        if cal in ("mmap", "mmap64", "mremap"):
            iv = (0, (1 << 64) - 1)
        if cal.startswith("libdivide_") and "_do" in cal:
            st.env[x["id"]] = r = tm.atom("libdiv", w, args[0], args[1])
            st.ev.append(Ev("call", x, args=args, name=cal, val=r))
            return
        r = self.retvals(cal, args, w) if w and self.retvals else None
        if r is None:
            r = self.retsym(cal, w, iv) if w else None
        ev = Ev("call", x, args=args, name=cal, val=r)
        for a in args:
            loc = self.resolve(a)
            if loc.st == "alloca":
                # what the callee finds in locals whose address it is given
                for lab, mm in st.mem.items():
                    if lab[0] == "alloca" and lab[1] == loc.f and isinstance(mm, dict):
                        for k, v in mm.items():
                            if len(k) == 3 and k[2] is None and v.op != "ld":
                                ev.pts = (ev.pts or ()) + ((add(k[0], const(k[1], 64)), v),)
        if cal == "<indirect>":
            ev.x = self.op(st, x["target"])
        st.ev.append(ev)
        if cal == "<asm>":
            ev.x = x.get("asm")
        if x.get("noreturn") or cal in NORET:
            msg = self.cstring(x["ops"][0], args[0]) if args else None
            self.finish(st, "fatal", x, msg=msg)
            return "end"
        if cal in ("mmap", "mmap64", "mremap"):
            # a mapping is either MAP_FAILED or a user-space address
            pass
        if cal in ERRNO_SETTERS or cal.startswith("<"):
            if ("errno", "") in st.mem:
                del st.mem[("errno", "")]
            st.ver[("errno", "")] = self.nid()
        if cal in MEMSYS:
            self.kill(st, lambda l: l[0] is None or l[0] == "region_metadata")
        elif cal.startswith(("get_random_", "random_state_init", "chacha_")):
            for o, a in zip(x["ops"], args):
                loc = self.resolve(a)
                if loc.st == "alloca":
                    self.kill_alloca(st, loc.f)
                elif loc.st is not None:
                    st.mem.pop(loc.lab, None)
                    st.ver[loc.lab] = self.nid()
        elif cal in ("libdivide_u32_gen", "libdivide_u64_gen") or x.get("sret"):
            for n in x.get("sret", []):
                loc = self.resolve(args[n])
                if loc.st == "alloca":
                    self.kill_alloca(st, loc.f)
                    st.mem[(loc.lab, "content")] = {0: tm.atom("gen", 64, cal, *args[n + 1:])}
        else:
            for a in args:
                loc = self.resolve(a)
                if loc.st == "alloca":
                    self.kill_alloca(st, loc.f)
        if cal in ("<indirect>", "pthread_atfork") or not (cal in ERRNO_SETTERS or cal.startswith(
                ("get_random_", "random_state_init", "chacha_", "libdivide", "<asm"))) and cal in self.p.fns:
            self.kill_all(st)
        if r is not None:
            st.env[x["id"]] = r

    def cstring(self, o, t):
        if t.op == "g":
            g = self.p.globals.get(t.a[0])
            if g and g.get("init", [0])[0] == "str":
                b = bytes.fromhex(g["init"][1])
                return b.split(b"\0")[0].decode("latin1")
        return None

    def intrinsic(self, st, x, cal):
        if cal.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.donothing", "llvm.stack")):
            return
        if cal.startswith("llvm.threadlocal.address"):
            st.env[x["id"]] = self.op(st, x["ops"][0])
            return
        if cal.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            return self.memop(st, x, cal, [self.op(st, o) for o in x["ops"]])
        if cal.startswith("llvm.ctlz"):
            v = tm.clz(self.fold(st, self.op(st, x["ops"][0])))
            st.env[x["id"]] = self.fold(st, v)
            return
        if cal.startswith("llvm.cttz"):
            st.env[x["id"]] = tm.ctz(self.fold(st, self.op(st, x["ops"][0])))
            return
        m = re.match(r"llvm\.(umul|uadd|usub)\.with\.overflow", cal)
        if m:
            st.env[x["id"]] = tm.atom("ovf", 64, m.group(1), *[self.op(st, o) for o in x["ops"]])
            return
        if cal.startswith("llvm.expect"):
            st.env[x["id"]] = self.op(st, x["ops"][0])
            return
        m = re.match(r"llvm\.(umin|umax)\.", cal)
        if m:
            a, b = self.op(st, x["ops"][0]), self.op(st, x["ops"][1])
            c = tm.ult(a, b)
            v = self.truth(st, c)
            if v is None:
                return ("fork", c)
            st.env[x["id"]] = (a if v else b) if m.group(1) == "umin" else (b if v else a)
            return
        m = re.match(r"llvm\.(fshl|fshr)\.", cal)
        args = [self.op(st, o) for o in x["ops"]]
        if m and args[2].op == "const":
            w = x["w"]
            k = args[2].a[0] % w
            if m.group(1) == "fshr":
                k = w - k if k else w
            st.env[x["id"]] = tm.atom("rotl", w, args[0], k) if args[0] is args[1] else tm.fresh("fsh", w)
            return
        if cal in NORET or x.get("noreturn"):
            st.ev.append(Ev("call", x, args=args, name=cal))
            self.finish(st, "fatal", x)
            return "end"
        r = self.retsym(cal, x["w"]) if x["w"] else None
        st.ev.append(Ev("call", x, args=args, name=cal, val=r))
        if r is not None:
            st.env[x["id"]] = r

    def members(self, loc, n):
        """scalar members of the struct at loc covering n bytes: [(label loc, width)]"""
        if loc.st not in self.p.structs:
            return None
        s = self.p.structs[loc.st]
        fld = [m for m in s["members"] if m["name"] == loc.f]
        if not fld or s["size"] != n or fld[0]["off"] != 0 or loc.sub:
            return None
        return [(Loc(loc.st, m["name"], loc.base, 0, None, add(loc.base, const(m["off"], 64)), m["type"]), m["size"] * 8)
                for m in s["members"]]

    def memop(self, st, x, cal, args):
        kind = "memset" if "memset" in cal else "memcpy"
        d, s_, n = args[0], args[1], args[2]
        n = self.fold(st, n)
        dl = self.resolve(d)
        if dl.st is None:
            dl = self.hinted(x["ops"][0], dl)
        if kind == "memcpy":
            sl = self.resolve(s_)
            if sl.st is None:
                sl = self.hinted(x["ops"][1], sl)
        else:
            sl = None
        ev = Ev(kind, x, dl, val=s_, args=[d, s_, n], name=cal, x=sl)
        # small copies between scalars/fields behave as loads and stores
        if kind == "memcpy" and n.op == "const" and n.a[0] in (1, 2, 4, 8) and \
                (dl.st != "alloca" or sl.st != "alloca" or True):
            w = n.a[0] * 8
            v = self.mload(st, sl, w, False, x)
            ev.val = v
            if sl.st != "alloca":
                st.ev.append(Ev("load", x, sl, v, w=w, name="memcpy"))
            if dl.st != "alloca":
                st.ev.append(Ev("store", x, dl, v, w=w, name="memcpy"))
            self.mstore(st, dl, v)
            return
        if kind == "memcpy" and n.op == "const":
            dm = self.members(dl, n.a[0])
            sm = self.members(sl, n.a[0])
            if dm or sm:
                # aggregate copy: member-wise where types are known
                base = dm or sm
                vals = []
                for mloc, w in base:
                    off = tm.signed(sub(mloc.addr, base[0][0].base).a[0], 64)
                    if sm:
                        q = [y for y in sm if y[0].f == mloc.f][0][0]
                    else:
                        q = self.resolve(add(s_, const(off, 64)))
                    v = self.mload(st, q, w, False, x)
                    if q.st != "alloca":
                        st.ev.append(Ev("load", x, q, v, w=w, name="memcpy"))
                    vals.append((mloc, off, v, w))
                for mloc, off, v, w in vals:
                    q = mloc if dm else self.resolve(add(d, const(off, 64)))
                    if q.st != "alloca":
                        st.ev.append(Ev("store", x, q, v, w=w, name="memcpy"))
                    self.mstore(st, q, v)
                return
        st.ev.append(ev)
        if dl.st == "alloca":
            if kind == "memcpy" and n.op == "const" and sl.st == "alloca":
                # alloca to alloca: copy known words
                src = [(lab, mm) for lab, mm in st.mem.items() if lab[0] == "alloca" and lab[1] == sl.f]
                self.kill_alloca(st, dl.f)
                for lab, mm in src:
                    for k, v in mm.items():
                        off = k[1] - sl.sub
                        if k[2] is None and 0 <= off < n.a[0]:
                            q = self.resolve(add(d, const(off, 64)))
                            self.mstore(st, q, v)
                return
            if kind == "memcpy" and n.op == "const" and n.a[0] <= 64:
                self.kill_alloca(st, dl.f)
                # words from memory
                off = 0
                while off < n.a[0]:
                    w = 8 if n.a[0] - off >= 8 else n.a[0] - off
                    q = self.resolve(add(s_, const(off, 64)))
                    if q.st is not None and w in (1, 2, 4, 8):
                        v = self.mload(st, q, w * 8, False, x)
                        self.mstore(st, self.resolve(add(d, const(off, 64))), v)
                    off += 8
                return
            self.kill_alloca(st, dl.f)
            if kind == "memset" and s_.op == "const" and s_.a[0] == 0 and n.op == "const":
                for off in range(0, min(n.a[0], 512), 4):
                    pass
                st.mem[(("alloca", dl.f), "zeroed")] = {(dl.base, None): tm.TRUE}
            return
        if dl.st is None:
            st.mem.pop((None, None), None)
            st.ver[(None, None)] = self.nid()
        else:
            st.mem.pop(dl.lab, None)
            st.ver[dl.lab] = self.nid()
            if dl.st in self.p.structs:
                for m in self.p.structs[dl.st]["members"]:
                    st.mem.pop((dl.st, m["name"]), None)
                    st.ver[(dl.st, m["name"])] = self.nid()
