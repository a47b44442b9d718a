"""Transfer functions applied to described states.

The paths of a function form a decision tree of events (loads, stores, branches, calls, loop summaries).  `Machine` carries
an abstract state - a finite map from (structure, field, address) to values, everything else unknown - through that tree:
branches the state decides select, undecided ones fork, loop summaries are iterated until the state leaves them.
"""
from . import term as tm, walk
from .ctx import ToolError

GLOB = {}


def gaddr(name):
    if name not in GLOB:
        GLOB[name] = 0x5000000000 + 0x10000000 * (len(GLOB) + 1)
    return GLOB[name]


class Node:
    __slots__ = ("next", "ends")

    def __init__(s):
        s.next, s.ends = {}, []


def trie(ps):
    root = Node()
    for p in ps:
        cur = root
        for e in p.ev:
            if e.k == "branch" and (e.name == "known" or e.x not in (True, False)):
                continue
            x = cur.next.get(id(e))
            if x is None:
                x = cur.next[id(e)] = (e, Node())
            cur = x[1]
        cur.ends.append(p)
    return root


class State:
    """mem: (struct, field, address) -> value"""

    def __init__(s):
        s.mem = {}
        s.default = lambda st, f, a: None

    def raw(s, a, w):
        """contents of user memory"""
        return None

    def copy(s):
        n = State.__new__(type(s))
        n.__dict__.update(s.__dict__)
        n.mem = dict(s.mem)
        return n


class Out:
    """one way through: end ('ret', 'fatal', 'loops', 'undecided'), message, returned value, state, trace of (event, values)"""
    __slots__ = ("end", "msg", "ret", "st", "trace", "p")

    def calls(s, *names):
        return [(e, a, r) for k, e, a, r in s.trace if k == "call" and (not names or e.name in names)]


class Halt(Exception):
    """a call made on the way does not return"""

    def __init__(s, out):
        s.out = out


class Machine:
    count = 0

    def __init__(m, ps, limit=400, forks=2000):
        Machine.count += 1
        m.stack = 0x7ffc00000000 + Machine.count * 0x100000
        m.root = trie(ps)
        m.limit, m.forks = limit, forks

    def run(m, st, args, oracle, over=None):
        """args: argument number -> value; oracle(event, values, state, trace) -> result of a call or None"""
        outs = []
        work = [(m.root, st.copy(), {}, [], [])]
        n = [0]
        while work:
            try:
                m.advance(work, outs, n, args, oracle, over)
            except Halt as h:
                outs.append(h.out)
        return outs

    def advance(m, work, outs, cnt, args, oracle, over):
        n = cnt[0]
        while work:
            cnt[0] = n = n + 1
            if n > m.forks:
                raise ToolError("too many ways through a summary")
            node, s, b, tr, loops = work.pop()
            while True:
                memo = {}

                def f(t, b=b):
                    q = b.get(t)
                    if q is not None:
                        return q
                    if t.op == "arg":
                        a = t.a[0]
                        return args.get(int(a[3:])) if isinstance(a, str) and a[:3] == "arg" and a[3:].isdigit() else None
                    if t.op == "g":
                        return gaddr(t.a[0])
                    if t.op == "alloca":
                        return m.stack + t.a[0] * 0x1000 if isinstance(t.a[0], int) else None
                    if t.op == "ld" and t.a[0] == "alloca" and t.a[2] is not None and t.a[2].op == "alloca" and t.a[4] is None:
                        return s.mem.get(("", "", f(t.a[2]) + (t.a[3] or 0)))
                    if over:
                        return over(t, s, f)
                    return None

                def val(t):
                    return tm._value(t, f, memo)
                stop = None
                # straight line
                while len(node.next) == 1 and not node.ends:
                    e, nx = next(iter(node.next.values()))
                    if e.k == "branch":
                        v = val(e.val)
                        if v is not None and bool(v) != e.x:
                            stop = "dead"
                            break
                    else:
                        if e.k == "loop":
                            if e.name == "havoc":
                                vs = {}
                                for key, (i0, sy) in e.val.items():
                                    walk.bind(vs, sy, i0, val)
                                b.update(vs)
                                loops = loops + [[e, nx, 0]]
                                memo.clear()
                        else:
                            m.step(e, s, b, tr, val, memo, oracle)
                    node = nx
                if stop == "dead":
                    break
                alive = []
                for e, nx in node.next.values():
                    if e.k == "branch":
                        v = val(e.val)
                        if v is not None and bool(v) != e.x:
                            continue
                    alive.append((e, nx))
                ends = node.ends
                if len(alive) == 1 and not ends:
                    e, nx = alive[0]
                    if e.k == "loop" and e.name == "havoc":
                        vs = {}
                        for key, (i0, sy) in e.val.items():
                            walk.bind(vs, sy, i0, val)
                        b.update(vs)
                        loops = loops + [[e, nx, 0]]
                        memo.clear()
                    elif e.k != "branch":
                        m.step(e, s, b, tr, val, memo, oracle)
                    node = nx
                    continue
                if not alive and not ends:
                    break
                if alive:
                    for e, nx in alive:
                        s2, b2, tr2, l2 = s.copy(), dict(b), list(tr), [list(x) for x in loops]
                        if e.k != "branch":
                            # same step, reached on several paths
                            one = Node()
                            one.next[id(e)] = (e, nx)
                            work.append((one, s2, b2, tr2, l2))
                        else:
                            tr2.append(("fork", e, None, None))
                            work.append((nx, s2, b2, tr2, l2))
                back = [p for p in ends if p.end == "backedge"]
                for p in ends[:1] if not back else back[:1]:
                    if p.end == "backedge":
                        k = len(loops) - 1
                        while k >= 0 and loops[k][0].x != p.ret:
                            k -= 1
                        if k < 0:
                            break
                        L = loops[k]
                        nxt = p.ev[-1].val if isinstance(p.ev[-1].val, dict) else {}
                        vs = {}
                        for key, (i0, sy) in L[0].val.items():
                            if key in nxt:
                                walk.bind(vs, sy, nxt[key], val)
                        b.update(vs)
                        if L[2] + 1 > m.limit:
                            stop = "loops"
                            o = Out()
                            o.end, o.msg, o.ret, o.st, o.trace, o.p = "loops", None, None, s, tr, p
                            outs.append(o)
                            break
                        loops = loops[:k] + [[L[0], L[1], L[2] + 1]]
                        if alive:
                            work.append((L[1], s.copy(), dict(b), list(tr), [list(x) for x in loops]))
                            stop = "done"
                        else:
                            node = L[1]
                            stop = "again"
                    else:
                        o = Out()
                        o.end, o.msg, o.p = p.end, p.msg, p
                        o.ret = val(p.ret) if p.end == "ret" and p.ret is not None else None
                        o.st, o.trace = s, tr
                        outs.append(o)
                if stop == "again":
                    continue
                break

    def step(m, e, s, b, tr, val, memo, oracle):
        try:
            m.step_(e, s, b, tr, val, memo, oracle)
        except Halt as h:
            h.out.trace = tr + h.out.trace
            raise

    def step_(m, e, s, b, tr, val, memo, oracle):
        k = e.k
        if k in ("load", "store", "rmw"):
            if e.loc is None or e.loc.st in ("alloca",):
                return
            a = val(e.loc.base) if e.loc.base is not None else None
            if a is not None:
                a += e.loc.sub or 0
                if e.loc.idx is not None:
                    i = val(e.loc.idx)
                    a = None if i is None else (a + tm.signed(i, 64)) & ((1 << 64) - 1)
            if k == "load":
                if e.loc.st is None and (a is not None or e.loc.addr is not None):
                    if a is None:
                        a = val(e.loc.addr)
                    if a is not None and e.val is not None and e.val.op == "ld":
                        q = s.mem["", "", a] if ("", "", a) in s.mem else s.raw(a, e.val.w)
                        if q is None and ("", "", a) not in s.mem:
                            q = s.default(None, e.loc.f, a)
                        if q is not None or e.val in b:
                            b[e.val] = q
                            memo.clear()
                elif e.val is not None and e.val.op in ("ld", "tab"):
                    q = None
                    if a is not None:
                        q = s.mem.get((e.loc.st, e.loc.f, a))
                        if q is None and (e.loc.st, e.loc.f, a) not in s.mem:
                            q = s.default(e.loc.st, e.loc.f, a)
                    if q is not None or e.val in b:
                        b[e.val] = q
                        memo.clear()
                tr.append(("load", e, a, None))
            elif k == "rmw" and e.args:
                q = s.mem.get((e.loc.st, e.loc.f, a)) if a is not None else None
                if q is None and a is not None and (e.loc.st, e.loc.f, a) not in s.mem:
                    q = s.default(e.loc.st, e.loc.f, a)
                x = val(e.val)
                b[e.args[0]] = q
                memo.clear()
                mask = (1 << (e.w or 64)) - 1
                v = None if q is None or x is None else {"add": q + x, "sub": q - x, "xchg": x, "or": q | x, "and": q & x}.get(e.name)
                if a is not None:
                    s.mem[(e.loc.st, e.loc.f, a)] = None if v is None else v & mask
                tr.append(("rmw", e, a, v))
            else:
                v = val(e.val) if k == "store" else None
                if e.loc.st is None and (a is not None or e.loc.addr is not None):
                    if a is None:
                        a = val(e.loc.addr)
                    if a is not None:
                        s.mem[("", "", a)] = v
                elif a is not None:
                    s.mem[(e.loc.st, e.loc.f, a)] = v
                tr.append(("store", e, a, v))
        elif k == "call":
            av = [val(x) for x in e.args]
            for q, x in e.pts or ():
                q = val(q)
                if q is not None:
                    s.mem["", "", q] = val(x)
            r = oracle(e, av, s, tr)
            if e.val is not None:
                b[e.val] = r
                memo.clear()
            tr.append(("call", e, av, r))
        elif k == "errno_load":
            if e.val is not None and e.val.op != "const":
                b[e.val] = b["errno"] if b.get("errno") is not None else getattr(s, "errno", 12)
                memo.clear()
        elif k == "errno_store":
            tr.append(("errno", e, None, val(e.val)))
        elif k in ("lock", "unlock", "memset", "memcpy"):
            tr.append((k, e, [val(x) for x in (e.args or [])], val(e.loc.base) if e.loc is not None and e.loc.base is not None else None))
        else:
            tr.append((k, e, None, None))
