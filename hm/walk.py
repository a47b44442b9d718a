"""Path summaries at sample points.

The paths of a function (engine.Engine, loops summarised by one arbitrary iteration) form a tree: a path with loops is a
sequence of segments, one per loop entered.  `outcomes` selects, for a given valuation of the atoms (arguments, results of
kept calls, loads), the segments whose branch conditions hold, iterating the loop summaries.  Nothing of the program runs:
the terms extracted from the IR are evaluated.
"""
from . import term as tm
from .ctx import ToolError


class Node:
    __slots__ = ("loop", "leaves", "kids", "start")

    def __init__(s, loop, start):
        s.loop, s.start, s.leaves, s.kids = loop, start, [], []


def tree(ps):
    """segments: root node, one node per loop entry; leaves are (path, start, end)"""
    root = Node(None, 0)
    index = {}
    for p in ps:
        node = root
        for i, e in enumerate(p.ev):
            if e.k == "loop" and e.name == "havoc":
                key = (id(node), id(e))
                if key not in index:
                    n = Node(e, i + 1)
                    index[key] = n
                    node.kids.append((p, node.start, i, n))
                node = index[key]
        node.leaves.append((p, node.start, len(p.ev)))
    return root


class Out:
    """a way through the function: path reached, valuation, and the events met in order (with iterations expanded)"""
    __slots__ = ("p", "env", "f", "ev", "memo")

    def val(s, t):
        return tm.value(t, s.f, s.memo)


def bind(env, s, t, val):
    """give the loop variable s the value of the term t; a scaled counter is bound through its counting atom"""
    v = env[s] = val(t) if t is not None else None
    if s.op == "lin":
        c, d = tm.parts(s)
        if len(d) == 1:
            a = list(d)[0]
            env[a] = None if v is None or (v - c) % d[a] else (v - c) // d[a]
        elif t is not None:
            its = [a for a in d if a.op == "sym" and a.a[0] == "it"]
            if len(its) == 1:
                # the distance from where the pointer started
                a = its[0]
                q = val(tm.sub(t, tm.sub(s, tm.mulc(a, d[a]))))
                env[a] = None if q is None or q % d[a] else q // d[a]


def outcomes(root, base, limit=4000, iters=300):
    """all consistent ways through; base: atom -> int or None"""
    out = []
    budget = [limit * 50]

    def mk(env):
        def f(t):
            r = env.get(t)
            return r if r is not None else base(t)
        return f

    def ok(p, a, b, f, memo):
        for e in p.ev[a:b]:
            if e.k == "branch" and e.x in (True, False):
                v = tm.value(e.val, f, memo)
                if v is not None and bool(v) != e.x:
                    return False
        return True

    def go(node, env, evs, depth, stack):
        budget[0] -= 1
        if budget[0] < 0 or len(out) > limit:
            raise ToolError("too many ways through a summary")
        f = mk(env)
        memo = {}
        leaves = [x for x in node.leaves if ok(*x, f, memo)]
        kids = [x for x in node.kids if ok(*x[:3], f, memo)]
        # a loop that may go on or stop at this point is not determined by the valuation: two iterations stand for all
        undet = kids or any(p.end != "backedge" or p.ret != (stack[-1][0].loop.x if stack else None) for p, a, b in leaves)
        for p, a, b in leaves:
            if p.end == "backedge":
                hd = p.ret
                k = len(stack) - 1
                while k >= 0 and stack[k][0].loop.x != hd:
                    k -= 1
                if k < 0:
                    continue
                n, n_iter = stack[k]
                if undet and n_iter >= 2:
                    continue
                if n_iter >= iters:
                    raise ToolError("a loop does not end within %d iterations at the sample point" % iters)
                nx = p.ev[-1].val if isinstance(p.ev[-1].val, dict) else {}
                e2 = dict(env)
                for key, (i0, s) in n.loop.val.items():
                    if key in nx:
                        bind(e2, s, nx[key], lambda t: tm.value(t, f, memo))
                # the summary is the same in every iteration: a repeated valuation shows nothing new
                if all(e2.get(s) == env.get(s) for i0, s in n.loop.val.values()):
                    continue
                go(n, e2, evs + p.ev[a:b], depth + 1, stack[:k] + [(n, n_iter + 1)])
                continue
            o = Out()
            o.p, o.env, o.f, o.ev, o.memo = p, env, f, evs + p.ev[a:b], memo
            out.append(o)
        for p, a, b, n in kids:
            e2 = dict(env)
            for key, (i0, s) in n.loop.val.items():
                bind(e2, s, i0, lambda t: tm.value(t, f, memo))
            go(n, e2, evs + p.ev[a:b], depth + 1, stack + [(n, 0)])
    go(root, {}, [], 0, [])
    return out


def atom_is(t, op, name=None):
    return t.op == op and (name is None or t.a[0] == name)


def base(args=None, rets=None, lds=None, tables=None, other=None):
    """a valuation: argument values by number, results of calls by callee name, loads by (struct, field)"""
    args, rets, lds, tables = args or {}, rets or {}, lds or {}, tables or {}

    def f(t):
        if t.op == "arg":
            n = t.a[0]
            return args.get(int(n[3:])) if isinstance(n, str) and n.startswith("arg") else None
        if t.op == "ret":
            r = rets.get(t.a[0])
            return r(t) if callable(r) else r
        if t.op == "ld":
            k = (t.a[0], t.a[1])
            if k in lds:
                r = lds[k]
                return r(t) if callable(r) else r
        if other:
            return other(t)
        return None
    return f


class Space:
    """what a sequence of mapping calls leaves behind: page ranges with a protection (None: not mapped)"""

    def __init__(s):
        s.cuts = {}      # list of (lo, hi, prot)
        s.r = []

    def set(s, lo, hi, prot):
        out = []
        for a, b, p in s.r:
            if b <= lo or a >= hi:
                out.append((a, b, p))
            else:
                if a < lo:
                    out.append((a, lo, p))
                if b > hi:
                    out.append((hi, b, p))
        if hi > lo:
            out.append((lo, hi, prot))
        s.r = sorted(out)

    def prots(s, lo, hi):
        """protections found in [lo, hi): a set; 'unknown' for what was never touched"""
        out = set()
        at = lo
        for a, b, p in s.r:
            if b <= lo or a >= hi:
                continue
            if a > at:
                out.add("unknown")
            out.add(p)
            at = max(at, b)
        if at < hi:
            out.add("unknown")
        return out

    def mapped(s):
        return [(a, b, p) for a, b, p in s.r if p is not None and p != "gone"]
