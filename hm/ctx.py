"""What the rules work with: programs per configuration, runs per entry point, reports."""
import time
from . import frontend as fe, engine as en, term as tm
from .frontend import ToolError

GUARDED = {  # structure -> which lock protects it
    "size_class": "class", "slab_metadata": "class",
    "region_allocator": "region", "region_metadata": "region", "quarantine_info": "region",
}


class Ctx:
    """one configuration's analysis; rules call obl()/fail()"""

    def __init__(self, config, tier="quick"):
        self.config = config
        self.tier = tier
        self._prog = {}
        self._runs = {}
        self.fails = {}
        self.counts = {}
        self.samples = []
        self.rulecount = {}

    def opt(self, name):
        """a build option, as passed by the Makefile: bool or int"""
        v = fe.defines(self.config).get(name)
        if v is None:
            raise ToolError("the build does not define " + name)
        if v in ("true", "false"):
            return v == "true"
        return int(v)

    # -- reporting ----------------------------------------------------------------------------
    def obl(self, rule, n=1):
        self.rulecount[rule] = self.rulecount.get(rule, 0) + n

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:400])

    def fail(self, rule, ins, msg, path=None):
        w = en.where_chain(ins) if isinstance(ins, dict) else str(ins)
        k = (rule, w)
        if k in self.fails:
            self.fails[k]["paths"] += 1
            return
        self.fails[k] = {"rule": rule, "where": w, "msg": msg, "config": self.config, "paths": 1,
                         "entry": path.entry if path is not None else None,
                         "trace": trace(path) if path is not None else None}

    # -- programs -----------------------------------------------------------------------------
    def prog(self, cut=True, unit="main", keep=None):
        k = (cut, unit, keep)
        if k not in self._prog:
            kw = {}
            if keep is not None:
                kw["keep"] = keep
            P = en.Program(fe.compile_ir(self.config, unit=unit, cut=cut, **kw))
            if unit == "main":
                P.compute_immutable()
            self._prog[k] = P
            self.count("functions in the linked IR", len(P.fns))
        return self._prog[k]

    def run(self, entry, cut=True, unit="main", keep=None, cache=True, prog=None, **kw):
        """all paths of one function"""
        P = prog or self.prog(cut, unit, keep)
        kw.setdefault("loops", "simple")
        kw.setdefault("max_paths", 60000)
        key = (cut, unit, keep, entry, tuple(sorted((a, str(b)) for a, b in kw.items())))
        if cache and key in self._runs:
            return self._runs[key]
        e = en.Engine(P, entry, **kw)
        ps = e.run()
        self.count("paths", len(ps))
        self.count("entry points analysed")
        self.count("events", sum(len(p.ev) for p in ps))
        if cache:
            self._runs[key] = ps
        return ps

    def heavy(self, cut=True):
        """internal functions that lock for themselves (kept as calls)"""
        P = self.prog(cut)
        return sorted(n for n, i in P.finfo.items() if n in P.fns and i["heavy"] and n in P.post_init)

    def exported(self, cut=True):
        P = self.prog(cut)
        return sorted(n for n, i in P.finfo.items() if n in P.fns and i.get("default_vis") and not i["third"])

    def api(self, cut=True):
        """exported functions and hidden entry points of other translation units (they work on locked state themselves)"""
        P = self.prog(True)
        hv = set(self.heavy(True))
        own = {n for n, i in P.finfo.items() if n in P.fns and not i["local"] and not i["third"] and not i.get("default_vis")
               and n not in hv and n not in self.inits(True) and
               any(x["op"] == "call" and x.get("callee") in hv for b in P.fns[n]["blocks"] for x in b["ins"])}
        return sorted(set(self.exported(cut)) | own)

    def handlers(self, cut=True):
        P = self.prog(cut)
        return sorted(n for n, i in P.finfo.items() if n in P.fns and i["addr_taken"] and not i["third"])

    def inits(self, cut=True):
        """kept functions not reachable once initialised: the initialisation slow path"""
        P = self.prog(cut)
        return sorted(n for n, i in P.finfo.items() if n in P.fns and i["heavy"] and n not in P.post_init)


def trace(p):
    """short, readable history of a path: calls, locks and decided branches"""
    out = []
    for e in p.ev:
        if e.k in ("lock", "unlock", "call", "memset", "ret") or e.k == "branch" and e.name != "known":
            s = e.k
            if e.k == "branch":
                s = "branch %s at %s" % ("taken" if e.x else "not taken", en.where(e.ins))
            elif e.k == "call":
                s = "call %s at %s" % (e.name, en.where(e.ins))
            else:
                s = "%s at %s" % (e.k, en.where(e.ins))
            out.append(s)
    if len(out) > 40:
        out = out[:15] + ["…"] + out[-24:]
    return out


# -- vocabulary ------------------------------------------------------------------------------------
def lockkind(loc):
    if loc.st == "size_class":
        return "class"
    if loc.st == "region_allocator":
        return "region"
    if loc.st == "init_lock" or loc.base is not None and loc.base.op == "g":
        return "init"
    return "?"


def held_at(path):
    """-> list (one entry per event) of the locks held when the event happens: tuple of (kind, base)"""
    held = []
    out = []
    for e in path.ev:
        out.append(tuple(held))
        if e.k == "lock":
            held.append((lockkind(e.loc), e.loc.base, e.i))
        elif e.k == "unlock":
            key = (lockkind(e.loc), e.loc.base)
            for n, h in enumerate(held):
                if h[:2] == key:
                    del held[n]
                    break
    out.append(tuple(held))
    return out


def lds(t, st=None, f=None):
    """loads occurring in a term"""
    return [x for x in tm.subterms(t) if x.op == "ld" and (st is None or x.a[0] == st) and (f is None or x.a[1] == f)]


def calls(p, *names):
    return [e for e in p.ev if e.k == "call" and e.name in names]


def is_alloc_fn(n):
    return n in ("malloc", "calloc", "realloc", "aligned_alloc", "memalign", "valloc", "pvalloc", "posix_memalign")
