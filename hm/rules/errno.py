"""C24: free leaves errno as it found it."""
from .. import engine as en, term as tm
from ..ctx import ToolError
from . import iface

# the generator only asks for requests the kernel never interrupts (C36); rights of a valid key cannot fail to be set
SETTERS = en.ERRNO_SETTERS - {"getrandom", "pkey_set"}
SAME, LOST = "as found", "changed"
FREE = ("free", "cfree", "h_free", "h_cfree")


def succeeded(p, e):
    """does the path establish that the kernel call did not fail?"""
    if e.val is None or not isinstance(e.val, tm.T):
        return False
    r = e.val
    return p.eng.truth_in(p, tm.eq0(r)) is True or p.eng.truth_in(p, tm.eq0(tm.add(r, tm.const(1, r.w)))) is False


class Keep:
    def __init__(self, cx, cut=True):
        self.cx, self.P, self.cut = cx, cx.prog(cut), cut
        self.memo = {}
        self.sites = set()
        self.n = 0

    def preserves(self, fn):
        if fn in self.memo:
            return self.memo[fn]
        self.memo[fn] = True
        bad = None
        ps = self.cx.run(fn, cut=self.cut)
        dirty = set()
        while bad is None:
            n = len(dirty)
            for p in ps:
                st, by = self.walk(p, dirty)
                if p.end in ("ret", "resume"):
                    self.n += 1
                if p.end in ("ret", "resume") and st == LOST:
                    bad = (p, by)
                    break
            if len(dirty) == n:
                break
        self.memo[fn] = bad is None
        if bad:
            self.memo[fn] = bad
        return self.memo[fn]

    def walk(self, p, dirty):
        st, by = SAME, None
        heads = {}
        found = set()
        for e in p.ev:
            if e.k == "errno_load":
                if st == SAME:
                    found.add(e.val)
            elif e.k == "errno_store":
                st, by = (SAME, None) if e.val in found else (LOST, e)
            elif e.k == "call":
                if e.name in SETTERS:
                    self.sites.add(en.where_chain(e.ins))
                    if not succeeded(p, e):
                        st, by = LOST, e
                elif e.name in self.P.fns and e.name in self.cx.heavy(self.cut):
                    self.sites.add(en.where_chain(e.ins))
                    r = self.preserves(e.name)
                    if r is not True:
                        st, by = LOST, e
                elif e.name == "<indirect>" or e.name not in self.P.fns and not e.name.startswith(("llvm.", "libdivide")) and \
                        e.name not in PURE and e.name not in en.ERRNO_SETTERS:
                    st, by = LOST, e
            elif e.k == "loop":
                if e.x in dirty:
                    st, by = LOST, e
                heads.setdefault(e.x, st)
            elif e.k == "backedge":
                if heads.get(e.x) == SAME and st == LOST:
                    dirty.add(e.x)
        return st, by


# library functions that do not touch errno
PURE = {"memcpy", "memset", "memmove", "memcmp", "strlen", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init",
        "__errno_location", "<asm>", "pkey_set", "pkey_get", "abort", "_exit"}


NOCXX = ("mte", "android")      # cross compiled, no C++ headers at hand


def c24(cx):
    P = cx.prog()
    K = Keep(cx)
    any_ = False
    for n in FREE:
        if not P.has(n) or n not in P.fns:
            continue
        any_ = True
        r = K.preserves(n)
        if r is not True:
            p, by = r
            why = "errno on return from %s is not what it was on entry" % n
            ins = p.endins
            if by is not None:
                ins = by.ins
                why = "%s returns with errno changed by %s" % (n, by.name or by.k)
            while by is not None and by.k == "call" and by.name in P.fns and K.memo.get(by.name, True) is not True:
                p, by = K.memo[by.name]
                if by is not None:
                    ins = by.ins
                    why = "%s can return with errno changed by %s" % (n, by.name or by.k)
            cx.fail("errno on return is errno on entry", ins, why, p)
    if not any_:
        raise ToolError("no release function found")
    cx.obl("errno on return is errno on entry", K.n)
    cx.obl("kernel requests on the way", len(K.sites))
    if cx.config in NOCXX:
        return
    # unsized delete
    X = cx.prog(True, "cxx")
    for fn, (isz, ial) in iface.DEL.items():
        if isz is not None or not X.has(fn):
            continue
        for p in cx.run(fn, unit="cxx"):
            cx.obl("delete only releases")
            for e in p.ev:
                if e.k == "errno_store" or e.k == "call" and e.name not in FREE and e.name not in iface.IGNORE and \
                        not e.name.startswith("llvm.") and p.end in ("ret",):
                    cx.fail("delete only releases", e.ins, "%s does more than release: %s" % (iface.pretty(fn), e.name or e.k), p)
    cx.sample("kernel requests: " + "; ".join(sorted(K.sites)))


PROPS = {
    "C24": {"rule": c24, "configs": ["default", "plain", "label", "stats"],
            "thorough": ["light", "nozero", "mte", "bigq"],
            "floor": {"errno on return is errno on entry": 100, "kernel requests on the way": 8, "delete only releases": 20},
            "explain": "Value tracking of errno along every path (loops summarised, their effect on errno found by iteration) "
                       "of free and of every internally locking function it calls: a kernel request that the path does not "
                       "prove successful changes errno, a store of the value read on entry restores it."},
}
