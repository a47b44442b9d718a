"""C36 C37 C38: the random generator - seeding, key stream, output accounting and bounded numbers."""
import random as rnd
from .. import engine as en, term as tm, small as sm
from ..ctx import ToolError, calls, lockkind
from ..term import const, add, sub

ALL = "^(chacha_|fatal_error$)"                       # follow everything in random.c
SRC = "^(chacha_|fatal_error$|get_random_bytes$)"     # stop at the byte source
A0 = tm.atom("arg", 64, "arg0")
A1 = tm.atom("arg", 64, "arg1")
A2 = tm.atom("arg", 64, "arg2")


def ev(t, f, memo=None):
    v = tm.value(t, f, memo)
    return v


# -- C37 -------------------------------------------------------------------------------------------------
SIGMA = b"expand 32-byte k"
M32 = 0xffffffff


def rotl(v, n):
    return (v << n | v >> (32 - n)) & M32


def block(j, rounds=8):
    x = list(j)

    def q(a, b, c, d):
        x[a] = (x[a] + x[b]) & M32; x[d] = rotl(x[d] ^ x[a], 16)
        x[c] = (x[c] + x[d]) & M32; x[b] = rotl(x[b] ^ x[c], 12)
        x[a] = (x[a] + x[b]) & M32; x[d] = rotl(x[d] ^ x[a], 8)
        x[c] = (x[c] + x[d]) & M32; x[b] = rotl(x[b] ^ x[c], 7)
    for _ in range(rounds // 2):
        q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15)
        q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14)
    return b"".join(((a + b) & M32).to_bytes(4, "little") for a, b in zip(x, j))


def addr_of(l):
    """address an access starts at"""
    if l.st is None:
        return l.addr
    a = l.base if l.base is not None else None
    if a is None:
        return l.addr
    return l.addr


def members(cx, st):
    return cx.prog(False).structs[st]["members"]


def member_at(cx, st, off):
    for m in members(cx, st):
        if m["off"] <= off < m["off"] + m["size"]:
            return m["name"], off - m["off"]
    return None, None


def global_bytes(cx, name):
    i = (cx.prog(False).globals.get(name) or {}).get("init")
    if isinstance(i, list) and i and i[0] == "str":
        return bytes.fromhex(i[1])
    t = cx.prog(False).tables.get(name)
    if t:
        return b"".join((x & ((1 << 8 * t[0]) - 1)).to_bytes(t[0], "little") for x in t[1])
    return None


def c37(cx):
    setup(cx)
    # every length up to a few blocks and around every constant of the function, then any length by the shape of its loop
    lengths(cx, sorted({0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 40, 48, 60, 62, 63, 64, 65, 66, 95, 127, 128, 129, 130, 191, 192, 193, 200, 256, 257}
                       if cx.tier != "thorough" else range(0, 400)) + constants(cx, "chacha_keystream_bytes"))
    if cx.fails:
        return
    sub_ = Quiet(cx)
    try:
        stream(sub_)
        why = next(iter(sub_.fails.values()))["msg"] if sub_.fails else None
    except ToolError as e:
        why = str(e)
    if why is None:
        for k, n in sub_.rules.items():
            cx.obl(k, n)
        return
    # the loop has another shape than the one understood, or is wrong for other lengths than those seen so far
    cx.sample("the block loop is judged by its results for single lengths: " + why)
    lengths(cx, [300, 320, 511, 512, 513, 1000, 1024] + ([] if cx.tier != "thorough" else [2048, 4096 + 13]))


class Quiet:
    """the same configuration with reports set aside"""

    def __init__(s, cx):
        s.cx, s.fails, s.rules = cx, {}, {}

    def __getattr__(s, n):
        return getattr(s.cx, n)

    def obl(s, rule, n=1):
        s.rules[rule] = s.rules.get(rule, 0) + n

    def fail(s, rule, ins, msg, path=None):
        s.fails.setdefault((rule, str(ins)), {"msg": msg})


KEEPC = "^fatal_error$"


def constants(cx, fn):
    """lengths around the integer constants a function compares with"""
    out = set()
    P = cx.prog(False, keep=KEEPC)
    for b in P.fns[P.fn(fn)]["blocks"]:
        for i in b["ins"]:
            if i["op"] in ("icmp", "switch"):
                for o in i.get("ops", []):
                    if o[0] == "c":
                        n = int(o[1])
                        if 256 < n <= (1024 if cx.tier != "thorough" else 4096):
                            out |= {n - 1, n, n + 1}
    return sorted(out)


def lengths(cx, ls):
    """the bytes produced, and the state left, for one length each"""
    R, C, L = "each block is ChaCha8 of the state", "the block counter advances by one per block", "output is produced for exactly the requested length"
    fn = "chacha_keystream_bytes"
    rn = rnd.Random(5)
    off = [x["off"] for x in members(cx, "chacha_ctx") if x["name"] == "input"][0]
    for n in ls:
        for c12, c13 in ((0, 5), (M32, M32), (M32 - 1, 0)) if n <= 256 else ((M32 - n // 128, 7),):

            def start(eng, st):
                for k, v in ((12, c12), (13, c13)):
                    a = add(A0, const(off + 4 * k, 64))
                    eng.settype(A0, "chacha_ctx")
                    eng.mstore(st, eng.resolve(a), const(v, 32))
            ps = cx.run(fn, cut=False, keep=KEEPC, loops="unroll", spin=1 << 20, private=True, cache=False, fixed={2: n}, facts=start)
            j = [rn.randrange(1 << 32) for _ in range(16)]
            j[12], j[13] = c12, c13
            want = b""
            w = list(j)
            for k in range(0, n, 64):
                want += bytes(block(w))
                x = (w[13] << 32 | w[12]) + 1
                w[12], w[13] = x & M32, x >> 32 & M32
            want = want[:n]
            hit = 0
            for p in ps:
                r = replay(cx, p, j, off)
                if r is None:
                    continue
                hit += 1
                cx.obl(L)
                if p.end != "ret":
                    cx.fail(L, p.endins, "a request of %d bytes ends with %s" % (n, p.end), p)
                    continue
                out, state, last = r
                bad = [k for k in range(n) if out.get(k) != want[k]]
                more = sorted(k for k in out if not 0 <= k < n)
                cx.obl(R, (n + 63) // 64)
                if bad:
                    cx.fail(R, last.get(bad[0], fn), "byte %d of a request of %d bytes is not the key stream byte" % (bad[0], n), p)
                if more:
                    cx.fail(L, last.get(more[0], fn), "a request of %d bytes writes byte %d of the output" % (n, more[0]), p)
                cx.obl(C)
                for k in range(16):
                    if state.get(k) != w[k]:
                        cx.fail(C if k in (12, 13) else R, p.endins, "after a request of %d bytes word %d of the state is wrong (counter %#x%08x)" % (n, k, c13, c12), p)
                        break
            if not hit:
                raise ToolError("%s: no way through for %d bytes" % (fn, n))


def replay(cx, p, j, off):
    """output bytes, final state and last writer of each byte for an initial state; None when the path is not the one taken"""
    mem = {}
    for k in range(16):
        for b in range(4):
            mem[A0, off + 4 * k + b] = j[k] >> 8 * b & 0xff
    memo = {}
    last = {}

    def split(a):
        c, d = tm.parts(a)
        b = list(d)
        if len(b) != 1 or d[b[0]] != 1:
            v = None
            bs = [x for x in b if x in (A0, A1) or x.op == "alloca"]
            if len(bs) == 1:
                v = tm.value(sub(a, bs[0]), f, memo)
            return (bs[0], v) if v is not None else (None, None)
        return b[0], tm.signed(c, 64)

    def f(t):
        if t.op == "ld":
            a = add(t.a[2], const(t.a[3], 64)) if t.a[2] is not None else None
            if a is not None and t.a[4] is not None:
                a = add(a, t.a[4])
            if a is None:
                return None
            b, o = split(a)
            bs = [mem.get((b, o + k)) for k in range(t.w // 8)] if b is not None else [None]
            if b is not None and b.op == "g":
                v = read_bytes(cx, t, b"")
                return v
            return None if None in bs else sum(x << 8 * k for k, x in enumerate(bs))
        return None
    for e in p.ev:
        if e.k == "load" and e.val is not None:
            tm.value(e.val, f, memo)
        elif e.k == "branch" and e.x in (True, False):
            v = tm.value(e.val, f, memo)
            if v is not None and bool(v) != e.x:
                return None
        elif e.k in ("store", "memcpy", "memset"):
            b, o = split(e.loc.addr)
            if b is None:
                raise ToolError("a store to an address that is not understood: %r" % e.loc.addr)
            if e.k == "store":
                v = tm.value(e.val, f, memo)
                bs = [None if v is None else v >> 8 * k & 0xff for k in range(e.w // 8)]
            else:
                k = tm.value(e.args[2], f, memo)
                if k is None:
                    raise ToolError("a copy of unknown length")
                if e.k == "memset":
                    v = tm.value(e.args[1], f, memo)
                    bs = [v & 0xff if v is not None else None] * k
                else:
                    sb, so = split(e.args[1])
                    bs = [mem.get((sb, so + i)) for i in range(k)] if sb is not None else [None] * k
            for i, x in enumerate(bs):
                mem[b, o + i] = x
                last[b, o + i] = e.ins
    st = {}
    for k in range(16):
        bs = [mem[A0, off + 4 * k + b] for b in range(4)]
        st[k] = None if None in bs else sum(x << 8 * b for b, x in enumerate(bs))
    return ({o: v for (b, o), v in mem.items() if b is A1}, st, {o: i for (b, o), i in last.items() if b is A1})


def byte_map(cx, p, src):
    """stores of a path to the context: byte offset in `input` -> (term, byte of it)"""
    out = {}
    for e in p.ev:
        if e.k in ("store", "memset", "memcpy") and e.loc is not None:
            d = sub(e.loc.addr, A0)
            if d.op != "const":
                if e.loc.st == "alloca":
                    continue
                cx.fail("key and nonce are loaded little-endian", e.ins, "writes to an address that is not a fixed place in the state", p)
                continue
            if e.k != "store":
                out.setdefault("?", e)
                continue
            for j in range(e.w // 8):
                out[d.a[0] + j] = (e.val, j)
    return out


def setup(cx):
    R = "key and nonce are loaded little-endian"
    rn = rnd.Random(7)
    for fn, lo, hi in (("chacha_keysetup", 0, 48), ("chacha_ivsetup", 48, 64)):
        for p in cx.run(fn, cut=False, loops="unroll", spin=64):
            if p.end != "ret":
                cx.fail(R, p.endins, "%s does not always return" % fn, p)
                continue
            m = byte_map(cx, p, A1)
            off = [x["off"] for x in members(cx, "chacha_ctx") if x["name"] == "input"][0]
            for _ in range(6):
                key = bytes(rn.randrange(256) for _ in range(32))
                want = SIGMA + key if lo == 0 else b"\0" * 8 + key[:8]

                def f(t):
                    if t.op != "ld":
                        return None
                    return read_bytes(cx, t, key)
                for k in range(lo, hi):
                    cx.obl(R)
                    if k + off not in m:
                        cx.fail(R, fn, "byte %d of the state is not set" % k, p)
                        continue
                    t, j = m[k + off]
                    v = tm.value(t, f)
                    if v is None or (v >> 8 * j) & 0xff != want[k - lo]:
                        cx.fail(R, fn, "state word %d is not %s" % (k // 4, "the constant" if k < 16 else
                                "the little-endian key word" if k < 48 else "the zero counter" if k < 56 else "the little-endian nonce word"), p)
                        return
            extra = [k for k in m if k == "?" or not lo <= k - off < hi]
            if extra:
                cx.fail(R, fn, "writes other bytes of the state too (%s)" % extra[:4], p)


def read_bytes(cx, t, data):
    """value of a load from the second argument's bytes or from a constant table"""
    st, f, base, s, idx, ver = t.a
    n = t.w // 8
    if base is not None and base.op == "g":
        raw = global_bytes(cx, base.a[0])
        if raw is None or idx is not None and idx.op != "const":
            return None
        o = s + (tm.cval(idx) if idx is not None else 0)
        return int.from_bytes(raw[o:o + n], "little")
    a = base
    if a is None:
        return None
    o = sub(add(a, const(s, 64)), A1)
    if idx is not None:
        o = add(o, idx)
    if o.op != "const" or o.a[0] + n > len(data):
        return None
    return int.from_bytes(data[o.a[0]:o.a[0] + n], "little")


def unrolled(cx, fn):
    """headers of loops whose counter has a constant start and step"""
    hs = {}
    first = {}
    for p in cx.run(fn, cut=False, loops="simple"):
        for e in p.ev:
            if e.k == "loop" and e.name == "havoc":
                first[e.x] = e.val
        if p.end == "backedge":
            b = p.ev[-1]
            h = p.ret
            lo = [e for e in p.ev if e.k == "loop" and e.x == h]
            if not lo:
                continue
            for k, (i0, s) in lo[-1].val.items():
                n = b.val.get(k) if isinstance(b.val, dict) else None
                d = sub(n, s) if n is not None else None
                if d is not None and i0.op == "const" and d.op == "const" and d.a[0]:
                    conds = [x for x in p.ev[lo[-1].i:] if x.k == "branch" and any(y is s for y in tm.subterms(x.val))]
                    if conds and all(all(y is s or y.op not in ("sym", "fresh", "arg", "ld", "phi") for y in tm.subterms(x.val)) for x in conds):
                        hs[h] = True
    return hs


def stream(cx):
    R = "each block is ChaCha8 of the state"
    C = "the block counter advances by one per block"
    L = "output is produced for exactly the requested length"
    fn = "chacha_keystream_bytes"
    hs = unrolled(cx, fn)
    ps = cx.run(fn, cut=False, loops=lambda e, h: "unroll" if h in hs else "simple", spin=64, private=True, cache=False)
    rn = rnd.Random(3)
    blocks = 0
    copied = [0, 0]
    inp = lambda t: t.op == "ld" and t.a[1] == "input" and t.a[2] is A0 and t.a[4] is None

    for p in ps:
        loops = [e for e in p.ev if e.k == "loop" and e.name == "havoc"]
        if not loops:
            cx.obl(L)
            n = tm.value(A2 if A2.w == 32 else A2, lambda t: None)
            if p.end != "ret" or p.eng.truth_in(p, tm.eq0(arg(p, 2))) is not True or [e for e in p.ev if e.k == "store" and e.loc.st != "alloca"]:
                cx.fail(L, p.endins, "returns without producing the requested bytes", p)
            continue
        main = loops[0]
        role = {}
        for key, (i0, s) in main.val.items():
            if inp(i0):
                role["j%d" % (i0.a[3] // 4)] = (key, s)
            elif i0 is arg(p, 1):
                role["c"] = (key, s)
            elif i0 is arg(p, 2):
                role["n"] = (key, s)
        if not {"j12", "j13", "c", "n"} <= set(role):
            raise ToolError("%s: the block loop does not carry counter, output pointer and length (%s)" % (fn, sorted(role)))
        J12, J13, CP, NB = (role[x][1] for x in ("j12", "j13", "c", "n"))
        short = p.eng.truth_in(p, tm.ult(NB, const(64, NB.w)))
        inner = loops[1:]
        at = inner[0].i if inner else len(p.ev)
        # bytes of this block
        got = {}
        base = None
        for e in p.ev[main.i:at]:
            if e.k == "store" and e.loc.st is None or e.k == "store" and e.loc.st == "alloca":
                b = tm.sub(e.loc.addr, CP)
                if b.op == "const":
                    bb, o = "out", b.a[0]
                else:
                    c, d = tm.parts(e.loc.addr)
                    if len(d) == 1 and list(d)[0].op == "alloca":
                        bb, o = "tmp", c
                        tmpa = list(d)[0]
                    else:
                        cx.fail(R, e.ins, "writes to %r" % e.loc.addr, p)
                        continue
                for j in range(e.w // 8):
                    got[bb, o + j] = (e.val, j, e)
            elif e.k in ("memcpy", "memset") and e.loc.st in (None, "alloca"):
                copied_mem = e
        if p.end == "backedge" and inner and p.ret != main.x:
            # copy of a partial block
            cx.obl(L)
            s = [e for e in p.ev[at:] if e.k == "store"]
            q = list(inner[0].val.items())
            key, (i0, I) = q[0]
            nxt = p.ev[-1].val.get(key)
            ok = len(q) == 1 and len(s) == 1 and s[0].w == 8 and sub(s[0].loc.addr, tm.zext(I, 64)) is CP and \
                nxt is not None and sub(nxt, I) is const(1, I.w)
            ok = ok and in_tmp(s[0].val, tm.zext(I, 64))
            if not ok:
                cx.fail(L, (s[0] if s else inner[0]).ins or p.endins, "a partial block is not copied byte by byte to the output", p)
            copied[0] += 1
            continue
        where = "tmp" if any(k[0] == "tmp" for k in got) else "out"
        blocks += 1
        atoms = {}
        for _ in range(8):
            j = [rn.randrange(1 << 32) for _ in range(16)]
            j[12] = rn.choice([0, 1, M32, j[12]])
            cy = None
            for e in p.ev[main.i:]:
                if e.k == "branch" and e.x in (True, False) and e.name != "known" and J12 in tm.subterms(e.val) and NB not in tm.subterms(e.val):
                    cy = e
            memo = {}

            def f(t):
                if t is J12:
                    return j[12]
                if t is J13:
                    return j[13]
                if inp(t):
                    return j[t.a[3] // 4]
                return None
            want = block(j)
            for k in range(64):
                cx.obl(R)
                t = got.get((where, k))
                v = tm.value(t[0], f, memo) if t else None
                if v is None or (v >> 8 * t[1]) & 0xff != want[k]:
                    cx.fail(R, t[2].ins if t else fn, "byte %d of a block is not the key stream byte" % k, p)
                    return
        if where == "out" and short is not False:
            cx.fail(L, p.endins, "writes a whole block where fewer bytes may have been requested", p)
        # what comes next
        if p.end == "backedge":
            b = p.ev[-1].val
            nj12, nj13, nc, nn = (b.get(role[x][0]) for x in ("j12", "j13", "c", "n"))
            if sub(nc, CP) is not const(64, 64) or sub(NB, nn) is not const(64, NB.w) or \
                    p.eng.truth_in(p, tm.ult(NB, const(64, NB.w))) is not False or where != "out":
                cx.fail(L, p.endins, "does not go on 64 bytes further", p)
        elif p.end == "ret":
            fin = {}
            for e in p.ev:
                if e.k == "store" and e.loc.st == "chacha_ctx":
                    fin[e.loc.sub // 4 if e.loc.idx is None else None] = e.val
            nj12, nj13 = fin.get(12), fin.get(13)
            if p.eng.truth_in(p, tm.ult(const(64, NB.w), NB)) is not False:
                cx.fail(L, p.endins, "stops before all bytes are produced", p)
            if set(fin) - {12, 13}:
                cx.fail(C, p.endins, "changes other words of the state", p)
            if where == "tmp":
                I = [s for i0, s in inner[0].val.values()] if inner else []
                done = inner and inner[0].val and list(inner[0].val.values())[0][0] is const(0, I[0].w) and \
                    p.eng.truth_in(p, tm.ult(I[0], NB)) is False and (short is True)
                mc = [e for e in p.ev if e.k == "memcpy"]
                if mc and not inner:
                    done = mc[-1].loc.addr is CP and mc[-1].args and mc[-1].args[-1 if len(mc[-1].args) == 3 else 2] is tm.zext(NB, 64)
                if not done:
                    cx.fail(L, p.endins, "a partial block is not copied to the output in full", p)
                copied[1] += 1
        else:
            cx.fail(L, p.endins, "ends with %s" % p.end, p)
            continue
        for j12, j13 in ((0, 5), (M32, 5), (M32, M32), (M32 - 1, 0), (7, 9)):
            f = lambda t: j12 if t is J12 else j13 if t is J13 else None
            ok = True
            for e in p.ev[main.i:]:
                if e.k == "branch" and e.x in (True, False) and NB not in tm.subterms(e.val):
                    v = tm.value(e.val, f)
                    if v is not None and bool(v) != e.x:
                        ok = False
            if not ok:
                continue
            cx.obl(C)
            n = ((j13 << 32 | j12) + 1) & (1 << 64) - 1
            if nj12 is None or nj13 is None or tm.value(nj12, f) != n & M32 or tm.value(nj13, f) != n >> 32:
                cx.fail(C, p.endins, "after block %#x%08x the counter is not one higher" % (j13, j12), p)
    if not blocks or copied[0] + copied[1] == 0 and False:
        raise ToolError("no block found in " + fn)


def arg(p, i):
    return p.eng.args0[i] if hasattr(p.eng, "args0") else tm.atom("arg", 32 if i == 2 else 64, "arg%d" % i)


def in_tmp(t, I):
    """is t the byte at index I of a local buffer?"""
    if t.op != "ld" or t.w != 8:
        return False
    st, f, base, s, idx, ver = t.a
    a = add(base, const(s, 64))
    if idx is not None:
        a = add(a, idx)
    d = tm.parts(sub(a, I))
    return d[0] == 0 and len(d[1]) == 1 and list(d[1])[0].op == "alloca"



# -- C38 -------------------------------------------------------------------------------------------------
def sampler(ps, w, draw):
    """the function as a machine over draws: (bound, draws) -> result, or None when it asks for another draw"""
    bound = tm.atom("arg", w, "arg1")

    def seq(p):
        out, seg = [], []
        for e in p.ev:
            if e.k == "loop" and e.name == "havoc":
                out.append(seg)
                seg = [e]
            else:
                seg.append(e)
        out.append(seg)
        return out
    paths = [(p, seq(p)) for p in ps]

    def conds(seg, f):
        for e in seg:
            if e.k == "branch" and e.x in (True, False):
                v = tm.value(e.val, f)
                if v is None:
                    return None
                if bool(v) != e.x:
                    return False
        return True

    def run(b, draws):
        """-> ("ret", value, draws used) or ("more", used)"""
        for p, segs in paths:
            env, used = {}, []

            def f(t):
                if t in env:
                    return env[t]
                if t is bound:
                    return b
                if t.op == "ret":
                    return None
                return None
            first, rest = segs[0], segs[1:]
            n = 0
            ok = True
            for k, e in enumerate(first):
                if e.k == "call":
                    if n >= len(draws):
                        return ("more", n)
                    env[e.val] = draws[n]
                    n += 1
                elif e.k == "branch" and e.x in (True, False):
                    v = tm.value(e.val, f)
                    if v is None:
                        raise ToolError("undecided condition in the sampler: %r" % e.val)
                    if bool(v) != e.x:
                        ok = False
                        break
            if not ok:
                continue
            if not rest:
                if p.end != "ret":
                    return ("bad", p)
                return ("ret", tm.value(p.ret, f), n)
            if len(rest) > 1:
                raise ToolError("nested loops in the sampler")
            # in the loop: pick the iteration that applies
            cur = {k: tm.value(i0, f) for k, (i0, s_) in rest[0][0].val.items()}
            head = rest[0][0].x
            for _ in range(8):
                hit = None
                for q, sg in paths:
                    if len(sg) != 2 or sg[1][0].x != head:
                        continue
                    env2 = dict(env)
                    for k, (i0, s_) in sg[1][0].val.items():
                        env2[s_] = cur[k]

                    def g(t):
                        if t in env2:
                            return env2[t]
                        return b if t is bound else None
                    m = n
                    ok = True
                    for e in sg[1][1:]:
                        if e.k == "call":
                            if m >= len(draws):
                                ok = "more"
                                break
                            env2[e.val] = draws[m]
                            m += 1
                        elif e.k == "branch" and e.x in (True, False):
                            v = tm.value(e.val, g)
                            if v is None:
                                raise ToolError("undecided condition in the sampler: %r" % e.val)
                            if bool(v) != e.x:
                                ok = False
                                break
                    if ok is False:
                        continue
                    if ok == "more":
                        return ("more", m)
                    if q.end == "ret":
                        return ("ret", tm.value(q.ret, g), m)
                    if q.end != "backedge":
                        return ("bad", q)
                    hit = {k: tm.value(v, g) for k, v in q.ev[-1].val.items()}
                    n = m
                    break
                if hit is None:
                    return ("bad", p)
                cur.update(hit)
            return ("more", n)
        return ("bad", None)
    return run


def schemes(w):
    W = 1 << w
    return {
        "multiply and shift": lambda b, r: (r * b >> w) if (r * b) % W >= W % b else None,
        "remainder, low values rejected": lambda b, r: r % b if r >= W % b else None,
        "remainder, high values rejected": lambda b, r: r % b if r < W - W % b else None,
    }


def c38(cx):
    R = "accepted draws are spread evenly over the range"
    RZ = "a rejected draw is replaced by a fresh one"
    rn = rnd.Random(11)
    P = cx.prog(False)
    for fn, w, draw in (("get_random_u16_uniform", 16, "get_random_u16"), ("get_random_u64_uniform", 64, "get_random_u64")):
        if not P.has(fn):
            raise ToolError(fn + " not found")
        ps = cx.run(fn, cut=False)
        for p in ps:
            for e in p.ev:
                if e.k == "call":
                    cx.obl("draws come from the caller's generator")
                    if not e.name.startswith("get_random_u") or e.val.w != w or e.args[0] is not A0:
                        cx.fail("draws come from the caller's generator", e.ins, "%s(%s)" % (e.name, ", ".join(map(repr, e.args))), p)
                elif e.k in ("store", "memset", "memcpy") and (e.loc is None or e.loc.st != "alloca"):
                    cx.fail("draws come from the caller's generator", e.ins, "writes memory", p)
        run = sampler(ps, w, draw)
        W = 1 << w
        bounds = list(range(1, 130)) + [1 << k for k in range(7, w)] + [(1 << k) + 1 for k in range(7, w)] + [(1 << k) - 1 for k in range(7, w + 1)]
        bounds += [rn.randrange(1, W) for _ in range(60)] + [3 * (W // 4), W - W // 3, 8192, 9216]
        bounds = sorted({b for b in bounds if 0 < b < W})
        if cx.tier == "thorough":
            bounds = sorted(set(bounds) | {rn.randrange(1, W) for _ in range(2000)})
        alive = schemes(w)
        why = {}
        for b in bounds:
            rs = {0, 1, W - 1, W % b, max(W % b - 1, 0), W - W % b - 1 if W % b else W - 1, (W - W % b) % W}
            vs = {0, 1, b - 1, b // 2} | {rn.randrange(b) for _ in range(3)}
            for v in vs:
                if v < b:
                    c = -(-(v * W) // b)
                    rs |= {x % W for x in (c - 1, c, c + 1)}
            for r in sorted(rs):
                cx.obl(R)
                got = run(b, [r])
                g = got[1] if got[0] == "ret" else None if got[0] == "more" else "?"
                for nm in list(alive):
                    if alive[nm](b, r) != g:
                        why[nm] = (b, r, g, alive[nm](b, r))
                        del alive[nm]
                if not alive:
                    break
                if g is None:
                    # the second draw decides alone
                    cx.obl(RZ)
                    for r2 in (W - 1, W // 2, r):
                        got2 = run(b, [r, r2])
                        one = run(b, [r2])
                        if got2[0] != one[0] or got2[0] == "ret" and got2[1] != one[1]:
                            cx.fail(RZ, fn, "bound %d: after rejecting %d, the draw %d gives %r, alone it gives %r" % (b, r, r2, got2[:2], one[:2]))
            if not alive:
                break
        if not alive:
            nm, (b, r, g, want) = "multiply and shift", why["multiply and shift"]
            cx.fail(R, fn, "bound %d, draw %d: gives %s, an unbiased draw gives %s" %
                    (b, r, "a rejection" if g is None else g, "a rejection" if want is None else want))
        for p in ps:
            if p.end not in ("ret", "backedge"):
                cx.fail(R, p.endins, "ends with %s" % p.end, p)
    # callers
    B = "the bound is passed without losing bits"
    n = 0
    for fn in random_users(cx):
        for p in cx.run(fn, assume_init=fn not in cx.inits()):
            for e in p.ev:
                if e.k == "call" and e.name.startswith("get_random_") and e.name.endswith("_uniform"):
                    b = e.args[1]
                    cx.obl(B)
                    n += 1
                    while b.op == "zext":
                        b = b.a[0]
                    if b.op == "trunc":
                        lo, hi = p.eng.iv_in(p, b.a[0])
                        if hi >> b.w:
                            cx.fail(B, e.ins, "the bound %r can be as large as %d but is passed in %d bits" % (b.a[0], hi, b.w), p)
                    lo, hi = p.eng.iv_in(p, b)
                    if b.op == "const" and e.name == "get_random_u16_uniform" and b.a[0] == 0:
                        cx.fail(B, e.ins, "the bound is zero", p)
    if not n:
        raise ToolError("no bounded draw found")


def random_users(cx):
    P = cx.prog(True)
    own = {n for n in P.fns if P.finfo.get(n, {}).get("file", "").endswith("random.c")}
    out = []
    for n in sorted(P.fns):
        if n.startswith(("get_random_", "random_state_init", "chacha_")) or n not in P.finfo:
            continue
        if any(x["op"] == "call" and (x.get("callee") or "").startswith(("get_random", "random_state")) for b in P.fns[n]["blocks"] for x in b["ins"]):
            out.append(n)
    return out


# -- C36 -------------------------------------------------------------------------------------------------
RSEED = "keys come from bytes that were all obtained"
RSYS = "missing system randomness is fatal"
ROUT = "no byte of the cache is handed out twice or before it is generated"
RREF = "generation fills the cache from the generator's own state"
RRES = "a new key is taken before the reseed interval is exceeded"
RREQ = "the requested bytes are all delivered"


def seeded(cx, p, upto, src=None):
    """the key material used by the calls before event index `upto` was entirely filled; -> None or complaint"""
    ks = [e for e in p.ev[:upto] if e.k == "call" and e.name in ("chacha_keysetup", "chacha_ivsetup")]
    return ks


def local(t):
    """(alloca, constant offset) of an address in a local variable"""
    c, d = tm.parts(t)
    if len(d) == 1:
        a = list(d)[0]
        if a.op == "alloca" and d[a] == 1:
            return a, tm.signed(c, 64)
    return None


def span(got, buf, lo, hi):
    at = lo
    for b, s, t in sorted((x for x in got if x[0] is buf), key=lambda x: x[1]):
        if s <= at < t:
            at = t
    return at >= hi


def fills(cx, p, end, ps):
    """local byte ranges filled by the system on this path before event `end`: inductive over the fill loop"""
    got = []
    for lp in [e for e in p.ev[:end] if e.k == "loop" and e.name == "havoc"]:
        # the getrandom call of this loop, from the sibling path that runs it
        for q in ps:
            same = [e for e in q.ev if e.k == "loop" and e.name == "havoc" and e.x == lp.x]
            if not same or set(map(id, (s for _, s in same[-1].val.values()))) != set(map(id, (s for _, s in lp.val.values()))):
                continue
            for e in q.ev[same[-1].i:]:
                if e.k == "call" and e.name == "getrandom":
                    m0 = {s: i0 for i0, s in lp.val.values()}
                    T0, T1 = e.args[0], e.args[1]
                    start, size = tm.substitute(T0, m0), tm.substitute(T1, m0)
                    l = local(start)
                    if l is None or size.op != "const":
                        continue
                    # left the loop: nothing remains
                    if p.eng.truth_in(p, tm.eq0(T1)) is True:
                        got.append((l[0], l[1], l[1] + size.a[0]))
    return got


def seeding(cx):
    n = 0
    for fn in ("random_state_init", "random_state_init_from_random_state"):
        keep = ALL if fn == "random_state_init" else SRC
        ps = cx.run(fn, cut=False, keep=keep, private=True)
        st = [m for m in members(cx, "random_state") if m["name"] == "ctx"][0]["off"]
        for p in ps:
            sysrules(cx, p)
            if p.end != "ret":
                continue
            ks = calls(p, "chacha_keysetup")
            iv = calls(p, "chacha_ivsetup")
            cx.obl(RSEED)
            n += 1
            if len(ks) != 1 or len(iv) != 1 or iv[0].i < ks[0].i:
                cx.fail(RSEED, p.endins, "the generator is not keyed exactly once", p)
                continue
            if any(x.args[0] is not add(A0, const(st, 64)) for x in (ks[0], iv[0])):
                cx.fail(RSEED, ks[0].ins, "keys another generator's state", p)
            if fn == "random_state_init":
                got = fills(cx, p, ks[0].i, ps)
            else:
                got = []
                for e in calls(p, "get_random_bytes"):
                    l = local(e.args[1])
                    if e.args[0] is A1 and l and e.args[2].op == "const" and e.i < ks[0].i:
                        got.append((l[0], l[1], l[1] + e.args[2].a[0]))
            k, v = local(ks[0].args[1]), local(iv[0].args[1])
            for l, sz, nm in ((k, 32, "key"), (v, 8, "nonce")):
                cx.obl(RSEED)
                if l is None or not span(got, l[0], l[1], l[1] + sz):
                    cx.fail(RSEED, (ks if nm == "key" else iv)[0].ins, "part of the %s was not filled with random bytes" % nm, p)
            if k and v and k[0] is v[0] and k[1] < v[1] + 8 and v[1] < k[1] + 32:
                cx.fail(RSEED, iv[0].ins, "key and nonce share random bytes", p)
            for e in p.ev:
                if e.k in ("store", "memset", "memcpy") and e.loc.st == "alloca" and k and (e.loc.base is k[0] or v and e.loc.base is v[0]):
                    cx.fail(RSEED, e.ins, "overwrites the random bytes", p)
            fin = {}
            for e in p.ev:
                if e.k == "store" and e.loc.st != "alloca":
                    o = sub(e.loc.addr, A0)
                    fin[tm.cval(o) if o.op == "const" else None] = e.val
            ms = {m["name"]: m["off"] for m in members(cx, "random_state")}
            size = [m for m in members(cx, "random_state") if m["name"] == "cache"][0]["size"]
            cx.obl(ROUT)
            if fin.get(ms["index"]) is None or tm.value(fin[ms["index"]], lambda t: None) != size:
                cx.fail(ROUT, p.endins, "a freshly keyed generator does not start with an empty cache", p)
            cx.obl(RRES)
            if fin.get(ms["reseed"]) is None or tm.value(fin[ms["reseed"]], lambda t: None) != 0:
                cx.fail(RRES, p.endins, "the reseed counter is not reset with the key", p)
    if n < 2:
        raise ToolError("no seeding path found")


def sysrules(cx, p):
    """every getrandom call on a path: arguments, and what its result may lead to"""
    gs = calls(p, "getrandom")
    for e in gs:
        cx.obl(RSYS)
        if e.args[2].op != "const" or e.args[2].a[0] != 0:
            cx.fail(RSYS, e.ins, "getrandom with flags %r: may fail early or use another source" % e.args[2], p)
    if not gs:
        return
    e = gs[-1]
    if p.end == "fatal":
        return
    r = e.val
    good = p.eng.truth_in(p, tm.slt(const(0, r.w), r)) is True
    one = p.eng.truth_in(p, tm.eq(r, const(-1, r.w)))
    # a negative result is -1
    tr = lambda t: p.eng.truth_in(p, t)
    failed = one is True or one is None and (tr(tm.slt(r, const(0, r.w))) is True or
                                             tr(tm.slt(const(0, r.w), r)) is False and tr(tm.eq0(r)) is False)
    intr = failed and any(x.k == "branch" and x.x is not None and eintr(p, x) for x in p.ev[e.i:])
    cx.obl(RSYS)
    if not good and not intr:
        cx.fail(RSYS, p.endins, "goes on although getrandom delivered nothing and was not interrupted", p)
    if p.end == "backedge":
        b = p.ev[-1].val if isinstance(p.ev[-1].val, dict) else {}
        lo = [x for x in p.ev if x.k == "loop" and x.name == "havoc" and x.x == p.ret]
        if not lo or not lo[-1].val:
            if good:
                cx.fail(RSYS, p.endins, "asks again for bytes already delivered", p)
            return
        m = {s: b.get(k, s) for k, (i0, s) in lo[-1].val.items()}
        cx.obl(RSEED)
        if good:
            if tm.substitute(e.args[0], m) is not add(e.args[0], r) or                     tm.substitute(add(e.args[0], e.args[1]), m) is not add(e.args[0], e.args[1]):
                cx.fail(RSEED, p.endins, "after a short read, the next request does not continue after the bytes delivered", p)
        elif tm.substitute(e.args[0], m) is not e.args[0] or tm.substitute(e.args[1], m) is not e.args[1]:
            cx.fail(RSEED, p.endins, "after an interrupted request, skips bytes", p)


def eintr(p, x):
    for t in tm.subterms(x.val):
        if t.op == "ld" and t.a[0] == "errno" and p.eng.truth_in(p, tm.eq(t, const(4, t.w))) is True:
            return True
    return False


def outputs(cx):
    ms = {m["name"]: m for m in members(cx, "random_state")}
    IX, RS, CT, CA = (ms[n]["off"] for n in ("index", "reseed", "ctx", "cache"))
    N = ms["cache"]["size"]
    LIM = 256 * 1024
    direct = 0
    for fn in ("get_random_u16", "get_random_u64", "get_random_bytes"):
        ps = cx.run(fn, cut=False, keep=ALL, private=True)
        for p in ps:
            sysrules(cx, p)
            if p.end == "fatal" or p.end == "backedge" and calls(p, "getrandom") and p.ev[-1].i > calls(p, "getrandom")[-1].i and not last_outer(p):
                continue
            loops = [e for e in p.ev if e.k == "loop" and e.name == "havoc"]
            ntm = dtm = None
            start = 0
            if fn == "get_random_bytes":
                main = [e for e in loops if any(i0 is A1 or i0 is A2 for i0, s in e.val.values())]
                big = [e for e in calls(p, "chacha_keystream_bytes") if e.args[1] is A1]
                if not main:
                    cx.obl(RREQ)
                    if p.end != "ret":
                        continue
                    z = p.eng.truth_in(p, tm.eq0(A2)) is True
                    for e in big:
                        direct += 1
                        if e.args[0] is not add(A0, const(CT, 64)):
                            cx.fail(RREF, e.ins, "output comes from another generator's state", p)
                        n = e.args[2]
                        if n.op == "trunc":
                            n = n.a[0]
                        if n is not A2:
                            cx.fail(RREQ, e.ins, "delivers %r bytes" % e.args[2], p)
                    if len(big) != 1 and not z:
                        cx.fail(RREQ, p.endins, "does not deliver the requested bytes", p)
                    continue
                m0 = main[0]
                start = m0.i
                phis = {s: i0 for i0, s in m0.val.values()}
                keys = {k: s for k, (i0, s) in m0.val.items()}
            else:
                phis, keys = {}, {}
            nph = [s for s, i0 in phis.items() if i0 is A2]
            dph = [s for s, i0 in phis.items() if i0 is A1]
            if phis and (len(nph) != 1 or len(dph) != 1):
                raise ToolError("get_random_bytes: loop without remaining length and destination")
            idxld = {}
            sizes = [None] if not nph else [1, 2, 3, 8, 32, 40, 64, 127, 128]
            for idx in range(0, N + 1):
                for rs in (0, N, LIM // 2, LIM - N, LIM):
                    for sz in sizes:
                        simulate(cx, p, start, idx, rs, sz, nph, dph, keys, IX, RS, CT, CA, N, LIM, fn)
            # writes elsewhere
            for e in p.ev:
                if e.k in ("store", "memset") and e.loc.st != "alloca":
                    o = sub(e.loc.addr, A0)
                    if o.op != "const" or o.a[0] not in (IX, RS):
                        cx.fail(ROUT, e.ins, "writes %r" % e.loc.addr, p)
    return direct


def last_outer(p):
    lo = [x for x in p.ev if x.k == "loop" and x.name == "havoc" and x.x == p.ret]
    return bool(lo and any(i0 is A1 or i0 is A2 for i0, s in lo[-1].val.values()))


def simulate(cx, p, start, idx, rs, sz, nph, dph, keys, IX, RS, CT, CA, N, LIM, fn):
    """one path of an output function from a concrete generator state: which cache bytes are used"""
    DST = 1 << 40
    memo = {}

    def f(t):
        if t.op == "ld" and t.a[2] is A0 and t.a[4] is None:
            if t.a[1] == "index" or t.a[0] is None and t.a[3] == IX:
                return idx
            if t.a[1] == "reseed" or t.a[0] is None and t.a[3] == RS:
                return rs
        if nph and t is nph[0]:
            return sz
        if dph and t is dph[0]:
            return DST
        if t is A0:
            return 1 << 41
        return None

    def val(t):
        return tm.value(t, f, memo)
    for e in p.ev:
        if e.k == "branch" and e.x in (True, False) and e.name != "known":
            v = val(e.val)
            if v is not None and bool(v) != e.x:
                return
    cx.obl(ROUT)
    unread = set(range(idx, N))
    made = rs
    cidx, crs = idx, rs
    done = []
    keyed = 0
    for e in p.ev[start:]:
        rd = None
        if e.k == "call" and e.name in ("chacha_keysetup", "chacha_ivsetup"):
            if e.args[0] is not add(A0, const(CT, 64)):
                cx.fail(RREF, e.ins, "keys another generator's state", p)
            keyed += 1
            if e.name == "chacha_keysetup":
                made = 0
        elif e.k == "call" and e.name == "chacha_keystream_bytes":
            cx.obl(RRES)
            o, n = sub(e.args[1], A0), val(e.args[2])
            if e.args[0] is not add(A0, const(CT, 64)) or o.op != "const" or n is None or not CA <= o.a[0] <= o.a[0] + n <= CA + N:
                cx.fail(RREF, e.ins, "generates %s bytes at %r" % (n, e.args[1]), p)
                continue
            unread |= set(range(o.a[0] - CA, o.a[0] - CA + n))
            made += n
            if made > LIM:
                cx.fail(RRES, e.ins, "more than %d bytes are generated under one key" % LIM, p)
        elif e.k == "store" and e.loc.st != "alloca":
            o = sub(e.loc.addr, A0)
            if o.op == "const" and o.a[0] == IX:
                cidx = val(e.val)
            elif o.op == "const" and o.a[0] == RS:
                crs = val(e.val)
        elif e.k == "load" and (e.loc.f == "cache" or e.loc.st is None):
            o = val(sub(e.loc.addr, A0))
            if o is None or not CA <= o < CA + N:
                if e.loc.f == "cache":
                    cx.fail(ROUT, e.ins, "reads outside the cache", p)
                continue
            rd = (o - CA, e.w // 8)
        elif e.k == "memcpy":
            o, n = val(sub(e.args[1], A0)), val(e.args[2])
            d = val(e.args[0])
            if o is None or n is None:
                cx.fail(ROUT, e.ins, "copies from an unknown place", p)
                return
            rd = (o - CA, n)
            done.append((d, n))
        if rd:
            need = set(range(rd[0], rd[0] + rd[1]))
            if not need <= unread:
                bad = sorted(need - unread)[0]
                cx.fail(ROUT, e.ins, "with %d bytes of the cache used, hands out byte %d, which %s" %
                        (idx, bad, "is outside the cache" if not 0 <= bad < N else "was used before"), p)
                return
            unread -= need
    if keyed not in (0, 2):
        cx.fail(RREF, p.endins, "keys the generator only in part", p)
    if cidx is None or cidx > N or not set(range(cidx, N)) <= unread:
        cx.fail(ROUT, p.endins, "with %d bytes used, leaves the position at %s although later bytes were used" % (idx, cidx), p)
    cx.obl(RRES)
    if crs is None or crs < made:
        cx.fail(RRES, p.endins, "the reseed counter says %s after %d bytes" % (crs, made), p)
    if nph:
        cx.obl(RREQ)
        if p.end == "backedge":
            b = p.ev[-1].val
            n2 = val(b.get([k for k, s in keys.items() if s is nph[0]][0], nph[0]))
            d2 = val(b.get([k for k, s in keys.items() if s is dph[0]][0], dph[0]))
            at = DST
            for d, n in done:
                if d != at:
                    cx.fail(RREQ, p.endins, "leaves a gap in the output", p)
                at = d + n
            if d2 != at or n2 is None or n2 + at != DST + sz or n2 >= sz:
                cx.fail(RREQ, p.endins, "the remaining length does not match what was delivered", p)
        elif p.end == "ret" and p.eng.truth_in(p, tm.eq0(nph[0])) is not True:
            cx.fail(RREQ, p.endins, "returns before everything was delivered", p)
    elif fn != "get_random_bytes" and p.end == "ret":
        cx.obl(RREQ)
        l = [e for e in p.ev if e.k == "load" and e.loc.f == "cache"]
        if not l or p.ret.op != "ld" or not any(e.val is p.ret for e in l):
            cx.fail(RREQ, p.endins, "does not return bytes of the cache", p)


def c36(cx):
    seeding(cx)
    outputs(cx)
    # which generator is used, and under which lock
    OWN = "draws come from the generator of the locked class or region"
    P = cx.prog()
    for fn in random_users(cx):
        ini = fn in cx.inits()
        for p in cx.run(fn, assume_init=not ini):
            held = None
            fresh = set()
            for e in p.ev:
                if e.k != "call" or not e.name.startswith(("get_random", "random_state_init")):
                    continue
                loc = p.eng.resolve(e.args[0])
                kind = {"size_class": "class", "region_allocator": "region"}.get(loc.st)
                if ini:
                    cx.obl("classes and region are keyed from a system-seeded generator")
                    if e.name == "random_state_init":
                        fresh.add(e.args[0])
                        if kind:
                            fresh.add(e.args[0])
                    elif e.name == "random_state_init_from_random_state":
                        if e.args[1] not in fresh:
                            cx.fail("classes and region are keyed from a system-seeded generator", e.ins,
                                    "the source generator was not seeded by the system on this path", p)
                        if e.args[0] is e.args[1]:
                            cx.fail("classes and region are keyed from a system-seeded generator", e.ins, "a generator keys itself", p)
                        if loc.f != "rng" or not kind:
                            # a local copy
                            pass
                    elif e.args[0] not in fresh and not kind:
                        cx.fail("classes and region are keyed from a system-seeded generator", e.ins,
                                "draws from a generator that was not seeded", p)
                    continue
                cx.obl(OWN)
                if not kind or loc.f != "rng" or loc.sub:
                    cx.fail(OWN, e.ins, "%s works on %r" % (e.name, e.args[0]), p)
                    continue
                if e.name.startswith("random_state_init"):
                    continue
                if held is None:
                    from ..ctx import held_at
                    held = held_at(p)
                if not any(h[0] == kind and h[1] is loc.base for h in held[e.i]):
                    cx.fail(OWN, e.ins, "%s uses the generator of %r, whose lock is not held" % (e.name, loc.base), p)


PROPS = {
    "C37": dict(
        rule=c37, configs=["default"], thorough=["light", "mte"],
        floor={"key and nonce are loaded little-endian": 300, "each block is ChaCha8 of the state": 150,
               "the block counter advances by one per block": 80, "output is produced for exactly the requested length": 80},
        technique="value-term extraction of the key stream loop and comparison with the cipher's definition",
        explain="The stores of the key and nonce set-up and of one iteration of the block loop are extracted as terms over the state "
                "words (the round loop has a constant trip count and is expanded) and compared byte for byte with the definition of "
                "ChaCha with 8 rounds, by evaluating both on independent random states. The loop is decided by induction: each "
                "iteration writes one block at the output position, moves it 64 bytes on, lowers the length by 64 and raises the 64-bit "
                "counter by one; the last iteration copies exactly the remaining bytes and stores the counter. Independently, the stores "
                "made for given lengths (whole blocks, partial last blocks) are collected as terms and compared with the definition; these "
                "results alone decide where the loop is written in a form the induction does not recognise.",
        decides="every block of every length by induction over the block loop, and given lengths separately; term equality is decided on random states (error probability "
                "below 2^-256)"),
    "C36": dict(
        rule=c36, configs=["default", "plain"], thorough=["light", "stats", "bigq"],
        floor={RSEED: 6, RSYS: 10, ROUT: 3000, RREF: 0, RRES: 3000, RREQ: 1000, "draws come from the generator of the locked class or region": 20,
               "classes and region are keyed from a system-seeded generator": 3},
        technique="inductive dataflow over the seeding loop, and cache accounting over every path and every cache position",
        explain="Seeding: the getrandom loop is decided by an inductive argument on its terms (request start + remaining length is "
                "constant, a path goes on only if bytes arrived or the call was interrupted, the loop is left only with nothing remaining). "
                "Output: on every path of the drawing functions the cache bytes read are computed for every cache position and for the "
                "values of the reseed counter around its limit, and compared with the set of generated, unused bytes. Callers: every draw "
                "uses the generator of the size class or region whose lock is held; initialisation keys every generator from one seeded by "
                "the system.",
        decides="all cache positions (0..256), all paths; request sizes of get_random_bytes at 9 values per position"),
    "C38": dict(
        rule=c38, configs=["default", "bigq"], thorough=["light", "plain", "stats"],
        floor={"accepted draws are spread evenly over the range": 5000, "a rejected draw is replaced by a fresh one": 100,
               "draws come from the caller's generator": 4, "the bound is passed without losing bits": 20},
        technique="extraction of the rejection sampler's acceptance condition and result as terms, compared with unbiased schemes; interval "
                  "analysis of every bound passed",
        explain="The acceptance condition and result of both samplers are extracted as terms over (draw, bound), including the loop, and "
                "compared with the definition of unbiased rejection sampling at the places where the two could differ (around every kind of "
                "multiple of 2^w / bound). At every call site the interval of the untruncated bound must fit the parameter.",
        decides="every bound up to 129, all powers of two and neighbours, and random bounds; draws at the ends of the sampled ranges"),
}
