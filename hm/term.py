"""Value terms: hash-consed, linear normal form modulo 2^w, with interval bounds.

Shifts, masks and divisions by powers of two are all expressed through one primitive (shr), so
`index % 64`, `index & 63` and `index - index / 64 * 64` are the same term.  There is no solver:
equality is identity of normal forms, order is decided by intervals.
"""


class T:
    __slots__ = ("op", "w", "a", "id", "iv")

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, m):
        return self


_tab = {}
_names = [0]


def _mk(op, w, a, iv=None):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.w, t.a = op, w, a
        t.id = len(_tab)
        t.iv = iv if iv is not None else (0, (1 << w) - 1 if w else 0)
        _tab[k] = t
    return t


def const(c, w):
    c &= (1 << w) - 1
    return _mk("const", w, (c,), (c, c))


TRUE = const(1, 1)
FALSE = const(0, 1)


def isconst(t):
    return t.op == "const"


def cval(t):
    return t.a[0]


def sval(t):
    c = t.a[0]
    return c - (1 << t.w) if c >> (t.w - 1) else c


def atom(op, w, *a, iv=None):
    return _mk(op, w, a, iv)


def fresh(name, w, iv=None):
    _names[0] += 1
    return _mk("sym", w, (name, _names[0]), iv)


def parts(t):
    """-> (const, {atom: coef})"""
    if t.op == "const":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def lin(w, c, d):
    m = (1 << w) - 1
    c &= m
    items = tuple(sorted(((x, k & m) for x, k in d.items() if k & m), key=lambda p: p[0].id))
    if not items:
        return const(c, w)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk("lin", w, (c, items))


def add(x, y, sy=1):
    if x.op == "const" and y.op == "const":
        return const(x.a[0] + sy * y.a[0], x.w)
    cx, dx = parts(x)
    cy, dy = parts(y)
    for k, v in dy.items():
        dx[k] = dx.get(k, 0) + sy * v
    return lin(x.w, cx + sy * cy, dx)


def sub(x, y):
    if x is y:
        return const(0, x.w)
    return add(x, y, -1)


def mulc(x, k):
    if k == 1:
        return x
    c, d = parts(x)
    return lin(x.w, c * k, {a: v * k for a, v in d.items()})


def mul(x, y):
    if x.op == "const":
        return mulc(y, x.a[0])
    if y.op == "const":
        return mulc(x, y.a[0])
    # x * (1 << n) is a shift
    if x.id > y.id:
        x, y = y, x
    return atom("mul", x.w, x, y)


def signed(c, w):
    return c - (1 << w) if c >> (w - 1) else c


def iv_lin(t, ivf):
    """interval of a linear term from the intervals of its atoms; None if it may wrap"""
    w = t.w
    c, d = parts(t)
    lo = hi = c
    items = dict(d)
    # x - 2^k*shr(x,k) and x - c*udiv(x,c) are remainders
    for a in list(items):
        if a not in items or a.op not in ("shr", "udiv"):
            continue
        x = a.a[0]
        if a.op == "udiv" and a.a[1].op != "const":
            continue
        m = (1 << a.a[1]) if a.op == "shr" else a.a[1].a[0]
        co = signed(items[a], w)
        if co >= 0 or (-co) % m:
            continue
        s = -co // m
        xc, xd = parts(x)
        # need s*x to be contained in the rest
        ok = all(x2 in items and signed(items[x2], w) == s * signed(k2, w) for x2, k2 in xd.items())
        if not ok:
            continue
        for x2 in xd:
            del items[x2]
        del items[a]
        lo -= s * xc
        hi -= s * xc
        xl, xh = ivf(x)
        if xl // m == xh // m:
            lo += s * (xl % m)
            hi += s * (xh % m)
        else:
            hi += s * (m - 1)
    if lo < 0 or lo >> w:
        # constant part counted modulo 2^w
        r = lo & ((1 << w) - 1)
        hi += r - lo
        lo = r
    base_lo, base_hi = lo, hi
    best = None
    for clo in (base_lo, base_lo - (1 << w)):
        lo, hi = clo, base_hi + (clo - base_lo)
        for a, k in items.items():
            k = signed(k, w)
            l, h = ivf(a)
            if k >= 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        if lo >= 0 and hi < (1 << w):
            return lo, hi
    return best


def exact(t, ivf):
    """(constant, {atom: coefficient}) as integers whose sum is the value of t without wrapping; None if not known"""
    w = t.w
    r = iv_lin(t, ivf)
    if r is None:
        return None
    c, d = parts(t)
    c = signed(c, w)
    d = {a: signed(v, w) for a, v in d.items()}
    hi = c + sum(v * ivf(a)[1 if v >= 0 else 0] for a, v in d.items())
    if hi < 0:
        return c + (1 << w), d
    if c >= 0 or r[1] < 1 << (w - 1):
        return c, d
    return None


def iv0(t):
    """static interval"""
    if t.op == "lin":
        r = iv_lin(t, iv0)
        return r if r else (0, (1 << t.w) - 1)
    return t.iv


def shr(x, k):
    w = x.w
    if k == 0:
        return x
    if k >= w:
        return const(0, w)
    if x.op == "const":
        return const(x.a[0] >> k, w)
    if x.op == "shr":
        return shr(x.a[0], x.a[1] + k)
    lo, hi = iv0(x)
    if hi >> k == lo >> k:
        return const(lo >> k, w)
    c, d = parts(x)
    m = (1 << k) - 1
    if x.op == "lin" and not (c & m) and all(not (v & m) for v in d.values()):
        ex = exact(x, iv0)
        if ex:
            return lin(w, ex[0] >> k, {a: v >> k for a, v in ex[1].items()})
    return atom("shr", w, x, k, iv=(lo >> k, hi >> k))


def low(x, k):
    if k >= x.w:
        return x
    return sub(x, mulc(shr(x, k), 1 << k))


def andc(x, m):
    """x & constant"""
    w = x.w
    m &= (1 << w) - 1
    if x.op == "const":
        return const(x.a[0] & m, w)
    runs = []
    i = 0
    while i < w:
        if m >> i & 1:
            j = i
            while j < w and m >> j & 1:
                j += 1
            runs.append((i, j))
            i = j
        else:
            i += 1
    if len(runs) > 6:
        return atom("and", w, x, const(m, w), iv=(0, min(m, iv0(x)[1])))
    r = const(0, w)
    for a, b in runs:
        r = add(r, mulc(shr(x, a), 1 << a))
        if b < w:
            r = sub(r, mulc(shr(x, b), 1 << b))
    return r


def and_(x, y):
    if x.op == "const":
        return andc(y, x.a[0])
    if y.op == "const":
        return andc(x, y.a[0])
    if x is y:
        return x
    if x.w == 1:
        if x.op == "not" and x.a[0] is y or y.op == "not" and y.a[0] is x:
            return FALSE
    if x.id > y.id:
        x, y = y, x
    return atom("and", x.w, x, y, iv=(0, min(iv0(x)[1], iv0(y)[1])))


def or_(x, y):
    if x is y:
        return x
    if x.w == 1:
        if x.op == "const":
            return TRUE if x.a[0] else y
        if y.op == "const":
            return TRUE if y.a[0] else x
    if x.op == "const" and x.a[0] == 0:
        return y
    if y.op == "const" and y.a[0] == 0:
        return x
    if x.op == "const" and x.a[0] == (1 << x.w) - 1:
        return x
    if y.op == "const" and y.a[0] == (1 << x.w) - 1:
        return y
    if x.op == "const":
        x, y = y, x
    if y.op == "const":
        return sub(add(x, y), andc(x, y.a[0]))
    if x.id > y.id:
        x, y = y, x
    return atom("or", x.w, x, y)


def xor(x, y):
    if x is y:
        return const(0, x.w)
    if x.w == 1:
        if x.op == "const":
            return not_(y) if x.a[0] else y
        if y.op == "const":
            return not_(x) if y.a[0] else x
    if x.op == "const":
        x, y = y, x
    if y.op == "const":
        if y.a[0] == (1 << x.w) - 1:
            return sub(y, x)
        return sub(add(x, y), mulc(andc(x, y.a[0]), 2))
    if x.id > y.id:
        x, y = y, x
    return atom("xor", x.w, x, y)


def shl(x, n):
    if n.op == "const":
        k = n.a[0]
        return mulc(x, 1 << k) if k < x.w else const(0, x.w)
    return atom("shl", x.w, x, n)


def lshr(x, n):
    if n.op == "const":
        return shr(x, n.a[0])
    return atom("lshr", x.w, x, n, iv=(0, iv0(x)[1]))


def ashr(x, n):
    if iv0(x)[1] < 1 << (x.w - 1):
        return lshr(x, n)
    if n.op == "const" and x.op == "const":
        return const(sval(x) >> n.a[0], x.w)
    return atom("ashr", x.w, x, n)


def udiv(x, y):
    if y.op == "const":
        c = y.a[0]
        if c and c & (c - 1) == 0:
            return shr(x, c.bit_length() - 1)
        if x.op == "const" and c:
            return const(x.a[0] // c, x.w)
        if c:
            lo, hi = iv0(x)
            if lo // c == hi // c:
                return const(lo // c, x.w)
            return atom("udiv", x.w, x, y, iv=(lo // c, hi // c))
    return atom("udiv", x.w, x, y, iv=(0, iv0(x)[1]))


def urem(x, y):
    return sub(x, mul(udiv(x, y), y))


def zext(x, w):
    if x.w == w:
        return x
    if x.op == "const":
        return const(x.a[0], w)
    if x.op == "zext":
        return zext(x.a[0], w)
    if x.op == "trunc" and x.a[0].w == w and iv0(x.a[0])[1] < 1 << x.w:
        return x.a[0]
    if x.op == "lin":
        ex = exact(x, iv0)
        if ex:
            r = const(ex[0], w)
            for a, k in ex[1].items():
                r = add(r, mulc(zext(a, w), k))
            return r
    if x.op == "shr":
        return shr(zext(x.a[0], w), x.a[1])
    return atom("zext", w, x, iv=iv0(x))


def sext(x, w):
    if x.w == w:
        return x
    if x.op == "const":
        return const(sval(x), w)
    if iv0(x)[1] < 1 << (x.w - 1):
        return zext(x, w)
    if x.op == "lin":
        # signed wrap of int arithmetic is undefined: distribute
        pass
    return atom("sext", w, x)


def trunc(x, w):
    if x.w == w:
        return x
    if x.op == "const":
        return const(x.a[0], w)
    if x.op in ("zext", "sext"):
        y = x.a[0]
        if y.w == w:
            return y
        return zext(y, w) if y.w < w and x.op == "zext" else (sext(y, w) if y.w < w else trunc(y, w))
    if x.op == "trunc":
        return trunc(x.a[0], w)
    lo, hi = iv0(x)
    return atom("trunc", w, x, iv=(lo, hi) if hi < 1 << w else None)


def not_(b):
    if b.op == "const":
        return FALSE if b.a[0] else TRUE
    if b.op == "not":
        return b.a[0]
    return atom("not", 1, b)


def eq(x, y):
    if x is y:
        return TRUE
    d = sub(x, y)
    return eq0(d)


def eq0(d):
    if d.op == "const":
        return TRUE if d.a[0] == 0 else FALSE
    lo, hi = iv0(d)
    if lo > 0:
        return FALSE
    if d.w == 1:
        return not_(d)
    if d.op == "zext":
        return eq0(d.a[0])
    if d.op == "sext":
        return eq0(d.a[0])
    if d.op == "lin":
        c, items = d.a
        w = d.w
        if len(items) == 1:
            a, k = items[0]
            # zext(bool) - 1 == 0
            if a.op == "zext" and a.a[0].w == 1:
                k = signed(k, w)
                if k in (1, -1):
                    v = signed((-c * k) & ((1 << w) - 1), w)
                    return a.a[0] if v == 1 else (not_(a.a[0]) if v == 0 else FALSE)
        if items[0][1] >> (w - 1):
            d = mulc(d, -1)
    return atom("eq", 1, d)


def ult(x, y):
    if x is y:
        return FALSE
    xl, xh = iv0(x)
    yl, yh = iv0(y)
    if xh < yl:
        return TRUE
    if xl >= yh:
        return FALSE
    if x.op == "const" and x.a[0] == 0:
        return not_(eq0(y))
    if y.op == "const" and y.a[0] == 1:
        return eq0(x)
    if x.op == "const" and x.a[0] == (1 << x.w) - 2:
        return eq(y, const(-1, y.w))
    return atom("ult", 1, x, y)


def slt(x, y):
    h = 1 << (x.w - 1)
    if iv0(x)[1] < h and iv0(y)[1] < h:
        return ult(x, y)
    if x.op == "const" and y.op == "const":
        return TRUE if sval(x) < sval(y) else FALSE
    if y.op == "const" and y.a[0] == 0 and iv0(x)[1] < h:
        return FALSE
    return atom("slt", 1, x, y)


def icmp(pred, x, y):
    if pred == "eq":
        return eq(x, y)
    if pred == "ne":
        return not_(eq(x, y))
    if pred == "ult":
        return ult(x, y)
    if pred == "ugt":
        return ult(y, x)
    if pred == "ule":
        return not_(ult(y, x))
    if pred == "uge":
        return not_(ult(x, y))
    if pred == "slt":
        return slt(x, y)
    if pred == "sgt":
        return slt(y, x)
    if pred == "sle":
        return not_(slt(y, x))
    return not_(slt(x, y))


def select(c, x, y):
    if c.op == "const":
        return x if c.a[0] else y
    if x is y:
        return x
    if c.op == "not":
        return select(c.a[0], y, x)
    if x.w == 1 and x.op == "const" and y.op == "const":
        return c if x.a[0] else not_(c)
    return atom("select", x.w, c, x, y, iv=(min(iv0(x)[0], iv0(y)[0]), max(iv0(x)[1], iv0(y)[1])))


def subterms(t, seen=None):
    """all sub-terms of t"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
                    elif isinstance(z, tuple):
                        st.extend(q for q in z if isinstance(q, T))
    return seen


_lds = {}


def loads(t):
    """the load atoms in t (memoised)"""
    r = _lds.get(t)
    if r is None:
        r = _lds[t] = tuple(x for x in subterms(t) if x.op == "ld")
    return r


def substitute(t, m, cache=None):
    """rebuild t with atoms replaced according to m (dict term->term)"""
    cache = {} if cache is None else cache
    if t in m:
        return m[t]
    if t in cache:
        return cache[t]
    sub_ = subterms(t)
    r = _subst(t, m, cache) if any(x in sub_ for x in m) else t
    cache[t] = r
    return r


def _subst(t, m, cache):
    s = lambda x: substitute(x, m, cache)
    op, w, a = t.op, t.w, t.a
    if op == "const":
        return t
    if op == "lin":
        r = const(a[0], w)
        for x, k in a[1]:
            r = add(r, mulc(s(x), k))
        return r
    if op == "shr":
        return shr(s(a[0]), a[1])
    if op == "and":
        return and_(s(a[0]), s(a[1]))
    if op == "or":
        return or_(s(a[0]), s(a[1]))
    if op == "xor":
        return xor(s(a[0]), s(a[1]))
    if op == "mul":
        return mul(s(a[0]), s(a[1]))
    if op == "shl":
        return shl(s(a[0]), s(a[1]))
    if op == "lshr":
        return lshr(s(a[0]), s(a[1]))
    if op == "ashr":
        return ashr(s(a[0]), s(a[1]))
    if op == "udiv":
        return udiv(s(a[0]), s(a[1]))
    if op == "zext":
        return zext(s(a[0]), w)
    if op == "sext":
        return sext(s(a[0]), w)
    if op == "trunc":
        return trunc(s(a[0]), w)
    if op == "not":
        return not_(s(a[0]))
    if op == "eq":
        return eq0(s(a[0]))
    if op == "ult":
        return ult(s(a[0]), s(a[1]))
    if op == "slt":
        return slt(s(a[0]), s(a[1]))
    if op == "select":
        return select(s(a[0]), s(a[1]), s(a[2]))
    if op == "clz":
        return clz(s(a[0]))
    if op == "ctz":
        return ctz(s(a[0]))
    if op == "tab":
        return tab(a[0], s(a[1]), a[2], w)
    na = tuple(s(x) if isinstance(x, T) else x for x in a)
    return t if na == a else _mk(op, w, na, t.iv)


def value(t, f, memo=None):
    """the number t denotes when f gives the values of atoms (None: not determined)"""
    memo = {} if memo is None else memo
    return _value(t, f, memo)


def _value(t, f, memo):
    if t.op == "const":
        return t.a[0]
    if t in memo:
        return memo[t]
    memo[t] = None
    op, w, a = t.op, t.w, t.a
    M = (1 << w) - 1
    v = f(t)
    if v is not None:
        memo[t] = v & M
        return v & M
    r = None
    e = lambda x: _value(x, f, memo)
    if op == "lin":
        r = a[0]
        for x, k in a[1]:
            q = e(x)
            if q is None:
                r = None
                break
            r += q * k
    elif op in ("shr", "zext", "trunc", "sext", "not", "eq", "clz", "ctz", "tab"):
        x = a[1] if op == "tab" else a[0]
        q = e(x)
        if q is not None:
            if op == "shr":
                r = q >> a[1]
            elif op in ("zext", "trunc"):
                r = q
            elif op == "sext":
                r = signed(q, x.w)
            elif op == "not":
                r = 1 - q
            elif op == "eq":
                r = int(q == 0)
            elif op == "clz":
                r = x.w - q.bit_length()
            elif op == "ctz":
                r = (q & -q).bit_length() - 1 if q else x.w
            else:
                r = a[2][q] if q < len(a[2]) else None
    elif op == "select":
        c = e(a[0])
        if c is not None:
            r = e(a[1]) if c else e(a[2])
    elif op in ("and", "or", "xor", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "ult", "slt", "addovf", "mulovf"):
        x, y = e(a[0]), e(a[1])
        if x is not None and y is not None:
            if op == "and":
                r = x & y
            elif op == "or":
                r = x | y
            elif op == "xor":
                r = x ^ y
            elif op == "mul":
                r = x * y
            elif op == "shl":
                r = x << y if y < w else None
            elif op == "lshr":
                r = x >> y if y < w else None
            elif op == "ashr":
                r = signed(x, w) >> y if y < w else None
            elif op == "udiv":
                r = x // y if y else None
            elif op == "sdiv":
                r = int(abs(signed(x, w)) // abs(signed(y, w))) * (1 if (signed(x, w) < 0) == (signed(y, w) < 0) else -1) if y else None
            elif op == "ult":
                r = int(x < y)
            elif op == "addovf":
                r = int(x + y >> a[0].w > 0)
            elif op == "mulovf":
                r = int(x * y >> a[0].w > 0)
            else:
                r = int(signed(x, a[0].w) < signed(y, a[1].w))
        elif op == "and" and (x == 0 or y == 0):
            r = 0
    memo[t] = r if r is None else r & M
    return memo[t]


def clz(x):
    w = x.w
    lo, hi = iv0(x)
    r = (w - hi.bit_length(), w - lo.bit_length())
    if r[0] == r[1]:
        return const(r[0], w)
    return atom("clz", w, x, iv=r)


def ctz(x):
    if x.op == "const" and x.a[0]:
        return const((x.a[0] & -x.a[0]).bit_length() - 1, x.w)
    return atom("ctz", x.w, x, iv=(0, x.w))


def tab(name, idx, values, w):
    """constant table lookup"""
    lo, hi = iv0(idx)
    if lo < len(values):
        v = values[lo:min(hi, len(values) - 1) + 1]
        if min(v) == max(v):
            return const(v[0], w)
        return atom("tab", w, name, idx, values, iv=(min(v), max(v)))
    return atom("tab", w, name, idx, values)


def show(t, d=0):
    if d > 7:
        return "…"
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    if op == "const":
        return str(sval(t)) if t.a[0] > 1 << 48 else str(a[0])
    if op == "lin":
        out = []
        for x, k in a[1]:
            k = signed(k, t.w)
            out.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + s(x))
        if a[0]:
            out.append(str(signed(a[0], t.w)))
        return "(" + " + ".join(out) + ")"
    if op == "sym":
        return "%s#%d" % a
    if op == "ld":
        st, f, b, sub_, idx, ver = a
        return "%s->%s%s%s" % (s(b) if b is not None else st, f, "+%d" % sub_ if sub_ else "",
                               "[%s]" % s(idx) if idx is not None else "") + ("'%d" % ver if ver else "")
    if op == "g":
        return "&" + a[0]
    if op == "ret":
        return "%s()#%d" % (a[0], a[1])
    if op == "tab":
        return "%s[%s]" % (a[0], s(a[1]))
    if op == "eq":
        return "%s==0" % s(a[0])
    if op == "not":
        return "!(%s)" % s(a[0])
    if op == "ult":
        return "%s<%s" % (s(a[0]), s(a[1]))
    if op == "arg":
        return str(a[0])
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))
