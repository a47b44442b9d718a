"""Names of the program's own structures, members, globals and generator functions.

The rules speak of them by the names they have in the documented program (spec/names.json).  A tree that calls one of them
differently, with the same type at the same place, is analysed under the documented name.
"""
import difflib, json, os, re

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "names.json")
STRUCTS = ("size_class", "slab_metadata", "region_metadata", "quarantine_info", "region_allocator", "slab_info_mapping",
           "allocator_state", "random_state", "chacha_ctx", "mutex", "ro")
FUNS = re.compile("^(get_random_|random_state_init|chacha_|fatal_error$)")
_spec = None


def norm(ty):
    return re.sub(r"\b(u8|uint8_t|unsigned char)\b", "u8", re.sub(r"\b(u64|size_t|uint64_t|unsigned long)\b", "u64", ty or ""))


def survey(d):
    """what a compiled program calls its own things"""
    st = {n: [[m["name"], norm(m["type"])] for m in s["members"]] for n, s in d["structs"].items()}
    for g in d["globals"]:
        if g.get("members") and g.get("diname") and g.get("local"):
            st[g["diname"]] = [[m["name"], norm(m["type"])] for m in g["members"]]
    gl = {g["diname"]: [norm(g.get("ditype")), bool(g.get("const")), bool(g.get("tls"))] for g in d["globals"] if g.get("diname")}
    fn = {n: [i["sig"], i["file"], i["line"]] for n, i in d["finfo"].items() if not i["third"]}
    return {"structs": st, "globals": gl, "functions": fn}


def baseline(config):
    global _spec
    if _spec is None:
        with open(SPEC) as f:
            _spec = json.load(f)
    return _spec.get(config)


def close(a, b):
    return difflib.SequenceMatcher(None, a, b).ratio()


def pair(missing, new):
    """(name, key) lists in order of appearance -> {new: old}: same key, and unambiguous or clearly the most alike"""
    res = {}
    keys = {k for n, k in missing}
    for k in keys:
        ms, ns = [n for n, kk in missing if kk == k], [n for n, kk in new if kk == k]
        if not ns:
            continue
        if len(ms) == len(ns):
            res.update(zip(ns, ms))
            continue
        for m in ms:
            c = sorted(((close(m, n), n) for n in ns if n not in res), reverse=True)
            if c and c[0][0] >= 0.5:
                res[c[0][1]] = m
    return res


def mapping(config, d):
    """structures, globals and functions called differently: {name here: documented name}"""
    base = baseline(config)
    if not base:
        return {}
    cur = survey(d)
    out = {}
    # structures
    cs, bs = cur["structs"], base["structs"]
    alias = {}
    for b in STRUCTS:
        if b in bs and b not in cs:
            best = None
            for c in cs:
                if c in bs or c in alias:
                    continue
                fb, fc = {f for f, t in bs[b]}, {f for f, t in cs[c]}
                q = len(fb & fc) / max(1, len(fb | fc))
                if q >= 0.5 and (best is None or q > best[0]):
                    best = (q, c)
            if best:
                alias[best[1]] = b
    out.update(alias)

    def t2(t):
        for n, o in alias.items():
            t = re.sub(r"\b%s\b" % n, o, t)
        return t
    # globals and functions
    for kind in ("globals", "functions"):
        A, B = base[kind], cur[kind]
        if kind == "functions":
            A = {n: v for n, v in A.items() if FUNS.search(n)}
            m = [(n, v[0]) for n, v in sorted(A.items(), key=lambda x: x[1][1:]) if n not in B]
            nw = [(n, t2(v[0])) for n, v in sorted(B.items(), key=lambda x: x[1][1:]) if n not in base[kind]]
        else:
            m = [(n, str(v)) for n, v in A.items() if n not in B]
            nw = [(n, t2(str(v))) for n, v in B.items() if n not in A]
        r = pair(m, nw)
        if kind == "functions":
            # a function of the same type is only the same function when it is named alike or nothing else could be meant
            r = {n: o for n, o in r.items() if close(n, o) >= 0.4 or A[o][0].count(",") > 1}
        out.update(r)
    return {n: o for n, o in out.items() if n != o and re.match(r"^[A-Za-z_]\w*$", n)}


def members(config, d):
    """renames the members of the program's own structures in place; {(structure, name here): documented name}"""
    base = baseline(config)
    if not base:
        return {}
    cs, bs = survey(d)["structs"], base["structs"]
    ren = {}
    for b in STRUCTS:
        if b not in bs or b not in cs:
            continue
        A, B = bs[b], cs[b]
        out = {}
        have = {f for f, t in B}
        was = {f for f, t in A}
        sm = difflib.SequenceMatcher(None, [f for f, t in A], [f for f, t in B], autojunk=False)
        for op, i1, i2, j1, j2 in sm.get_opcodes():
            if op == "replace":
                out.update(pair([(f, t) for f, t in A[i1:i2] if f not in have], [(f, t) for f, t in B[j1:j2] if f not in was]))
        # moved as well as renamed
        left = [(f, t) for f, t in A if f not in have and f not in out.values()]
        new = [(f, t) for f, t in B if f not in was and f not in out]
        for m, t in left:
            c = [n for n, tn in new if tn == t]
            if len(c) == 1 and len([1 for x, tx in left if tx == t]) == 1 and close(m, c[0]) >= 0.5:
                out[c[0]] = m
        for n, o in out.items():
            ren[b, n] = o
        ms = d["structs"].get(b, {}).get("members", []) if b in d["structs"] else []
        for g in d["globals"]:
            if g.get("diname") == b and g.get("members"):
                ms = ms + g["members"]
        for m in ms:
            m["name"] = out.get(m["name"], m["name"])
    return ren
