"""writes spec/names.json: what the documented program calls its own things, per configuration (run on the documented tree only)"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ProcessPoolExecutor
from hm import frontend as fe, names


def one(c):
    s = names.survey(fe._compile(c, "main", fe.KEEP_MAIN, False, {}))
    s["structs"] = {n: v for n, v in s["structs"].items() if n in names.STRUCTS}
    return c, s


with ProcessPoolExecutor(8) as ex:
    r = dict(ex.map(one, sorted(fe.CONFIGS)))
json.dump(r, open(names.SPEC, "w"), sort_keys=True, separators=(",", ":"))
print({c: (len(s["structs"]), len(s["globals"]), len(s["functions"])) for c, s in r.items()})
