"""mutants and behaviour-preserving edits used to test the rules (see tools/mutants.py)"""
import json, os
M, Q = [], []
H = "h_malloc.c"


def mut(name, props, *edits, nth=1):
    M.append({"name": name, "props": props.split(), "edits": [list(e) for e in edits], "nth": nth})


def eqv(name, *edits, props=None, nth=1):
    Q.append({"name": name, "props": props.split() if props else None, "edits": [list(e) for e in edits], "nth": nth})


for x in ("list.py", "list2.py", "list3.py", "list4.py", "list5.py"):
    exec(open(os.path.join(os.path.dirname(__file__), x)).read())
d = os.path.dirname(os.path.abspath(__file__))
json.dump(M, open(os.path.join(d, "mutants.json"), "w"), indent=0)
json.dump(Q, open(os.path.join(d, "equiv.json"), "w"), indent=0)
print(len(M), "mutants", len(Q), "equivalent edits")
