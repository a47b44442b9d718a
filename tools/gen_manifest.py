"""writes MANIFEST.json from the rule modules and the list of properties not claimed"""
import sys, os, json, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hm.frontend import ROOT
NA = {
    "C45": "Quantifies over concurrent histories and over addresses returned at different times (linearisability, disjointness of live ranges); its shape-visible clauses (locking, slot and table bookkeeping, ownership of slabs) are claimed separately as C01, C02, C41, C42 and C15, the history-level statement has no sound static argument in reach.",
    "C46": "Entropy and unpredictability are probabilistic statements about runtime values; the structural necessary conditions (seeding, separate generators, bounds, uniform sampling, which decisions are drawn from them) are claimed under C13, C17, C18, C36, C37 and C38.",
    "C47": "Termination and bounded steps depend on runtime quantities (table load, occupancy of a slab, scheduling, retries of the generator and of write); no static ranking argument in reach bounds them.",
    "C48": "Quantitative memory and time bounds over workloads are measurements, not decidable from the shape of the code.",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    have = {}
    for m in sorted(os.listdir(os.path.join(ROOT, "hm", "rules"))):
        if m.endswith(".py") and m != "__init__.py":
            have.update(importlib.import_module("hm.rules." + m[:-3]).PROPS)
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in have:
            s = have[i]
            checks.append({
                "property": i,
                "quick_cmd": "python3 -m hm.check %s" % i,
                "thorough_cmd": "VERIF_TIER=thorough python3 -m hm.check %s --thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": s.get("technique", "static analysis: abstract interpretation of the linked LLVM IR (path-sensitive dataflow)"),
                "level": s.get("level", "other"),
                "level_note": (s["explain"] + " Decides: " + s.get("decides", "the property as stated") +
                               ". Trusts clang's translation to IR, the type layouts in the debug information, the "
                               "assumption that user memory and metadata do not alias, and the modelled effect of system calls; "
                               "analysed in build configurations " + ", ".join(s["configs"]) + ".")})
        else:
            na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
    json.dump({"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks, "not_applicable": na,
               "notes": "All checks analyse the source (translated to LLVM IR by the compiler, never executed). See DESIGN.md."},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
