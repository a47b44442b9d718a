"""python3 -m hm.check <property> : runs the rules of one property and reports."""
import gc, sys, os, json, time, importlib, traceback
from concurrent.futures import ProcessPoolExecutor
from . import frontend as fe
from .ctx import Ctx
from .frontend import ToolError, ROOT

LEVEL = "other"
SHIPPED = ("default", "light")      # the configurations the repository builds and tests
OUT = os.environ.get("HM_OUT") or os.path.join(ROOT, "evidence")


def load(pid):
    for m in sorted(os.listdir(os.path.join(ROOT, "hm", "rules"))):
        if m.endswith(".py") and m != "__init__.py":
            mod = importlib.import_module("hm.rules." + m[:-3])
            if pid in getattr(mod, "PROPS", {}):
                return mod.PROPS[pid]
    raise ToolError("no rules for " + pid)


def job(a):
    pid, config, tier = a
    t = time.time()
    cx = Ctx(config, tier)
    gc.disable()
    try:
        sys.setrecursionlimit(20000)
        load(pid)["rule"](cx)
    except fe.NoBuild as e:
        if config in SHIPPED:
            return {"config": config, "error": str(e)}
        return {"config": config, "skip": str(e)}
    except ToolError as e:
        return {"config": config, "error": str(e)}
    except Exception:
        return {"config": config, "error": traceback.format_exc()[-1500:]}
    return {"config": config, "fails": list(cx.fails.values()), "rules": cx.rulecount, "counts": cx.counts,
            "samples": cx.samples, "s": round(time.time() - t, 2)}


def known(pid):
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid and k.get("status") == "known"]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    spec = load(pid)
    confs = spec["configs"] + (spec.get("thorough", []) if tier == "thorough" else [])
    import subprocess
    r = subprocess.run(["bash", os.path.join(ROOT, "tools", "build.sh")], capture_output=True, text=True)
    if r.returncode:
        print("cannot build irx", r.stderr[-500:])
        return 2
    with ProcessPoolExecutor(min(8, len(confs))) as ex:
        res = list(ex.map(job, [(pid, c, tier) for c in confs]))
    errs = [r for r in res if "error" in r]
    # a configuration the sources do not compile in has no behaviour to decide; it is named, and floors are then not expected to hold
    skip = [r for r in res if "skip" in r]
    if len(skip) == len(res):
        errs += [{"config": r["config"], "error": r["skip"]} for r in skip]
    viol, kn = [], []
    seen = set()
    rules, counts, samples = {}, {}, []
    kf = known(pid)
    for r in res:
        if "error" in r or "skip" in r:
            continue
        for k, v in r["rules"].items():
            rules[k] = rules.get(k, 0) + v
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        samples += [{"config": r["config"], "case": s} for s in r["samples"][:2]]
        for v in r["fails"]:
            hit = [k for k in kf if k["rule"] == v["rule"] and all(x in v["where"] + " " + v["msg"] for x in k["match"])]
            if hit:
                if id(hit[0]) not in seen:
                    seen.add(id(hit[0]))
                    kn.append((hit[0], v))
                continue
            key = (v["rule"], v["where"])
            if key not in seen:
                seen.add(key)
                viol.append(v)
    # a rule that matches nothing proves nothing
    for rname, least in spec.get("floor", {}).items():
        if not errs and not viol and not skip and rules.get(rname, 0) < least:
            errs.append({"config": "*", "error": "rule %s matched %d instances, fewer than the %d confirmed by hand"
                         % (rname, rules.get(rname, 0), least)})
    os.makedirs(OUT, exist_ok=True)
    nob = sum(rules.values())
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.get("level", LEVEL),
          "coverage": {
              "explanation": spec["explain"],
              "decided": spec.get("decides", "the property as stated"),
              "configurations": [r["config"] for r in res if "skip" not in r],
              "obligations_by_rule": rules,
              "obligations": nob, "violated": len(viol),
              "analysed": counts,
              "samples": samples[:6] or ["none"]},
          "wall_s": round(time.time() - t0, 2)}
    if kn:
        ev["coverage"]["known_findings"] = [k["what"] for k, _ in kn]
    if viol:
        ev["coverage"]["violations"] = viol[:20]
    if errs:
        ev["coverage"]["errors"] = [e["error"] for e in errs][:4]
    if skip:
        ev["coverage"]["configurations_that_do_not_compile"] = [r["skip"][:300] for r in skip]
    with open(os.path.join(OUT, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in skip:
        print("note: configuration %s is not decided: %s" % (r["config"], r["skip"].strip().splitlines()[0][:200]))
    for k, v in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        rd = os.path.join(OUT, pid + ".replay.json")
        with open(rd, "w") as f:
            json.dump(viol, f, indent=1)
        for v in viol[:12]:
            print("%s [%s] %s: %s (%s; configuration %s, %d paths)" %
                  (v["where"], v["rule"], v["entry"] or "", v["msg"], pid, v["config"], v["paths"]))
        print("VIOLATION property=%s replay=%s" % (pid, rd))
        return 1
    if errs:
        for e in errs:
            print("analysis error (%s): %s" % (e["config"], e["error"]))
        return 2
    print("%s holds: %d obligations in %d configurations, %.1fs" % (pid, nob, len(confs), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
