"""python3 tools/all.py [ids] : run the registered (or given) checks, one line each"""
import sys, subprocess, os, time, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or [p["property"] if "property" in p else p["property_id"] for p in json.load(open(R + "/MANIFEST.json"))["checks"]]
tot = time.time()
for i in ids:
    t = time.time()
    r = subprocess.run([sys.executable, "-m", "hm.check", i], cwd=R, capture_output=True, text=True)
    o = (r.stdout + r.stderr).strip().splitlines()
    print(i, r.returncode, "%.0fs" % (time.time() - t), o[-1][:200] if o else "", flush=True)
    if r.returncode:
        for l in o[:6]:
            print("     ", l[:260])
print("total %.0fs" % (time.time() - tot))
