"""python3 tools/seed.py [-n] [-c] ID... : confirm planted bugs in a scratch copy of /repo
each: builds, demo passes on the unchanged tree, patch applies, builds, stable tests pass, demo fails; -c: also run the check of its property
against the changed copy (-n: only that)"""
import sys, os, json, subprocess, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, t=600, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=t, env=env)


def build(r):
    for v in ("default", "light"):
        q = sh("make -j8 VARIANT=%s CC=gcc CONFIG_NATIVE=false CONFIG_WERROR=false" % v, r)
        if q.returncode:
            return q.stderr[-800:]


def tests(r):
    sh("make -C test -k -j8 CC=gcc CXX=g++", r)
    q = sh("python3 /opt/vp/run_unittest.py test", r)
    ok = {l.split()[1] for l in q.stdout.splitlines() if l.startswith("PASS")}
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - ok)


def one(i, check, only):
    d = tempfile.mkdtemp(prefix="hm-seed.")
    s = os.path.join(ROOT, "seeded", i)
    try:
        r = d + "/repo"
        sh("git clone -q /repo %s" % r, d)
        meta = json.load(open(s + "/meta.json"))
        os.makedirs(d + "/demo")
        for f in os.listdir(s):
            if f != "meta.json" and not f.endswith((".diff", ".patch")):
                shutil.copy(s + "/" + f, d + "/demo/" + f)
        res = []
        if not only:
            e = build(r)
            if e:
                return "clean build: " + e
            for _ in range(3):
                q = sh("bash %s/demo/demo.sh" % d, r)
                if q.returncode:
                    return "DEMO FAILS ON CLEAN TREE: " + (q.stdout + q.stderr)[-500:]
        q = sh("git apply %s/patch.diff" % s, r)
        if q.returncode:
            return "patch: " + q.stderr
        if not only:
            sh("rm -rf out out-light", r)
            e = build(r)
            if e:
                return "build: " + e
            bad = tests(r)
            if bad:
                return "TESTS FAIL: " + " ".join(bad)[:400]
            for _ in range(3):
                q = sh("bash %s/demo/demo.sh" % d, r)
                if not q.returncode:
                    return "DEMO PASSES WITH THE BUG"
            res.append("counts (demo: %s)" % ((q.stdout + q.stderr).strip().splitlines() or ["rc %d" % q.returncode])[-1][:100])
        if check or only:
            out = []
            for p in [meta["property"]] + meta.get("also", []):
                v = d + "/verif"
                env = dict(os.environ, HM_REPO=r, HM_OUT=d)
                c = subprocess.run([sys.executable, "-m", "hm.check", p], cwd=ROOT, env=env, capture_output=True, text=True)
                l = [x for x in c.stdout.splitlines() if x.strip()]
                out.append("%s %s %s" % (p, {0: "MISSED", 1: "caught"}.get(c.returncode, "NO ANSWER %d" % c.returncode),
                                         (l or [""])[0][:160] if c.returncode else ""))
            res.append("; ".join(out))
        return " | ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


a = [x for x in sys.argv[1:] if not x.startswith("-")]
for i in a or sorted(os.listdir(ROOT + "/seeded")):
    print(i, one(i, "-c" in sys.argv, "-n" in sys.argv), flush=True)
