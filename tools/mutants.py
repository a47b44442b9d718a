"""Self-test of the rules on scratch copies of /repo: python3 tools/mutants.py [property...] [--equiv]
Each entry of mutants.json / equiv.json: {"props": [...], "file":, "old":, "new":}; mutants must be reported by every listed property,
behaviour-preserving edits must leave all listed properties (default: all) quiet."""
import sys, os, json, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SELF = os.path.join(ROOT, "selftest")


def run(m, prop, equiv):
    d = tempfile.mkdtemp(prefix="hm-mut.")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "out", "out-light", "test"))
        v = os.path.join(d, "verif")
        os.makedirs(v)
        for x in ("hm", "tools", "build"):
            os.symlink(os.path.join(ROOT, x), os.path.join(v, x))
        if os.path.exists(os.path.join(ROOT, "known_findings.json")):
            os.symlink(os.path.join(ROOT, "known_findings.json"), os.path.join(v, "known_findings.json"))
        for f, old, new in m["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if old not in s:
                return "EDIT DOES NOT APPLY: %s" % old[:60]
            n = m.get("nth", 1)
            if n == 1:
                s = s.replace(old, new, 1)
            elif n == 0:
                s = s.replace(old, new)
            else:
                k = -1
                for _ in range(n):
                    k = s.index(old, k + 1)
                s = s[:k] + new + s[k + len(old):]
            open(p, "w").write(s)
        env = dict(os.environ, HM_REPO=r, HM_OUT=d)
        q = subprocess.run([sys.executable, "-m", "hm.check", prop], cwd=ROOT, env=env, capture_output=True, text=True)
        if equiv:
            return None if q.returncode == 0 else "ALARM (%d): %s" % (q.returncode, (q.stdout + q.stderr)[-700:])
        if q.returncode == 1 and "VIOLATION property=" + prop in q.stdout:
            return None
        return "MISSED (%d): %s" % (q.returncode, (q.stdout + q.stderr)[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    equiv = "--equiv" in sys.argv
    verbose = "-v" in sys.argv
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    ids = set(a for a in args if a.startswith("C"))
    names = set(a for a in args if not a.startswith("C"))
    ms = json.load(open(os.path.join(SELF, "equiv.json" if equiv else "mutants.json")))
    allp = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
    jobs = []
    for m in ms:
        if names and m["name"] not in names:
            continue
        for p in m.get("props") or allp:
            if p in allp and (not ids or p in ids):
                jobs.append((m, p))
    bad = 0
    with ThreadPoolExecutor(3) as ex:
        for (m, p), r in zip(jobs, ex.map(lambda j: run(j[0], j[1], equiv), jobs)):
            if r:
                bad += 1
            if r or verbose:
                print(m["name"], p, r or "ok", flush=True)
    print("%d runs, %d unexpected" % (len(jobs), bad))


if __name__ == "__main__":
    main()
