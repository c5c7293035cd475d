#!/usr/bin/env python3
"""Development aid: confirms planted bugs. usage: seed.py [--demo-only] ID...
Applies each patch to /repo, builds, runs the stable tests, the demonstration and the property's check, undoes it."""
import glob, json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NRP_REPO", "/repo")
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh("git -C " + REPO + " status --porcelain").stdout.strip(), "dirty"
def build(): return sh("sed s,/repo/,%s/,g /opt/vp/build.sh | bash" % REPO).returncode == 0
assert build()
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
clean = {}
for i in ids:
    r = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=REPO, timeout=300)
    clean[i] = r.returncode
    if r.returncode: print(i, "DEMO FAILS ON CLEAN", r.stdout[-800:])
for i in ids:
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    t0 = time.time()
    r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (REPO, V, i))
    if r.returncode: print(i, "patch does not apply", r.stdout); continue
    try:
        if not build(): print(i, "DOES NOT BUILD"); continue
        t = "skipped"
        if "--no-tests" not in sys.argv:
            t = sh("bash /opt/vp/test.sh /tmp/seed_out.json").stdout.strip().splitlines()[-1]
        try:
            d = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=REPO, timeout=300)
            dr, dout = d.returncode, d.stdout.strip()[-200:]
        except subprocess.TimeoutExpired:
            dr, dout = "timeout", ""
        checks = meta["property"] if "--all" not in sys.argv else None
        res = {}
        for c in ([checks] if checks else [x["property"] for x in json.load(open(V + "/MANIFEST.json"))["checks"]]):
            k = sh("python3 check.py " + c, cwd=V)
            res[c] = k.returncode
            first = [l for l in k.stdout.splitlines() if not l.startswith("VIOL")][:3]
        print(i, "clean demo", clean[i], "| tests:", t, "| demo:", dr, dout.replace("\n", " / "), "| checks:", {c: v for c, v in res.items() if v or not ("--all" in sys.argv)}, "%.0fs" % (time.time() - t0), flush=True)
        if "-v" in sys.argv: print("   ", [l[:200] for l in first])
    finally:
        sh("git -C " + REPO + " checkout -- .")
build()
