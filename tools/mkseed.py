#!/usr/bin/env python3
"""Development aid: mkseed.py SPEC.py ... writes seeded/<id>/ from a spec that defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO."""
import json, os, shutil, subprocess, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NRP_REPO", "/repo")
for spec in sys.argv[1:]:
    n = {}; exec(open(spec).read(), n)
    d = "%s/seeded/%s" % (V, n["ID"]); os.makedirs(d, exist_ok=True)
    assert not subprocess.run("git -C " + REPO + " status --porcelain", shell=True, capture_output=True, text=True).stdout
    try:
        for f, old, new in n["EDITS"]:
            p = REPO + "/" + f; s = open(p).read(); assert s.count(old) == 1, (f, old, s.count(old)); open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.run("git -C " + REPO + " diff", shell=True, capture_output=True, text=True).stdout)
    finally:
        subprocess.run("git -C " + REPO + " checkout -q -- .", shell=True)
    json.dump({"property": n["PROP"], "needs": n["NEEDS"], "what_it_breaks": n["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    if "DEMO" in n:
        open(d + "/demo.py", "w").write(n["DEMO"].lstrip("\n")); shutil.copy(V + "/tools/px.py", d + "/px.py")
        if "capp" in n["DEMO"]:
            for x in ("capp.py", "capp.cpp"): shutil.copy(V + "/tools/" + x, d + "/" + x)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    for k, v in n.get("FILES", {}).items(): open(d + "/" + k, "w").write(v.lstrip("\n"))
    if "SH" in n: open(d + "/demo.sh", "w").write(n["SH"].lstrip("\n"))
    os.chmod(d + "/demo.sh", 0o755)
    print(n["ID"], "ok")
