#!/usr/bin/env python3
"""Rebuilds the checker from /repo's working tree and runs one check.
usage: check.py ID [--thorough] [--case N | --find TEXT | --log ...]   (exit 0 held, 1 VIOLATION, 3 could not build)"""
import fcntl
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    args = sys.argv[1:]
    ident = args.pop(0)
    out = os.path.join(HERE, ".build")
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(out, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        b = subprocess.run([sys.executable, os.path.join(HERE, "build.py"), out], stdout=subprocess.PIPE, text=True)
        if b.returncode:
            print("%s: the checker could not be built from the tree" % ident)
            return 3
    binary = b.stdout.strip().splitlines()[-1]
    cmd = [binary, "--check", ident]
    if "--thorough" in args:
        cmd += ["--cap", "840"]
    else:
        cmd += ["--cap", "780"]
    cmd += ["--out", os.path.join(HERE, "evidence", ident + ".json"), "--replays", os.path.join(HERE, "replays"), "--known", os.path.join(HERE, "known_findings.jsonl")]
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("QT_") or k in ("ASAN_OPTIONS", "http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY"):
            del env[k]
    env["LC_ALL"] = "C.UTF-8"
    r = subprocess.run(cmd + args, env=env)
    return r.returncode if r.returncode in (0, 1) else 3


if __name__ == "__main__":
    sys.exit(main())
