#!/usr/bin/env python3
"""Builds the checker from /repo's working tree: every library source of /repo (found by looking at the
directories, not at a list), moc output, and the harness in /verif/mc, with AddressSanitizer.
usage: build.py OUTDIR -> prints the path of the binary. Nothing is written to /repo."""
import concurrent.futures
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NRP_REPO", "/repo")
QT = "/usr/include/x86_64-linux-gnu/qt5"
MOC = "/usr/lib/qt5/bin/moc"
DEFS = ["-DQT_DISABLE_DEPRECATED_UP_TO=0x050F00", "-DQT_NO_DEBUG", "-DQT_WEBSOCKETS_LIB", "-DQT_NETWORK_LIB", "-DQT_CORE_LIB"]
QTINC = ["-I" + QT] + ["-I%s/%s" % (QT, m) for m in ("QtWebSockets", "QtNetwork", "QtCore")] + ["-I/usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++"]
CXX = ["-std=gnu++11", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fPIC", "-w", "-pipe"]


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), p.stdout))
        raise SystemExit(3)
    return p.stdout


def version_h(out):
    """what qmake's QMAKE_SUBSTITUTES makes of version.h.in; the values only have to be stable"""
    text = "".join('#define %s "%s"\n' % kv for kv in (("SERVER_NAME_STRING", "nymea-remoteproxy"), ("SERVER_VERSION_STRING", "1.0.0"), ("API_VERSION_STRING", "0.6"), ("COPYRIGHT_YEAR_STRING", "2023")))
    write(os.path.join(out, "gen", "version.h"), text)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)


def main():
    out = os.path.abspath(sys.argv[1])
    os.makedirs(out, exist_ok=True)
    version_h(out)
    # the sources say #include "../version.h": give every include root a parent that has it
    for d in ("server", "client", "monitor", "program", "tunnelclient", "mc"):
        os.makedirs(os.path.join(out, "gen", d), exist_ok=True)
    ccache = ["ccache"] if shutil.which("ccache") else []
    if ccache:
        os.environ["CCACHE_DIR"] = os.path.join(out, "ccache")
        os.environ["CCACHE_NOHASHDIR"] = "1"
        os.environ["CCACHE_SLOPPINESS"] = "pch_defines,time_macros,include_file_mtime,include_file_ctime"

    groups = {
        "server": (os.path.join(REPO, "libnymea-remoteproxy"), True),
        "client": (os.path.join(REPO, "libnymea-remoteproxyclient"), True),
        "common": (os.path.join(REPO, "common"), True),
        "monitor": (os.path.join(REPO, "monitor"), False),
        "program": (os.path.join(REPO, "server"), False),
        "tunnelclient": (os.path.join(REPO, "tunnelclient"), False),
    }
    jobs = []
    objs = []
    for name, (root, recursive) in groups.items():
        srcs = sorted(glob.glob(root + "/**/*.cpp", recursive=True))
        hdrs = sorted(glob.glob(root + "/**/*.h", recursive=True))
        inc = ["-I" + os.path.join(out, "gen", "server"), "-I" + root, "-I" + os.path.join(root, "tunnelproxy"), "-I" + REPO, "-I" + os.path.join(REPO, "common"), "-I" + os.path.join(out, "gen")]
        if name == "monitor": # the screen is one in memory
            inc = ["-Dmain=monitorProgramMain", "-I" + os.path.join(HERE, "mc", "stub")] + inc
        if name == "program":
            inc = ["-Dmain=proxyProgramMain"] + inc + ["-I" + os.path.join(REPO, "libnymea-remoteproxy")]
        if name == "tunnelclient":
            inc = ["-Dmain=tunnelClientMain"] + inc + ["-I" + os.path.join(REPO, "libnymea-remoteproxyclient")]
        odir = os.path.join(out, "obj", name)
        os.makedirs(odir, exist_ok=True)
        text = ""
        for h in hdrs:
            if "Q_OBJECT" in open(h, errors="replace").read() or "Q_GADGET" in open(h, errors="replace").read():
                text += sh([MOC] + DEFS + inc + QTINC + ["-f" + h, h]) + "\n"
        # one unit for all moc output of a library: the string tables have distinct names per class
        moc = os.path.join(out, "gen", name, "moc_all.cpp")
        write(moc, text)
        for s in srcs + [moc]:
            o = os.path.join(odir, os.path.relpath(s, root).replace("/", "_").replace("..", "") + ".o")
            if s == moc:
                o = os.path.join(odir, "moc_all.o")
            jobs.append(ccache + ["g++"] + CXX + DEFS + inc + QTINC + ["-c", s, "-o", o])
            objs.append(o)
    inc = ["-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(REPO, "libnymea-remoteproxy"), "-I" + REPO, "-I" + os.path.join(REPO, "libnymea-remoteproxyclient"),
           "-I" + os.path.join(REPO, "common"), "-I" + os.path.join(REPO, "monitor"), "-I" + os.path.join(HERE, "mc", "stub"), "-I" + os.path.join(out, "gen")]
    odir = os.path.join(out, "obj", "mc")
    os.makedirs(odir, exist_ok=True)
    mcsrc = sorted(glob.glob(os.path.join(HERE, "mc", "*.cpp")))
    for s in mcsrc:
        o = os.path.join(odir, os.path.basename(s) + ".o")
        jobs.insert(0, ccache + ["g++"] + CXX + ["-std=gnu++17", '-DMC_DIR="%s"' % os.path.join(HERE, "mc")] + DEFS + inc + QTINC + ["-c", s, "-o", o])
        objs.append(o)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count()) as ex:
        list(ex.map(sh, jobs))
    binary = os.path.join(out, "mc")
    sh(["g++", "-fsanitize=address", "-rdynamic", "-Wl,--wrap=exit"] + objs + ["-o", binary, "-lQt5WebSockets", "-lQt5Network", "-lQt5Core", "-lpthread", "-ldl"])
    print(binary)


if __name__ == "__main__":
    main()
