#!/usr/bin/env python3
"""Builds the engine from the committed files (each check builds the same on demand) and compares the library functions
re-implemented in engine/models.cpp with the originals: harness/selftest.cpp, built instrumented and natively, must
compute the same."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/lib")
import build
build.engine()
print("engine built")
src = HERE + "/harness/selftest.cpp"
sym = build.build_sym(src, ["core"], out=build.B + "/bin/selftest")
nat = build.build_native(src, ["core"], out=build.B + "/bin/selftest.native")
env = {k: v for k, v in os.environ.items() if not k.startswith(("FDB", "ECKIT", "METKIT", "ECCODES"))}
wd = tempfile.mkdtemp(prefix="fdbsym.st.")
bad = 0
try:
    for case in ("strings", "numbers", "streams"):
        got = []
        for cmd in ([sym, "--case", case, "--jobs", "1", "--path-time", "100", "--out", wd + "/o.json"], [nat, case, "-"]):
            if os.path.exists(wd + "/selftest.out"):
                os.unlink(wd + "/selftest.out")
            subprocess.run(cmd, env=env, cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            got.append(open(wd + "/selftest.out", "rb").read().split(b"\n"))
        diff = [(a, b) for a, b in zip(*got) if a != b]
        n = max(len(g) for g in got)
        print("selftest %s: %d lines, %d differ" % (case, n, len(diff) + abs(len(got[0]) - len(got[1]))))
        for a, b in diff[:5]:
            print("  model: %r\n  real:  %r" % (a[:200], b[:200]))
        bad += bool(diff) or len(got[0]) != len(got[1]) or n < 50
finally:
    shutil.rmtree(wd, True)
sys.exit(1 if bad else 0)
