#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property by symbolic execution of /repo's current code.

Builds the instrumented library and harness from /repo, explores every case (Z3 decides every branch), replays each
counterexample natively (uninstrumented build of the same sources) and writes evidence/<property>.json."""
import atexit, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/lib")
import build, checks  # noqa: E402


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    deep = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    C = checks.CHECKS[pid]
    os.makedirs(HERE + "/evidence", exist_ok=True)
    os.makedirs(build.B + "/out", exist_ok=True)
    repdir = build.B + "/replays"
    os.makedirs(repdir, exist_ok=True)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("FDB", "ECKIT", "FDB5", "METKIT", "ECCODES")):
            del env[k]
    # the code under test may leave files where it runs (dumps of tables that cannot be read)
    wd = tempfile.mkdtemp(prefix="fdbsym.wd.")
    atexit.register(shutil.rmtree, wd, True)
    env["SYM_DEEP"] = "1" if deep else ""
    env["MALLOC_ARENA_MAX"] = "1"
    known = []
    kf = HERE + "/known_findings.json"
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == pid]
    total = C.get("thorough_s" if deep else "quick_s", 600 if deep else 100)
    cases, funcs, ftotal = [], set(), 0
    confirmed, unconfirmed, knownhits = [], [], {}
    build_s = 0.0
    native = {}
    for h in C["harness"]:
        tb = time.time()
        src = "%s/harness/%s.cpp" % (HERE, h["file"])
        exe = build.build_sym(src, h.get("groups", ["core"]), out="%s/bin/%s" % (build.B, h["file"]))
        build_s += time.time() - tb
        names = [l.split("\t")[0] for l in subprocess.check_output([exe, "--list"], text=True, env=env).splitlines() if l.strip()]
        sel = [n for n in names if ("cases" not in h or n in h["cases"]) and n not in h.get("skip", ())]
        # every case may use what is left, but keeps a fair share for the ones after it
        share = total * h.get("share", 1.0 / len(C["harness"]))
        tcase = time.time()
        for i, n in enumerate(sel):
            left = share - (time.time() - tcase)
            bud = max(4.0, min(left / (len(sel) - i) * 2.0, left * 0.65) if i + 1 < len(sel) else left)
            out = "%s/out/%s-%s-%s.json" % (build.B, pid, h["file"], n)
            if os.path.exists(out):
                os.unlink(out)
            cmd = [exe, "--case", n, "--time", "%.1f" % bud, "--seed", str(seed), "--out", out, "--jobs", "8",
                   "--path-time", str(h.get("path_time", 20)), "--query-ms", str(20000 if deep else 10000)]
            p = subprocess.run(cmd, env=env, cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
            if not os.path.exists(out):
                # the session every harness begins with does not work: the same without the engine?
                if src not in native:
                    native[src] = build.build_native(src, h.get("groups", ["core"]), out="%s/bin/%s.native" % (build.B, h["file"]))
                r = subprocess.run([native[src], n, "-"], env=env, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, text=True, errors="replace")
                if r.returncode == 1 and "VIOLATED" in r.stdout and not re.search("No space left|Cannot allocate|Too many open", r.stdout + p.stderr):
                    confirmed.append({"harness": h["file"], "case": n, "msg": "an ordinary session (archive, flush, list, retrieve) fails", "input": "",
                                      "vars": (re.findall(r"what\(\):.*|Exception: .*", p.stderr) or [""])[-1][:300], "native": r.stdout[-3000:]})
                    break
                print("engine failure in %s/%s (rc %d):\n%s" % (h["file"], n, p.returncode, p.stderr[-2000:]))
                sys.exit(2)
            d = json.load(open(out))
            funcs |= set(d["functions"])
            ftotal = max(ftotal, d["functions_total"])
            for c in d["cases"]:
                c["harness"] = h["file"]
                labels = case_labels(src, c["case"])
                c["vacuous_labels"] = [l for l in labels if l not in c["reach"]]
                cases.append(c)
                print("[%s/%s] paths=%d exhaustive=%s queries=%d solver=%.1fs wall=%.1fs%s" % (
                    h["file"], c["case"], c["paths"], c["exhaustive"], c["queries"], c["solver_s"], c["wall_s"],
                    " UNREACHED %s" % c["vacuous_labels"] if c["vacuous_labels"] else ""))
                for v in c["violations"]:
                    if src not in native:
                        tb = time.time()
                        native[src] = build.build_native(src, h.get("groups", ["core"]), out="%s/bin/%s.native" % (build.B, h["file"]))
                        build_s += time.time() - tb
                    r = subprocess.run([native[src], c["case"], v["input"] or "-"], env=env, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                       timeout=120, text=True, errors="replace")
                    rec = {"harness": h["file"], "case": c["case"], "msg": v["msg"], "input": v["input"], "vars": v["vars"], "native": r.stdout[-3000:]}
                    if r.returncode == 1 and "VIOLATED" in r.stdout:
                        k = next((k for k in known if k["harness"] == h["file"] and k["case"] == c["case"] and re.search(k["match"], r.stdout)), None)
                        if k:
                            knownhits[k["id"]] = k
                        else:
                            confirmed.append(rec)
                    else:
                        unconfirmed.append(rec)
                        print("  counterexample not reproduced natively (not reported): %s :: %s" % (v["msg"], v["vars"][:300]))
            if confirmed:
                break
        if confirmed:
            break
    for k in known:
        if k["id"] in knownhits:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    S = lambda f: sum(c[f] for c in cases)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("branches") + S("pins"),
            "traces_validated_against_impl": S("paths_completed"),
            "samples": [{"case": c["harness"] + "/" + c["case"], "input_hex": s} for c in cases for s in c["samples"][:2]][:40],
            "explanation": "states = path classes of the compiled code (each decided by Z3 and executed once with a model); transitions = "
                           "symbolic branch decisions and value splits on them; traces_validated_against_impl = path classes whose representative ran to the end in the real code",
            "exhaustive": all(c["exhaustive"] for c in cases) and not unconfirmed,
            "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"),
            "assertion_queries": S("assert_queries"), "assertion_queries_unsat": S("assert_unsat"), "assertions_evaluated": S("asserts"),
            "solver_s": round(S("solver_s"), 2), "build_s": round(build_s, 1),
            "functions_encoded": len(funcs), "functions_encoded_fdb": sorted(funcs)[:400], "functions_encoded_with_templates": ftotal,
            "cases": [{k: c[k] for k in ("harness", "case", "bounds", "paths", "paths_completed", "exhaustive", "left", "timeouts", "limits", "lost", "diverged", "mismatch",
                                         "stale", "queries", "unknown", "solver_s", "wall_s", "reach", "vacuous_labels")} for c in cases],
            "unconfirmed_counterexamples": unconfirmed[:5],
            "outside_the_bounds": C.get("outside", ""),
        },
        "assumptions": checks.TRUST + C.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(confirmed),
    }
    with open("%s/evidence/%s.json" % (HERE, pid), "w") as f:
        json.dump(ev, f, indent=1)
    if confirmed:
        for v in confirmed[:3]:
            rp = "%s/%s-%s-%s.txt" % (repdir, pid, v["case"], hashlib.sha1(v["input"].encode()).hexdigest()[:8])
            with open(rp, "w") as f:
                f.write("# property %s, case %s of harness/%s.cpp, violated: %s\n# variables: %s\n# replay (native build of the same sources):\n"
                        "#   %s/bin/%s.native %s %s\n%s\n" % (pid, v["case"], v["harness"], v["msg"], v["vars"], build.B, v["harness"], v["case"], v["input"] or "-", v["native"]))
            print("  %s :: %s" % (v["msg"], v["vars"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("OK property=%s paths=%d exhaustive=%s wall=%.0fs" % (pid, S("paths"), ev["coverage"]["exhaustive"], time.time() - t0))
    sys.exit(0)


def case_labels(src, case):
    t = open(src).read()
    m = re.search(r"SYM_CASE\(%s," % re.escape(case), t)
    if not m:
        return []
    nx = t.find("SYM_CASE(", m.end())
    return sorted(set(re.findall(r'sym_reach\("([^"]+)"\)', t[m.end():nx if nx > 0 else len(t)])))


if __name__ == "__main__":
    main()
