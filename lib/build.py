"""Builds instrumented (symbolic) and native (replay) executables from /repo's current sources."""
import glob, hashlib, os, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SITE = "/opt/vp/venv/lib/python3.12/site-packages"
ENG = os.path.join(VERIF, "engine")
CXX = "clang++-18"
JOBS = os.cpu_count() or 8


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def includes():
    r = ["-I" + REPO + "/src", "-I" + B + "/gen", "-I" + REPO + "/src/dummy_daos", "-I" + REPO + "/src/chunked_data_view/include",
         "-I" + REPO + "/src/chunked_data_view", "-I" + B + "/gen/chunked_data_view", "-I" + ENG, "-I" + VERIF + "/harness"]
    for d in ("metkitlib/include metkitlib/include/metkit eckitlib/include eckitlib/include/eckit eckitlib/include/eckit/option "
              "eckitlib/include/eckit/geo eckitlib/include/eckit/codec eckitlib/include/eckit/maths eckitlib/include/eckit/spec "
              "eccodeslib/include").split():
        r += ["-isystem", SITE + "/" + d]
    return r


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def gen():
    v = open(REPO + "/VERSION").read().strip() if os.path.exists(REPO + "/VERSION") else "5.0.0"
    a = (v.split(".") + ["0", "0"])[:3]
    put(B + "/gen/fdb5/fdb5_ecbuild_config.h", "#pragma once\n#define FDB5_INSTALL_DIR \"/nonexistent\"\n")
    put(B + "/gen/fdb5/fdb5_version.h", """#pragma once
#define fdb5_VERSION_STR "%s"
#define fdb5_VERSION "%s"
#define fdb5_VERSION_MAJOR %s
#define fdb5_VERSION_MINOR %s
#define fdb5_VERSION_PATCH %s
#ifdef __cplusplus
extern "C" {
#endif
const char* fdb5_version();
unsigned int fdb5_version_int();
const char* fdb5_version_str();
const char* fdb5_git_sha1();
#ifdef __cplusplus
}
#endif
""" % (v, v, a[0], a[1], a[2]))
    put(B + "/gen/fdb5/fdb5_config.h", """#pragma once
#include "fdb5_ecbuild_config.h"
#include "fdb5_version.h"
#define fdb5_HAVE_TOCFDB
#define fdb5_HAVE_DUMMY_DAOS
#define fdb5_HAVE_DAOSFDB
#define fdb5_HAVE_DAOS_ADMIN
#define fdb5_HAVE_GRIB 1
""")
    put(B + "/gen/fdb5/version.cc", """#include "fdb5_version.h"
extern "C" {
const char* fdb5_version() { return fdb5_VERSION; }
const char* fdb5_version_str() { return fdb5_VERSION_STR; }
unsigned int fdb5_version_int() { return 10000 * fdb5_VERSION_MAJOR + 100 * fdb5_VERSION_MINOR + fdb5_VERSION_PATCH; }
const char* fdb5_git_sha1() { return ""; }
}
""")
    vv = v
    put(B + "/gen/chunked_data_view/chunked_data_view_version.h", """#pragma once
#define chunked_data_view_VERSION_STR "%s"
#define chunked_data_view_VERSION "%s"
""" % (vv, vv))


def g(*pats, exclude=()):
    out = []
    for p in pats:
        for f in sorted(glob.glob(REPO + "/src/" + p, recursive=True)):
            if not any(x in f for x in exclude):
                out.append(f)
    return out


EXC = ("/compat/", "/rados/", "/tools/", "/daos/", "/fam/", "remote/fdb-", "/fdb5/io/fdb-")


def sources(groups):
    s = []
    for name in groups:
        if name == "core":
            s += g("fdb5/**/*.cc", exclude=EXC + ("/remote/", "/fdb_c.cc", "/RemoteFDB.cc")) + g("fdb5/tools/FDBTool.cc", "fdb5/tools/FDBVisitTool.cc", "fdb5/fam/FamFieldLocation.cc")
            s.append(B + "/gen/fdb5/version.cc")
        elif name == "fdb5":
            s += g("fdb5/**/*.cc", exclude=EXC) + g("fdb5/fam/FamFieldLocation.cc", "fdb5/tools/FDBTool.cc", "fdb5/tools/FDBVisitTool.cc")
            s.append(B + "/gen/fdb5/version.cc")
        elif name == "daosoid":
            s += g("fdb5/daos/*.cc") + g("dummy_daos/**/*.cc")
        elif name == "cdv":
            s += g("chunked_data_view/**/*.cc", exclude=("LibChunkedDataView.cc",))
        elif name == "compare":
            s += g("fdb5/tools/compare/**/*.cc", "fdb5/tools/compare/*.cc")
        elif name.startswith("-"):
            s = [f for f in s if name[1:] not in f]
        else:
            s += g(name)
    seen, r = set(), []
    for f in s:
        if f not in seen:
            seen.add(f)
            r.append(f)
    return r


COMMON = ["-std=gnu++17", "-DNDEBUG", "-fPIC", "-w", "-pthread"]


def symflags(pass_so):
    return ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fpass-plugin=" + pass_so]


def pch(mode):
    """precompiled third-party headers (mode sym: with the header that makes std::string instrumentable)"""
    src = (open(ENG + "/force.h").read() if mode == "sym" else "#pragma once\n") + open(ENG + "/pch.h").read()
    d = B + "/pch-" + mode
    os.makedirs(d, exist_ok=True)
    h = d + "/p.h"
    if not (os.path.exists(h) and open(h).read() == src and os.path.exists(h + ".pch")):
        with open(h, "w") as f:
            f.write(src)
        fl = ["-O1", "-fno-vectorize", "-fno-slp-vectorize"] if mode == "sym" else ["-O1", "-g1"]
        run([CXX] + COMMON + fl + ["-x", "c++-header", "-Xclang", "-fno-pch-timestamp"] + includes() + [h, "-o", h + ".pch.tmp"])
        os.replace(h + ".pch.tmp", h + ".pch")
    return ["-include-pch", h + ".pch"]


def compile_all(jobs, env):
    """jobs: list of (argv, out). Runs them in parallel, raises on the first failure."""
    def one(j):
        argv, out = j
        os.makedirs(os.path.dirname(out), exist_ok=True)
        t0 = time.time()
        p = subprocess.run(argv + ["-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if os.environ.get("SYM_TIMES"):
            print("%.1f %s" % (time.time() - t0, argv[-1]))
        return p.returncode, argv, p.stdout
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rc, argv, o in ex.map(one, jobs):
            if rc:
                raise RuntimeError("compilation failed: %s\n%s" % (argv[-1], "\n".join([l for l in o.splitlines() if "error:" in l][:12]) + "\n" + o[-1500:]))


def environ(extra=""):
    e = dict(os.environ)
    e["CCACHE_DIR"] = B + "/ccache"
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_SLOPPINESS"] = "pch_defines,time_macros,include_file_mtime,include_file_ctime"
    e["CCACHE_EXTRAFILES"] = extra
    return e


CC = ["ccache"] if os.path.exists("/usr/bin/ccache") else []


def objname(mode, f):
    return "%s/%s/%s.o" % (B, mode, hashlib.sha1(f.encode()).hexdigest()[:10] + "_" + os.path.basename(f))


def engine():
    """returns (pass.so, future of the natively compiled runtime object)"""
    os.makedirs(B + "/eng", exist_ok=True)
    src = ENG + "/pass.cpp"
    h = hashlib.sha1(open(src, "rb").read() + open(ENG + "/ops.h", "rb").read()).hexdigest()[:12]
    so = "%s/SymPass-%s.so" % (B, h)
    cfg = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    jobs, rt = [], []
    for f in ("runtime.cpp", "wrap.cpp"):
        o = B + "/eng/" + f + ".o"
        jobs.append((CC + ["g++", "-O2", "-g1", "-std=c++17", "-fPIC", "-fno-builtin", "-c", ENG + "/" + f], o))
        rt.append(o)
    env = environ(ENG + "/policy.inc:" + ENG + "/runtime.h:" + ENG + "/ops.h")
    allo = B + "/eng/rt.o"

    def rtbuild():
        # the runtime must not share (uninstrumented) template instances with the code under test
        compile_all(jobs, env)
        run(["ld.bfd", "-r", "--force-group-allocation", "-o", allo + ".tmp.o"] + rt)
        keep = ["__sym*", "sym_*", "symw_*", "_ZN6symrt*", "_ZN7SymCase*", "main", "memcpy", "memmove", "memset", "_Zn*", "_Zd*", "_ZSt11_Hash_bytes*", "pthread_create"]
        run(["objcopy", "--wildcard"] + ["--keep-global-symbol=" + k for k in keep] + [allo + ".tmp.o", allo])
        return allo
    ex = cf.ThreadPoolExecutor(3)
    fut = ex.submit(rtbuild)
    fp = ex.submit(pch, "sym")
    if not os.path.exists(so):
        compile_all([(["g++", "-O0", "-fPIC", "-shared"] + [c for c in cfg if not c.startswith("-O")] + ["-fno-rtti", src], so + ".tmp")], env)
        os.rename(so + ".tmp", so)
    fp.result()
    return so, fut


LIBS = ["-L" + SITE + "/eckitlib/lib64", "-L" + SITE + "/metkitlib/lib64", "-L" + SITE + "/eccodeslib/lib64", "-lmetkit", "-leckit_option",
        "-leckit", "-leccodes", "-lpthread", "-ldl", "-luuid" if os.path.exists("/usr/include/uuid/uuid.h") else "-ldl", "-lrt",
        "-Wl,-rpath," + ":".join(SITE + "/" + d for d in ("eckitlib/lib64", "metkitlib/lib64", "eccodeslib/lib64", "eckitlib.libs"))]


def lib_flags():
    return LIBS + ["-Wl,-rpath-link," + SITE + "/eckitlib.libs:" + SITE + "/eckitlib/lib64:" + SITE + "/eccodeslib/lib64:" + SITE + "/eccodeslib.libs",
                   "-Wl,--disable-new-dtags", "-Wl,--allow-shlib-undefined", "-Wl,--unresolved-symbols=ignore-all", "-fuse-ld=" + ("lld-18" if os.path.exists("/usr/bin/ld.lld-18") else "bfd")]


def build_sym(harness, groups, extra_flags=(), out=None):
    gen()
    so, rt = engine()
    env = environ(":".join([so, ENG + "/redirects.txt", ENG + "/force.h"]))
    env["SYM_REDIRECT"] = ENG + "/redirects.txt"
    jobs, objs = [], []
    inc = includes()
    P = pch("sym")
    harnesses = [harness] if isinstance(harness, str) else list(harness)
    for f in harnesses + sources(groups):
        o = objname("sym", f)
        jobs.append((CC + [CXX] + COMMON + symflags(so) + (P if not f.endswith(".c") else []) + (["-fno-access-control"] if f in harnesses else []) + list(extra_flags) + inc + ["-c", f], o))
        objs.append(o)
    m = ENG + "/models.cpp"
    mo = objname("sym", m)
    jobs.append((CC + [CXX] + COMMON + symflags(so) + ["-include", ENG + "/force.h", "-fno-builtin", "-fno-access-control"] + inc + ["-c", m], mo))
    compile_all(jobs, env)
    out = out or B + "/bin/" + os.path.basename(harnesses[0]).replace(".cpp", "")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    rsp = out + ".rsp"
    with open(rsp, "w") as f:
        f.write("\n".join(objs + [rt.result(), mo]))
    run([CXX, "-pie", "-rdynamic", "@" + rsp, "-o", out, "-lz3"] + lib_flags())
    return out


def build_native(harness, groups, extra_flags=(), out=None):
    gen()
    env = environ()
    jobs, objs = [], []
    inc = includes()
    P = pch("nat")
    harnesses = [harness] if isinstance(harness, str) else list(harness)
    for f in harnesses + sources(groups) + [ENG + "/native.cpp"]:
        o = objname("nat", f)
        jobs.append((CC + [CXX] + COMMON + ["-O1", "-g1"] + (P if not f.endswith(".c") else []) + (["-fno-access-control"] if f in harnesses else []) + list(extra_flags) + inc + ["-c", f], o))
        objs.append(o)
    compile_all(jobs, env)
    out = out or B + "/bin/" + os.path.basename(harnesses[0]).replace(".cpp", "") + ".native"
    os.makedirs(os.path.dirname(out), exist_ok=True)
    rsp = out + ".rsp"
    with open(rsp, "w") as f:
        f.write("\n".join(objs))
    run([CXX, "-pie", "-rdynamic", "@" + rsp, "-o", out] + lib_flags())
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    f = build_sym if sys.argv[1] == "sym" else build_native
    print(f(os.path.abspath(sys.argv[2]), sys.argv[3].split(",") if len(sys.argv) > 3 and sys.argv[3] else []), "%.1fs" % (time.time() - t))
