"""Builds the harness drivers from /repo's working tree (plus the stand-in headers in stubs/)."""
import fcntl, glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "_build"))

CXX = "clang++"
BASE = ["-std=c++20", "-O1", "-march=haswell", "-mno-avx512f", "-maes", "-mrdseed", "-w",
        "-DNDEBUG", "-I" + REPO, "-I" + os.path.join(VERIF, "stubs"),
        "-I" + os.path.join(VERIF, "harness")]
LIBS = ["-lfmt", "-lre2", "-lcrypto", "-lssl", "-lboost_serialization", "-lpthread"]
# sources that need a third-party library with no stand-in here, or are test/benchmark/main programs
SKIP = ("/main.cpp", "/validatorMain.cpp", "/test/", "/tests/", "/benchmarks/", "Benchmark", "EmpTestUtil.cpp", "/docker/", "/_build/")


def repo_sources(dirs):
    out = []
    for d in dirs:
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in sorted(files):
                p = os.path.join(root, f)
                if not f.endswith(".cpp") or any(s in p + ("/" if 0 else "") for s in SKIP):
                    continue
                if f in ("main.cpp", "Main.cpp") or "Test.cpp" in f or "_main" in f:
                    continue
                try:
                    txt = open(p, errors="replace").read()
                except OSError:
                    continue
                if "int main(" in txt:
                    continue
                out.append(p)
    return sorted(set(out))


def objname(p):
    return p.strip("/").replace("/", "_") + ".o"


def brief(out):
    """the lines of a failed build that say why"""
    keep = [x[:400] for x in out.splitlines() if "error:" in x or "undefined" in x or "FAILED" in x]
    return "\n".join(keep[:60]) or out[-3000:]


class BuildError(Exception):
    pass


def build(drivers, all_dirs=("fbpcf", "example"), extra_flags=()):
    """drivers: list of dicts {name, src, dirs, flags?}. Returns {name: exe}."""
    tag = "o"
    bdir = os.path.join(BUILD, tag)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(drivers, bdir, all_dirs)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def _build(drivers, bdir, all_dirs):
    need = set()
    for d in drivers:
        need |= set(repo_sources(d["dirs"]))
    exes = _ninja(drivers, bdir, {d["name"]: repo_sources(d["dirs"]) for d in drivers})
    if isinstance(exes, dict):
        return exes
    if "undefined symbol" not in exes and "undefined reference" not in exes:
        raise BuildError(brief(exes))
    # a driver may need sources from other directories of the tree: take everything
    everything = repo_sources(all_dirs)
    exes2 = _ninja(drivers, bdir, {d["name"]: everything for d in drivers})
    if isinstance(exes2, dict):
        return exes2
    raise BuildError(brief(exes) + "\n---- with every source ----\n" + brief(exes2))


def _ninja(drivers, bdir, srcs):
    flags = " ".join(BASE)
    pre = os.path.join(VERIF, "stubs", "prelude.h")
    w = []
    w.append("rule pch\n  command = %s %s -x c++-header $in -o $out -MMD -MF $out.d\n  depfile = $out.d\n  deps = gcc\n" % (CXX, flags))
    w.append("rule cxx\n  command = %s %s $xf -include-pch prelude.pch -c $in -o $out -MMD -MF $out.d\n  depfile = $out.d\n  deps = gcc\n" % (CXX, flags))
    w.append("rule ar\n  command = rm -f $out && llvm-ar-18 rcs $out $in 2>/dev/null || ar rcs $out $in\n")
    w.append("rule link\n  command = %s -fuse-ld=lld -o $out $in %s $xf || %s -o $out $in %s $xf\n" % (CXX, " ".join(LIBS), CXX, " ".join(LIBS)))
    w.append("build prelude.pch: pch %s\n" % pre)
    seen = set()

    def cc(src, obj, xf=""):
        if obj in seen:
            return
        seen.add(obj)
        w.append("build %s: cxx %s | prelude.pch\n  xf = %s\n" % (obj, src, xf))

    cc(os.path.join(VERIF, "stubs", "engine_stub.cpp"), "engine_stub.o")
    targets = []
    for d in drivers:
        objs = []
        for s in srcs[d["name"]]:
            o = objname(s)
            cc(s, o)
            objs.append(o)
        do = "drv_" + d["name"] + ".o"
        cc(os.path.join(VERIF, "harness", d["src"]), do, " ".join(d.get("flags", [])))
        lib = "lib_" + d["name"] + ".a"
        w.append("build %s: ar %s\n" % (lib, " ".join(objs)) if objs else "")
        w.append("build %s: link %s engine_stub.o %s\n  xf = %s\n" % (
            d["name"], do, (lib + " ") if objs else "", " ".join(d.get("libs", []))))
        targets.append(d["name"])
    with open(os.path.join(bdir, "build.ninja"), "w") as f:
        f.write("".join(w))
    p = subprocess.run(["ninja", "-k", "0", "-j", str(os.cpu_count() or 8)] + targets, cwd=bdir,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode == 0:
        return {d["name"]: os.path.join(bdir, d["name"]) for d in drivers}
    return p.stdout
