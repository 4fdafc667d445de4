"""Builds the C++ checks from /repo's current working tree into /verif/build, content-addressed.

Every translation unit is preprocessed first and its object file is looked up by the hash of the preprocessed
text, the flags and the compiler: nothing depends on time stamps, and a change anywhere in /repo is seen."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++"
INC = ["-I" + VERIF + "/shim", "-I" + VERIF + "/harness", "-I" + REPO + "/src"]
FLAGS = {
    # Sanitized: silent corruption and undefined arithmetic become visible failures.
    "san": ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
    # Optimised: an order of magnitude more cases for the semantic oracles.
    "fast": ["-std=c++20", "-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    # Coverage-guided search: only the library under test is instrumented.
    "cov": ["-std=c++20", "-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    # Data races between threads.
    "tsan": ["-std=c++20", "-O1", "-g1", "-fsanitize=thread"],
}


# For the library under test only.
LIB_EXTRA = {"san": ["-fsanitize=float-cast-overflow"], "cov": ["-fsanitize-coverage=trace-pc"]}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-6000:]))
    return r.stdout


def compiler_id():
    return run([CXX, "--version"]).split(b"\n")[0]


_CID = None


def compile_one(src, flags, extra=()):
    global _CID
    if _CID is None:
        _CID = compiler_id()
    flags = list(flags) + list(extra)
    pre = run([CXX, "-E"] + flags + INC + [src])
    h = hashlib.sha256()
    h.update(_CID)
    h.update("\0".join(flags).encode())
    h.update(pre)
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + h.hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        run([CXX, "-c"] + flags + INC + [src, "-o", tmp])
        os.replace(tmp, obj)
    return obj


def lib_sources():
    out = []
    for p in sorted(glob.glob(REPO + "/src/**/*.cc", recursive=True)):
        b = os.path.basename(p)
        if b.endswith((".test.cc", ".perf.cc", ".pybind.cc")) or b == "main.cc":
            continue
        out.append(p)
    return out


def compile_many(srcs, flags, extra=()):
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(lambda s: compile_one(s, flags, extra), srcs))


def link(name, objs, flags, extra=()):
    h = hashlib.sha256()
    for o in objs:
        h.update(o.encode())
    h.update("\0".join(list(flags) + list(extra)).encode())
    exe = os.path.join(BUILD, "bin", name + "." + h.hexdigest()[:24])
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        run([CXX] + list(flags) + objs + list(extra) + ["-o", tmp])
        os.replace(tmp, exe)
    return exe


def build_check(prop, config):
    """Executable of one C++ check."""
    flags = FLAGS[config]
    srcs = lib_sources() + [VERIF + "/harness/pbt_main.cc", VERIF + "/harness/model.cc",
                            VERIF + "/harness/common.cc", VERIF + "/harness/dem.cc",
                            VERIF + "/props/" + prop + ".cc"]
    n = len(lib_sources())
    objs = compile_many(srcs[:n], flags, LIB_EXTRA.get(config, [])) + compile_many(srcs[n:], flags)
    return link(prop + "-" + config, objs, flags)


PYTHON = "/opt/veriftools/pyvenv/bin/python3"


_PY = None


def build_python():
    global _PY
    if _PY is None:
        _PY = _build_python()
    return _PY


def _build_python():
    """Directory holding the package 'pymatching' built from /repo with the miniature pybind11 of shim/."""
    inc = run([PYTHON, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include());"
               "print(sysconfig.get_config_var('EXT_SUFFIX'))"]).decode().split("\n")
    flags = ["-std=c++20", "-O2", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fPIC", "-fvisibility=hidden",
             "-I" + inc[0], "-I" + inc[1]]
    srcs = [p for p in sorted(glob.glob(REPO + "/src/pymatching/**/*.cc", recursive=True))
            if not p.endswith((".test.cc", ".perf.cc"))] + [VERIF + "/shim/pybind11/shim.cc"]
    objs = compile_many(srcs, flags)
    so = link("cpp_pymatching.so", objs, flags, ["-shared"])
    pys = sorted(glob.glob(REPO + "/src/pymatching/*.py"))
    h = hashlib.sha256(so.encode())
    for p in pys:
        h.update(os.path.basename(p).encode() + b"\0")
        h.update(open(p, "rb").read())
    d = os.path.join(BUILD, "pypkg", h.hexdigest()[:24])
    if not os.path.exists(d):
        tmp = d + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        os.makedirs(tmp + "/pymatching")
        for p in pys:
            shutil.copy(p, tmp + "/pymatching/")
        shutil.copy(so, tmp + "/pymatching/_cpp_pymatching" + inc[2])
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp)
    return d


def tsan_works():
    src = os.path.join(BUILD, "tsan-probe.%d.cc" % os.getpid())
    os.makedirs(BUILD, exist_ok=True)
    with open(src, "w") as f:
        f.write("int main() {}\n")
    try:
        run([CXX] + FLAGS["tsan"] + [src, "-o", src + ".exe"])
        for _ in range(8):
            run([src + ".exe"])
        return True
    except BuildError:
        return False
    finally:
        for x in (src, src + ".exe"):
            if os.path.exists(x):
                os.remove(x)


def build_phase(prop, phase):
    """Command line prefix that runs one phase of a check."""
    if phase["config"] == "py":
        d = build_python()
        return [PYTHON, "-B", "-W", "ignore", VERIF + "/harness/pypbt.py", "--package", d, "--shim", VERIF + "/shim/py",
                "--prop", VERIF + "/props_py/" + phase.get("source", prop) + ".py"]
    if phase["config"] == "tsan" and not tsan_works():
        raise BuildError("ThreadSanitizer programs do not start on this kernel")
    return [build_check(phase.get("source", prop), phase["config"])] + (["--cov", "1"] if phase["config"] == "cov" else [])


if __name__ == "__main__":
    for spec in sys.argv[1:]:
        p, c = spec.split(":")
        print(build_check(p, c))
