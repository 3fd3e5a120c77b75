"""Compile /repo's current sources and the analysis entry points to one LLVM
module.  Nothing in the module is ever executed: it is only read."""
import concurrent.futures
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("SA_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "/usr/lib/llvm-18/bin/clang++"
OPT = "/usr/lib/llvm-18/bin/opt"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
FLAGS = ["-std=c++20", "-O1", "-g1", "-gcolumn-info", "-DNDEBUG", "-Xclang",
         "-disable-llvm-passes", "-fno-discard-value-names", "-emit-llvm", "-c",
         "-w"]


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True))


def overlay(dst):
    """A copy of one libstdc++ header in which std::find_if has only the plain
    loop (the library also has a version unrolled four times by hand)."""
    for p in glob.glob("/usr/include/c++/*/bits/stl_algobase.h"):
        with open(p, encoding="utf8", errors="replace") as f:
            t = f.read()
        m = re.search(r"  /// This is an overload used by find algos for the RAI case\.\n"
                      r".*?\n    }\n", t, re.S)
        if not m or "__find_if" not in m.group(0) or "trip_count" not in m.group(0):
            continue
        d = os.path.join(dst, "bits")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "stl_algobase.h"), "w") as f:
            f.write(t[:m.start()] + t[m.end():])


def build(harness=None):
    """Returns the path of the linked module (in a temporary directory that
    the caller removes) and that directory."""
    tmp = tempfile.mkdtemp(prefix="sa-ir-")
    try:
        inc = os.path.join(tmp, "inc", "Ystring")
        os.makedirs(inc)
        tmpl = os.path.join(REPO, "include/Ystring/YstringVersion.hpp.in")
        if os.path.exists(tmpl):
            text = open(tmpl, encoding="utf8").read()
            text = re.sub(r"@[A-Za-z_]+@", "0", text)
            with open(os.path.join(inc, "YstringVersion.hpp"), "w") as f:
                f.write(text)
        ovl = os.path.join(tmp, "ovl")
        overlay(ovl)
        flags = FLAGS + ["-isystem" + ovl,"-I" + os.path.join(REPO, "include"),
                         "-I" + os.path.join(REPO, "src"),
                         "-I" + os.path.join(tmp, "inc"),
                         "-I" + inc]
        if harness is None:
            harness = sorted(glob.glob(os.path.join(HERE, "entry", "*.cpp")))
        srcs = sources()
        if not srcs:
            raise BuildError("no sources in " + REPO)
        jobs = []
        for i, s in enumerate(srcs + harness):
            jobs.append((s, os.path.join(tmp, "m%02d.bc" % i)))

        def one(j):
            _run([CLANG] + flags + [j[0], "-o", j[1]])
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        all_bc = os.path.join(tmp, "all.bc")
        _run([LINK, "-o", all_bc] + [j[1] for j in jobs])
        out = os.path.join(tmp, "mod.bc")
        _run([OPT, "-passes=sroa", all_bc, "-o", out])
        return out, tmp
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise


if __name__ == "__main__":
    out, tmp = build()
    shutil.copy(out, sys.argv[1])
    shutil.rmtree(tmp)
