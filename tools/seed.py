#!/usr/bin/env python3
"""seed.py FILE.py: plants the bugs described in FILE.py (a list BUGS of dicts
id, property, needs, breaks, edits [(file, old, new)], demo, flags) one by one in
/repo, confirms them, runs the checks and undoes them.  --only ID, --checks A,B"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = r'''#!/bin/bash
# Builds demo.cpp with the library's sources and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/Ystring"
sed 's/@[A-Za-z_]*@/0/g' include/Ystring/YstringVersion.hpp.in > "$t/Ystring/YstringVersion.hpp"
g++ -std=c++20 -O1 -g @FLAGS@ -Iinclude -Isrc -I"$t" -I"$t/Ystring" "$d/demo.cpp" src/Ystring/*.cpp -o "$t/demo" || exit 3
timeout 60 "$t/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if False else None
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(V, "seeded", b["id"])
        assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "dirty /repo"
        msg = []
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                assert t.count(old) == 1, (b["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C %s diff" % R).stdout
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.cpp"), "w").write(b["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@FLAGS@", b.get("flags", "")))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            r = sh("bash /opt/vp/build.sh")
            msg.append("build %d" % r.returncode)
            sh("bash /opt/vp/test.sh /tmp/seed-out.json")
            o = json.load(open("/tmp/seed-out.json"))
            failed = o.get("failed") or o.get("fail") or []
            msg.append("tests failed: %s" % (failed if failed else 0))
            r = sh("bash %s/demo.sh" % d, cwd=R)
            msg.append("demo with bug: %d" % r.returncode)
            if r.returncode == 3:
                msg.append(r.stdout[-800:])
            cs = sys.argv[sys.argv.index("--checks") + 1].split(",") if "--checks" in sys.argv else b.get("checks", [b["property"]])
            for c in cs:
                r = sh("python3 check.py %s" % c, cwd=V)
                first = [x for x in r.stdout.splitlines() if "[" in x and "]" in x][:1]
                msg.append("check %s: %d %s" % (c, r.returncode, (first or [""])[0][:170]))
        finally:
            sh("git -C %s checkout -- ." % R)
        r = sh("bash %s/demo.sh" % d, cwd=R)
        msg.append("demo without: %d" % r.returncode)
        if r.returncode:
            msg.append(r.stdout[-500:])
        print(b["id"], " | ".join(msg), flush=True)
    sh("bash /opt/vp/build.sh")


main()
