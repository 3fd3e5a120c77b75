"""What every check has in common: the report, the evidence and the exit code."""
import json
import os
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "sa"))
sys.setrecursionlimit(20000)

import build            # noqa: E402
import llvmc            # noqa: E402

CPUS = min(8, os.cpu_count() or 1)
TRUSTED = [
    "clang 18 front end, llvm-link and the sroa pass (source to IR)",
    "the abstract interpreter in /verif/sa (transfer functions, joins, linear arithmetic)",
    "the models of libc++/libstdc++ functions in /verif/sa/calls.py",
    "the entry wrappers in /verif/sa/entry/entry.cpp (each names one public function)",
]


class Anchor(Exception):
    """Something the check must find in the source is not there."""


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obs = 0
        self.ok = 0
        self.bad = []            # (rule, where, function, message, trace)
        self.rules = {}
        self.functions = set()
        self.counts = {}
        self.samples = []
        self.scope = []

    def ob(self, rule, ok, where="", fn="", msg="", trace=None):
        self.obs += 1
        t = self.rules.setdefault(rule, [0, 0])
        t[0] += 1
        if ok:
            self.ok += 1
            t[1] += 1
        else:
            self.bad.append((rule, where, fn, msg, trace))
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def merge(self, d):
        """Adds the plain-data result of a worker."""
        for rule, n, good in d.get("rules", ()):
            t = self.rules.setdefault(rule, [0, 0])
            t[0] += n
            t[1] += good
            self.obs += n
            self.ok += good
        self.bad.extend(d.get("bad", ()))
        self.functions |= set(d.get("functions", ()))
        for k, v in d.get("counts", {}).items():
            self.count(k, v)
        for s in d.get("samples", ()):
            self.sample(s)

    def data(self):
        return {"rules": [(k, v[0], v[1]) for k, v in self.rules.items()],
                "bad": self.bad, "functions": sorted(self.functions),
                "counts": self.counts, "samples": self.samples}


def known(pid):
    """Entries of the known-findings file for a property: {key}."""
    out = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt"), encoding="utf8") as f:
            for line in f:
                if line.startswith("open: property=%s " % pid):
                    key = line.split("key=", 1)[1].strip()
                    out[key] = line.strip()
    except OSError:
        pass
    return out


def module():
    """The IR of the current source: (Module, cleanup)."""
    out, tmp = build.build()
    m = llvmc.Module(out)
    return m, tmp


def run(pid, tier, level, assumptions, body):
    """Runs a check and never returns."""
    t = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(pid, tier)
    tmp = None
    err = None
    try:
        try:
            m, tmp = module()
        except build.BuildError as x:
            print("cannot compile the source: %s" % str(x)[-3000:])
            sys.stdout.flush()
            os._exit(2)
        body(m, rep, tier)
        if rep.obs == 0:
            raise Anchor("nothing was analysed")
    except Anchor as x:
        err = "anchor lost: %s" % x
    except Exception:
        err = traceback.format_exc()
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    if err:
        print("ERROR property=%s: %s" % (pid, err))
        sys.stdout.flush()
        os._exit(2)
    kf = known(pid)
    new = []
    hit = set()
    for b in rep.bad:
        key = "%s|%s|%s" % (b[0], b[2], b[3])
        if key in kf:
            hit.add(key)
        else:
            new.append(b)
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    cov = {
        "obligations": rep.obs,
        "discharged": rep.ok,
        "checker_cmd": "python3 /verif/check.py %s %s" % (pid, "--thorough" if tier == "thorough" else "").rstrip()
        if False else ("python3 check.py %s%s" % (pid, " --thorough" if tier == "thorough" else "")),
        "trusted_base": TRUSTED,
        "explanation": "Obligations by rule, all decided on the IR of the current source.",
        "rules": {k: {"obligations": v[0], "discharged": v[1]} for k, v in sorted(rep.rules.items())},
        "functions_analysed": len(rep.functions),
        "functions": sorted(rep.functions)[:400],
        "measured": rep.counts,
        "samples": rep.samples or [b[3] for b in rep.bad[:3]] or ["-"],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t, 2), "violations": len(new)}
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s: %d obligations, %d discharged, %d functions, %.1f s" % (
        pid, rep.obs, rep.ok, len(rep.functions), time.time() - t))
    if new:
        rp = os.path.join(edir, "replay-%s.txt" % pid)
        with open(rp, "w") as f:
            for rule, where, fn, msg, trace in new:
                f.write("rule: %s\nat: %s\nin: %s\n%s\n" % (rule, where, fn, msg))
                for x in trace or ():
                    f.write("    via %s\n" % (x,))
                f.write("\n")
        seen = set()
        for rule, where, fn, msg, _ in new:
            k = (rule, where, fn)
            if k in seen or len(seen) > 20:
                continue
            seen.add(k)
            print("%s: [%s] %s: %s" % (where, rule, fn, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)
