import os
import sys

import core
import funcs
import norm
import prims
import safety
import state
import tables

CHECKS = {
    "C01": (prims.C01, "proof", []),
    "C02": (prims.C02, "proof", []),
    "C03": (prims.C03, "proof", []),
    "C04": (prims.C04, "proof", []),
    "C05": (prims.C05, "proof", []),
    "P01": (state.C_state, "proof", []),
    "T01": (tables.C_class, "proof", []),
    "T02": (tables.C_case, "proof", []),
    "T03": (tables.C_preds, "proof", []),
    "T04": (tables.C_sets, "proof", []),
    "T05": (tables.C_decompose, "proof", []),
    "T06": (tables.C_compose, "proof", []),
    "S01": (safety.check(safety.SEARCH), "proof", []),
    "S02": (safety.check(safety.POSITION), "proof", []),
    "S03": (safety.check(safety.TRIM), "proof", []),
    "S04": (safety.check(safety.EDIT), "proof", []),
    "S05": (safety.check(safety.CASE), "proof", []),
    "S06": (safety.check(safety.NORM), "proof", []),
    "S07": (safety.check(safety.ESCAPE), "proof", []),
    "S08": (safety.check(safety.SPLIT), "proof", []),
    "T08": (norm.C_decomposed, "other", ["texts of up to three code points, neighbours among the given ones"]),
    "F19": (norm.C_composed, "proof", []),
    **{k: (f, "proof", []) for k, f in funcs.F.items()},
}


def main(argv):
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    ids = [a for a in argv if not a.startswith("-")]
    if len(ids) != 1 or ids[0] not in CHECKS:
        print("usage: check.py ID [--thorough]")
        sys.exit(2)
    f, level, ass = CHECKS[ids[0]]
    core.run(ids[0], tier, level, ass, f)
