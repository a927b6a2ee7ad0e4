#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; the outputs are committed)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

VF = ("value-flow equivalence: gated-SSA summaries of LLVM IR (closed-form loops) against an independent reference function, "
      "decided by value numbering")
NOTE = ("Equality of all final-state cells, return values and out-of-line calls for every input, with symbolic loop bounds; real arithmetic "
        "(rounding ignored, so re-associated code stays equal), no wrap-around of index arithmetic, distinct members of one object do not alias; value numbering is by random "
        "interpretation over a prime field (error probability below 1e-15 per comparison). Trusts clang's IR and the reference function.")

T_IN = "The repository's tests only compare six literal constants; no line of the simulation code is executed or even compiled by them, and no sample could cover all %s."


def P(pid, title, statement, over, qtext, why, files, mech, observe, technique=VF, note=NOTE, level="other", na=None):
    return dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe,
                technique=technique, note=note, level=level, na=na)


PROPS = []
exec(open(os.path.join(HERE, "meta_props.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
           "notes": "Static analysis only: every check recompiles /repo's current src/ and include/ to LLVM IR (or parses its Python) in a scratch directory and decides the property from that; nothing of /repo is executed."}
    for p in PROPS:
        if p["na"]:
            man["not_applicable"].append({"property": p["pid"], "reason": p["na"]})
            continue
        man["checks"].append({"property": p["pid"], "quick_cmd": "python3 check.py %s" % p["pid"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["pid"],
                              "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
