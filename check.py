#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--only REGEX]: decide one property by static analysis of $VERIF_REPO (default /repo)."""
import argparse
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from va import build, run          # noqa: E402
import props                       # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    a = ap.parse_args()
    if a.setup:       # nothing to build: only make sure that the tools the analysis relies on are there
        import shutil
        missing = [t for t in ("clang++-18",) if not shutil.which(t) and not shutil.which(t[:-3])]
        print("missing tools: %s" % missing if missing else "tools present")
        return 2 if missing else 0
    ids = sorted(props.PROPS) if a.ids == ["ALL"] else a.ids
    worst = 0
    for pid in ids:
        t0 = time.time()
        p = props.PROPS[pid]
        res = run.Result()
        try:
            for g in p.get("groups", ()):
                if g.thorough and a.tier != "thorough":
                    continue
                run.run_group(g, res, only=a.only)
            for f in p.get("custom", ()):
                f(res, a.tier)
        except build.AnalysisBroken as e:
            # the analysed program cannot even be type-checked: the property is not established
            res.broken.append(str(e))
        rc = run.finish(pid, a.tier, res, t0, p["explanation"], p["rule"])
        worst = max(worst, rc) if rc != 1 and worst != 1 else 1
    return worst


if __name__ == "__main__":
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    big = 4 << 30
    if os.environ.get("VERIF_STACK") is None and soft != resource.RLIM_INFINITY and soft < big:
        # deep decision diagrams: a larger stack, from the start of the process
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (big if hard == resource.RLIM_INFINITY else min(big, hard), hard))
            os.environ["VERIF_STACK"] = "1"
            os.execv(sys.executable, [sys.executable] + sys.argv)
        except (ValueError, OSError):
            pass
    sys.exit(main())
