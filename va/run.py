"""Runs the checks of one property: loads the program, compares summaries with the reference semantics, writes evidence."""
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback

from . import build, llvm, prog, summ, compare, alg

HERE = build.HERE
sys.setrecursionlimit(100000)


class Pair:
    """one obligation set: code function (regex over the demangled name) against a reference function"""

    def __init__(self, code, spec, cases=((),), known=(), title="", **kw):
        self.code, self.spec, self.cases, self.known, self.kw = code, spec, [list(c) if not isinstance(c, str) else [c] for c in cases], known, kw
        self.title = title


class Group:
    """pairs that share one build configuration and one inlining policy"""

    def __init__(self, name, pairs, specs, cfg=None, opaque=(), omp=False, only=None, thorough=False, pure=()):
        self.name, self.pairs, self.specs, self.cfg, self.opaque, self.omp, self.only = name, pairs, specs, cfg, list(opaque) + list(pure), omp, only
        self.pure = list(pure)      # opaque functions whose result depends on nothing but the values of their arguments
        self.thorough = thorough


class Result:
    def __init__(self):
        self.violations = []      # dicts: function, what, where, detail
        self.known = []           # texts
        self.items = []           # what was analysed
        self.obligations = 0
        self.broken = []
        self.samples = []
        self.extra = {}

    def add(self, fn, what, where="", detail=""):
        self.violations.append({"function": fn, "what": what, "where": where, "detail": detail})


_G = {}


def _task(key):
    P, pair, cname, case, limit = _G["P"], *_G["tasks"][key]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t0 = time.time()
    out = {"fn": P.dem(cname), "case": case, "spec": pair.spec, "diffs": [], "n": 0, "err": None, "known": None}
    try:
        kw = dict(pair.kw)
        S = P.summary(cname, pre=case)
        T = P.summary(pair.spec, pre=case)
        d, n = compare.compare(S, T, **kw)
        out["n"] = n
        out["writes"] = sum(isinstance(w, summ.Write) for w in S.log)
        out["calls"] = len(S.calls)
        out["fnlines"] = sorted({(compare.relpath(w.file), w.line) for w in S.log if isinstance(w, summ.Write) and w.line})[:3]
        if d and pair.known:
            for kspec, text in pair.known:
                K = P.summary(kspec, pre=case)
                d2, n2 = compare.compare(S, K, **kw)
                if not d2:
                    out["known"] = text
                    d = []
                    break
        out["diffs"] = [{"what": x.what, "where": "%s:%s" % (x.file, x.line), "detail": x.detail} for x in d[:int(os.environ.get("VERIF_DIFFS", "6"))]]
    except (summ.Unsupported, alg.Blowup, RecursionError) as e:
        if compare.DEBUG:
            traceback.print_exc()
        out["err"] = "cannot summarise (%s: %s)" % (type(e).__name__, str(e)[:300])
    except _Timeout:
        out["err"] = "analysis time limit reached"
    except Exception:
        out["err"] = traceback.format_exc()[-1500:]
    signal.alarm(0)
    out["t"] = round(time.time() - t0, 2)
    return out


class _Timeout(Exception):
    pass


def _alarm(*a):
    raise _Timeout()


def run_group(g, res, limit=600, procs=8, only=None):
    cfg = g.cfg or build.config()
    with build.Tree(cfg) as tree:
        m = build.load(tree, specs=g.specs, omp=g.omp, only=g.only)
        P = prog.Prog(m, opaque=list(g.opaque), pure=g.pure)
        todo = []
        roots = set()
        for p in g.pairs:
            if only and not re.search(only, p.code):
                continue
            names = m.find(p.code)
            if not names:
                res.broken.append("[%s] no function matches %s" % (g.name, p.code))
                continue
            for s in [p.spec] + [k[0] for k in p.known] + [x for c in p.cases for x in c]:
                if s not in m.fns:
                    raise build.AnalysisBroken("reference function %s is missing" % s)
                roots.add(s)
            for n in names:
                roots.add(n)
                for c in p.cases:
                    todo.append((p, n, c, limit))
        P.prepare(sorted(roots))
        _G["P"], _G["tasks"] = P, todo
        ctx = mp.get_context("fork")
        with ctx.Pool(procs, maxtasksperchild=1) as pool:
            outs = pool.map(_task, range(len(todo)), chunksize=1)
        for o in outs:
            tag = "%s%s" % (o["fn"], (" [" + ",".join(o["case"]) + "]") if o["case"] else "")
            res.items.append({"group": g.name, "function": o["fn"], "reference": o["spec"], "case": o["case"], "obligations": o["n"], "seconds": o["t"],
                              "effects": o.get("writes", 0), "calls": o.get("calls", 0)})
            if o["err"]:
                res.broken.append("[%s] %s: %s" % (g.name, tag, o["err"]))
                continue
            res.obligations += o["n"]
            if o["n"] == 0:
                res.broken.append("[%s] %s: no obligation generated" % (g.name, tag))
            if o["known"]:
                if o["known"] not in res.known:
                    res.known.append(o["known"])
            for d in o["diffs"]:
                res.add(tag, d["what"], d["where"], d["detail"])
            if len(res.samples) < 4 and not o["diffs"]:
                res.samples.append("%s == %s%s: %d final-state/call obligations" % (o["fn"], o["spec"], " under " + ",".join(o["case"]) if o["case"] else "", o["n"]))


def write_evidence(pid, tier, level, res, t0, explanation, rule):
    fns = sorted({i["function"] for i in res.items if "function" in i})
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": {"explanation": explanation, "rule": rule, "functions_analysed": len(fns), "functions": fns[:200], "instances": len(res.items),
                       "obligations": res.obligations, "discharged": max(0, res.obligations - len(res.violations)), "items": res.items[:400],
                       "samples": res.samples or [str(res.items[:2])], **res.extra},
          "violations": len(res.violations), "known_findings": res.known, "analysis_broken": res.broken[:10],
          "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def finish(pid, tier, res, t0, explanation, rule, level="other"):
    write_evidence(pid, tier, level, res, t0, explanation, rule)
    for k in res.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s: %d instances, %d obligations, %d violations, %d known findings, %.1f s" %
          (pid, len(res.items), res.obligations, len(res.violations), len(res.known), time.time() - t0))
    if res.violations:
        rp = os.path.join("evidence", pid + ".report.txt")
        with open(os.path.join(HERE, rp), "w") as f:
            for v in res.violations:
                f.write("%(function)s\n  at %(where)s\n  %(what)s\n  %(detail)s\n\n" % v)
        for v in res.violations[:int(os.environ.get("VERIF_SHOW", "4"))]:
            print("  %(function)s: at %(where)s: %(what)s -- %(detail)s" % {**v, "detail": v["detail"][:int(os.environ.get("VERIF_WIDTH", "300"))]})
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if res.broken:
        for b in res.broken[:10]:
            print("ANALYSIS-BROKEN: " + b)
        return 2
    return 0
