"""Configuration matrix: every option configure offers type-checks, links, and selects the implementation it names."""
import concurrent.futures as cf
import os
import re
import subprocess

from . import build, llvm

PUSH = {"BORIS_ADAPTIVE": "PusherBoris", "BORIS": "PusherBoris", "BORIS_RELATIVISTIC": "PusherBoris", "VAY": "PusherVay", "HC": "PusherHC"}
BASE = {"pusher": "PusherBoris", "current": "CurrentVB", "maxwell": "MaxwellSolverYee", "external": None, "collisions": None}
FAMILY = {"pusher": r"Pusher(?!::)\w+", "current": r"Current(?!::)\w+", "maxwell": r"MaxwellSolver(?!::)\w+", "external": r"ExternalFields", "collisions": r"Collisions(?!::)\w+"}
PLACE = {"RANDOM": ("rectangular_random_placement", "set_weight"), "FLAT": (), "CENTERED": (), "REGULAR": ()}


def configs():
    D = build.config
    out = [("default", D(), {})]
    for p, c in PUSH.items():
        if p != "BORIS_ADAPTIVE":
            out.append(("pusher " + p.lower(), D(drop=["SWITCH_PUSHER_BORIS_ADAPTIVE"], **{"SWITCH_PUSHER_" + p: "true"}), {"pusher": c}))
        out.append(("pusher %s, external fields" % p.lower(), D(drop=["SWITCH_PUSHER_BORIS_ADAPTIVE"], ENABLE_EXTERNAL_FIELDS="true", ENABLE_DEVELOPMENT="true", **{"SWITCH_PUSHER_" + p: "true"}),
                    {"pusher": c, "external": "ExternalFields"}))
    for p in ("RANDOM", "REGULAR", "CENTERED"):
        out.append(("plasma spatial " + p.lower(), D(drop=["SWITCH_PLASMA_SPATIAL_FLAT"], **{"SWITCH_PLASMA_SPATIAL_" + p: "true"}), {}))
    for p in ("RECTANGULAR", "EIGEN"):
        out.append(("plasma velocity " + p.lower(), D(drop=["SWITCH_PLASMA_VELOCITY_THERMAL"], **{"SWITCH_PLASMA_VELOCITY_" + p: "true"}), {}))
    out.append(("current zigzag", D(drop=["SWITCH_CCS_VB"], SWITCH_CCS_ZIGZAG="true"), {"current": "CurrentZigZag"}))
    for c in ("TA77S", "SK98", "P12"):
        out.append(("collisions " + c.lower(), D(ENABLE_COULOMB_COLLISIONS="true", ENABLE_EXPERIMENTAL="true", **{"SWITCH_COULOMB_COLLISIONS_" + c: "true"}), {"collisions": "Collisions" + c}))
    out.append(("no absorbing layer", D(drop=["ENABLE_PML"]), {}))
    for e in ("MPI", "DEBUG", "SINGLETHREAD", "OMP_DYNAMIC", "IEEE", "FIXME", "PROFILER"):
        out.append((e.lower(), D(**{"ENABLE_" + e: "true"}), {}))
    out.append(("everything optional", D(ENABLE_MPI="true", ENABLE_DEBUG="true", ENABLE_COULOMB_COLLISIONS="true", SWITCH_COULOMB_COLLISIONS_TA77S="true", ENABLE_EXTERNAL_FIELDS="true",
                                        ENABLE_OMP_DYNAMIC="true"), {"collisions": "CollisionsTA77S", "external": "ExternalFields"}))
    return out


def one(job):
    name, cfg, sel = job
    out = {"name": name, "files": 0, "errors": [], "undefined": [], "built": {}, "switches": set()}
    with build.Tree(cfg) as t:
        objs = []
        for i, s in enumerate(t.sources()):
            o = os.path.join(t.dir, "c%02d.bc" % i)
            try:
                r = subprocess.run(["clang++-18", "-std=c++17", "-w", "-O0", "-g0", "-Xclang", "-mno-constructor-aliases", "-I", os.path.join(t.dir, "include"), "-I", build.STUBS, "-emit-llvm", "-c", s, "-o", o], capture_output=True, text=True)
            except OSError as e:
                raise build.AnalysisBroken(str(e))
            out["files"] += 1
            if r.returncode:
                l = [x for x in r.stderr.split("\n") if "error" in x][:1]
                out["errors"].append(("".join(l)).replace(t.dir + "/", ""))
            else:
                objs.append(o)
        if not out["errors"]:
            m = llvm.Module(objs)
            for n, f in list(m.fns.items()):
                d = m.demangled.get(n, n)
                if llvm.IsDecl(f):
                    q = re.sub(r"<.*", "", d.split("(")[0]).split(" ")[-1]
                    if re.match(r"(Domain|SMB|SpecieP|BeamP|Grid|Grid3D|Cfg|Current\w*|Pusher\w*|MaxwellSolver\w*|ExternalFields|Collisions\w*|Out\w+|Geometry|algo|phys|math|msg|constant)::", q) and "lib::" not in q:
                        out["undefined"].append(d)
            cls = set()
            for n in m.defined():
                if re.match(r"Domain::Domain\(", m.demangled.get(n, n)):
                    seen, st = set(), [n]
                    while st:
                        x = st.pop()
                        if x in seen:
                            continue
                        seen.add(x)
                        d = m.demangled.get(x, x) or ""
                        k = re.match(r"(\w+)::(\w+)\(", d)
                        if k and k.group(1) == k.group(2):
                            cls.add(k.group(1))
                        if x == n or (k and k.group(1) == "Domain"):
                            if x in m.fns and not llvm.IsDecl(m.fns[x]):
                                st += list(m.calls_in(x))
            for fam, rx in FAMILY.items():
                out["built"][fam] = sorted(c for c in cls if re.fullmatch(rx, c))
    return out


def strip_comments(s):
    return re.sub(r"//[^\n]*|/\*.*?\*/", lambda m: "\n" * m.group(0).count("\n"), s, flags=re.S)


def check(res, tier):
    jobs = configs()
    with cf.ProcessPoolExecutor(8) as ex:
        outs = list(ex.map(one, jobs))
    for (name, cfg, sel), o in zip(jobs, outs):
        res.obligations += o["files"] + 1 + len(FAMILY)
        res.items.append({"function": "configuration: " + name, "files": o["files"], "implementations": o["built"]})
        for e in o["errors"]:
            res.add("configuration: " + name, "does not build", e.split(": ")[0], e)
        for u in o["undefined"]:
            res.add("configuration: " + name, "%s is used but nowhere defined" % u, "", "link failure")
        if o["errors"]:
            continue
        want = dict(BASE, **sel)
        for fam in FAMILY:
            w = [want[fam]] if want[fam] else []
            if o["built"][fam] != w:
                res.add("configuration: " + name, "Domain builds %s instead of %s" % (o["built"][fam] or "nothing", w or "nothing"), "src/domain.cpp", fam)
    # switches that are tested but can never be set
    tmpl = os.path.join(build.REPO, "include/defines.hpp.in")
    known = None
    if os.path.exists(tmpl):
        known = set(re.findall(r"#\s*undef\s+(\w+)", open(tmpl).read()))
    ac = os.path.join(build.REPO, "configure.ac")
    offered = set(re.findall(r"AC_DEFINE(?:_UNQUOTED)?\(\[(\w+)\]", open(ac).read())) if os.path.exists(ac) else set()
    known = offered or known or set()
    used = {}
    for root in ("src", "include"):
        for d, _, fs in os.walk(os.path.join(build.REPO, root)):
            for f in fs:
                if f.startswith("defines.hpp") or not f.endswith((".cpp", ".hpp")):
                    continue
                p = os.path.join(d, f)
                for i, line in enumerate(strip_comments(open(p, errors="replace").read()).split("\n")):
                    if re.match(r"\s*#\s*(if|elif)", line):
                        for s in re.findall(r"\b(?:ENABLE|SWITCH)_\w+", line):
                            used.setdefault(s, "%s:%d" % (os.path.relpath(p, build.REPO), i + 1))
    for s, where in sorted(used.items()):
        res.obligations += 1
        if s not in known:
            res.add("configuration switches", "%s is tested but no configure option sets it" % s, where, "known: %d switches" % len(known))
    for s in sorted(offered):
        if s.startswith("SWITCH_"):
            res.obligations += 1
            if s not in used:
                res.add("configuration switches", "%s is offered by configure but selects nothing" % s, "configure.ac", "")
    res.samples.append("%d configurations, %d switches tested in the sources" % (len(jobs), len(used)))
