"""Checks that work on finite instances (order of operations, exchange pattern, ...)."""
import re
import traceback

from . import alg, build, inst, prog, summ, trace
from .alg import *
from .inst import query, arg, atom_of, instances, resolve, const_int, content


class Prog:
    """context manager: program prepared with the given roots (regexes over demangled names) and opaque functions"""

    def __init__(self, roots, specs, cfg=None, opaque=(), omp=False):
        self.roots, self.specs, self.cfg, self.opaque, self.omp = roots, specs, cfg, opaque, omp

    def __enter__(self):
        self.tree = build.Tree(self.cfg or build.config())
        try:
            m = build.load(self.tree, specs=self.specs, omp=self.omp)
            self.P = prog.Prog(m, opaque=list(self.opaque))
            self.names = {}
            al = []
            for r in self.roots:
                ns = m.find(r)
                if not ns:
                    raise build.AnalysisBroken("no function matches %s" % r)
                self.names[r] = ns
                al += ns
            al += [n for n in m.defined() if n.startswith(("q_", "op_", "pre_", "spec_", "e_"))]
            self.P.prepare(sorted(set(al)))
        except BaseException:
            self.tree.close()
            raise
        return self

    def __exit__(self, *a):
        self.tree.close()


def guarded(f):
    """analysis limits must not pass silently"""
    def g(res, tier):
        try:
            f(res, tier)
        except (summ.Unsupported, alg.Blowup, RecursionError, inst.NotFinite) as e:
            res.broken.append("%s: %s: %s" % (f.__name__, type(e).__name__, str(e)[:300]))
    g.__name__ = f.__name__
    return g


LEAF = [r"SMB::(current|field_e|field_h)_overlay\(\)", r"SMB::particles_runaway_collector\(\)", r"Domain::reset_current\(\)",
        r"MaxwellSolver(Yee)?::calc_field_[eh]\(\)", r"Current(VB|ZigZag)?::current_distribution\(\)", r"(Pusher\w*|Collisions\w*|ExternalFields)::operator\(\)\(\)",
        r"(SpecieP|BeamP)::(dump_position_to_old|mover_cylindrical|back_position_to_rz|back_velocity_to_rz|reflect|bind_cell_numbers|fullyfill_spatial_distribution|velocity_distribution|inject)\(\)"]
SIZES = [(1, 1), (1, 3), (3, 1), (2, 2), (3, 4)]


def step_order(cfg=None, coll=False, ext=False, name=""):
    @guarded
    def f(res, tier):
        fns = {
            "solve_maxvell": (dict(field_e=2, overlay_e=0, field_h=2, overlay_h=0, **(dict(external=2) if ext else {})),
                              [("field_e", "overlay_e"), ("overlay_e", "field_h"), ("field_h", "overlay_h"), ("overlay_h", "external")]),
            "solve_current": (dict(reset_current=2, weight_current=2, overlay_current=0), [("reset_current", "weight_current"), ("weight_current", "overlay_current")]),
            "advance_particles": (dict(push=2, dump_old=3, move=3, fold_position=3, fold_velocity=3, reflect=3, bind=3, runaway=0, **(dict(collide=2) if coll else {})),
                                  [("push", "move"), ("push", "collide"), ("collide", "move"), ("push", "fold_velocity"), ("collide", "fold_velocity"), ("dump_old", "move"), ("move", "fold_position"), ("fold_position", "fold_velocity"),
                                   ("fold_velocity", "reflect"), ("fold_position", "reflect"), ("reflect", "bind"), ("bind", "runaway")]),
            "distribute": (dict(fill=3, bind=3, velocity=3), [("fill", "bind"), ("fill", "velocity")]),
            "inject_beam": (dict(inject=3), []),
        }
        with Prog([r"SMB::%s\(\)" % n for n in fns], ["steps.cpp"], cfg, LEAF) as C:
            P = C.P
            for fn, (ops, edges) in fns.items():
                for R, Z in SIZES:
                    for K in (1, 2):
                        for nb in ((0, 1) if fn == "inject_beam" else (1,)):
                            def extra(sc, P, i, j, e):
                                a = atom_of(resolve(query(P, "q_left_cell", e), sc.env))
                                sc.env[a] = rc(0 if j == 0 else 8 * j)
                            sc = trace.Scope(P, fn, R, Z, K, extra)
                            trace.bind(sc.env, resolve(query(P, "q_beams"), sc.env), nb)
                            want = trace.allidx(ops, sc)
                            if fn == "inject_beam":
                                want = {e for e in want if nb and e[1][1] == 0}
                            trace.order(P, C.names[r"SMB::%s\(\)" % fn][0], sc, ops, edges, want, res,
                                        "%s%d x %d sub-domains, %d species%s" % (name and name + ", ", R, Z, K, ", beams configured: %d" % nb if fn == "inject_beam" else ""))
    return f


PAIRKINDS = {"x": (1, 0), "y": (0, 1), "xy": (1, 1)}


@guarded
def exchange(res, tier):
    """which borders are exchanged: every pair of adjacent sub-domains exactly once, for every field"""
    fields = {"current_overlay": ["current"], "field_e_overlay": ["field_e"], "field_h_overlay": ["field_h", "field_h_at_et"]}
    known = "sub-domains adjacent across an anti-diagonal corner, (i+1,j) and (i,j+1), never exchange their shared corner cells (current_overlay, field_e_overlay, field_h_overlay)"
    anti = set()
    with Prog([r"SMB::%s\(\)" % n for n in fields], ["smb.cpp"], None, [r"Grid3D<.*>::overlay_.*"]) as C:
        P = C.P
        for fn, fs in fields.items():
            S = P.summary(C.names[r"SMB::%s\(\)" % fn][0])
            for R in range(1, 6):
                for Z in range(1, 6):
                    env = {atom_of(query(P, q)): rc(v) for q, v in (("q_r_domains", R), ("q_z_domains", Z), ("q_dom0", R), ("q_dom1", Z))}
                    grid = {}
                    for i in range(R):
                        for j in range(Z):
                            d = resolve(query(P, "q_domain", {arg(1): rc(i), arg(2): rc(j)}), env)
                            for f in fs:
                                g = resolve(query(P, "q_" + f, {arg(0): d}), env)
                                grid[g.key()] = (f, i, j)
                                grid[resolve(query(P, "q_buffer", {arg(0): g}), env).key()] = (f, i, j)
                    seen = {}
                    where = {}

                    def name(x, k):
                        c = content(x, k)
                        for o, v in c.items():
                            if o in (0, ("o", 0)) and v.atom is None and v.r.key() in grid:
                                return grid[v.r.key()]
                        v = x.args[k]
                        return grid.get(v.r.key()) if v.atom is None else None
                    I = instances(S, env)
                    for x in I:
                        m = re.search(r"overlay_(\w+)\(", x.dem)
                        a, b = name(x, 0), name(x, 1)
                        w = "%s:%s" % (x.file, x.line)
                        if a is None or b is None or not isT(x.guard) or m.group(1) not in PAIRKINDS:
                            res.add(P.dem(C.names[r"SMB::%s\(\)" % fn][0]), "exchange with operands or condition outside the grid of sub-domains", w, "%d x %d: %s" % (R, Z, showv(x.guard)[:200]))
                            continue
                        k = (m.group(1), a, b)
                        seen[k] = seen.get(k, 0) + 1
                        where[k] = w
                    want = set()
                    for f in fs:
                        for i in range(R):
                            for j in range(Z):
                                for kind, (di, dj) in PAIRKINDS.items():
                                    if i + di < R and j + dj < Z:
                                        want.add((kind, (f, i, j), (f, i + di, j + dj)))
                                if i + 1 < R and j + 1 < Z:
                                    anti.add(fn)
                    for k in sorted(want | set(seen)):
                        res.obligations += 1
                        n = seen.get(k, 0)
                        if (k in want) != (n == 1) or n > 1:
                            res.add("SMB::%s()" % fn, "border exchange overlay_%s of %s between sub-domains is %s" % (k[0], k[1][0], "missing" if n == 0 else "performed twice" if k in want else "between sub-domains that do not share that border"),
                                    where.get(k, ""), "%d x %d sub-domains: %s with %s" % (R, Z, k[1][1:], k[2][1:]))
                    res.items.append({"function": "SMB::%s()" % fn, "instance": "%d x %d sub-domains" % (R, Z), "exchanges": len(I)})
    if anti:
        res.known.append(known)


FLIP = {"ole": ("le", 0), "ule": ("le", 0), "oge": ("ge", 0), "uge": ("ge", 0), "ogt": ("le", 1), "ugt": ("le", 1), "olt": ("ge", 1), "ult": ("ge", 1)}


def main_loop(cfg=None, name="", pause=True):
    """every path of main(): distribute once, then per step inject/fields, advance, currents, output, clock, while current <= end"""
    from . import flow
    ops = {"inject": r"SMB::inject_beam\(\)", "fields": r"SMB::solve_maxvell\(\)", "advance": r"SMB::advance_particles\(\)",
           "currents": r"SMB::solve_current\(\)", "output": r"OutController::operator\(\)\(\)", "distribute": r"SMB::distribute\(\)", "init": r"SMB::SMB\(.*"}
    deps = {"inject": set(), "fields": set(), "advance": {"inject", "fields"}, "currents": {"advance"}, "output": {"inject", "fields", "advance", "currents"}}

    @guarded
    def f(res, tier):
        with Prog(["main"], ["mainloop.cpp"], cfg, [r"SMB::.*", r"OutController::.*", r"Cfg::.*", "signal_handler.*", "msg::.*"]) as C:
            m = C.P.m

            def off(q):
                G = m.extract(q)
                V = flow.Values(G, m)
                r = [I for I in G.insts if I.op == "ret"][0]
                v = V(r.ops[0])
                return v[2] if v[0] == "gep" else 0
            cur, end, stp, clk = [off("q_" + x) for x in ("current_time", "end_time", "step_time", "clock")]
            F = m.extract("main")
            V = flow.Values(F, m)

            def clock(p, o):
                """pointer p addresses field o of the run's clock"""
                b = p
                d = 0
                if p[0] == "gep":
                    b, d = p[1], p[2]
                if d != o or b[0] != "load":
                    return False
                q = b[1]
                if q[0] != "gep":
                    return clk == 0 and q[0] == "alloca"
                return q[2] == clk and q[1][0] == "alloca" and "Cfg" in q[1][2]

            def kind(I):
                c = flow.callee(I)
                if c is None:
                    return None
                d = C.P.dem(c)
                for k, r in ops.items():
                    if re.fullmatch(r, d):
                        return k
                return None

            ev = {}
            for I in F.insts:
                if I.op in ("call", "invoke"):
                    k = kind(I)
                    if k:
                        ev[I.id] = k
                elif I.op == "store":
                    p = V(I.ops[1])
                    if clock(p, cur):
                        v = V(I.ops[0])
                        good = v[0] == "fadd" and {0, 1} == {i for i in (0, 1) for x in [v[1 + i]] if x[0] == "load" and (clock(x[1], cur) or clock(x[1], stp))} and \
                            any(clock(x[1], cur) for x in v[1:]) and any(clock(x[1], stp) for x in v[1:])
                        ev[I.id] = "tick" if good else "badtick"
                    elif clock(p, end) or clock(p, stp):
                        ev[I.id] = "badtick"
            res.items.append({"function": "main", "instance": name or "default", "events": sorted(set(ev.values())), "event_sites": len(ev)})
            for need in list(deps) + ["tick", "distribute"]:
                res.obligations += 1
                if need not in ev.values():
                    res.add("main", "step operation %s is never performed" % need, "src/PiCoPiC.cpp", name)

            # state: (phase, done, more)
            def step(s, I):
                k = ev.get(I.id)
                ph, done, more = s
                if I.op == "ret":
                    if ph == "no" or (ph == "go" and more == "done" and not done):
                        return s
                    return ("!", "the run can end before the configured end time or in the middle of a step")
                if k is None:
                    return s
                if k == "init":
                    return s
                if k == "distribute":
                    return ("go", frozenset(), None) if ph == "no" else ("!", "particles are distributed again during the run")
                if ph != "go":
                    return ("!", "%s before the particles are distributed" % k)
                if k == "badtick":
                    return ("!", "the clock is changed otherwise than by one step")
                if more != "more":
                    return ("!", "%s without checking that the end time is not yet reached" % k)
                if k == "tick":
                    missing = set(deps) - done
                    if missing:
                        return ("!", "the clock advances although %s was not performed in this step" % ", ".join(sorted(missing)))
                    return ("go", frozenset(), None)
                if k in done:
                    return ("!", "%s is performed twice in one step" % k)
                if deps[k] - done:
                    return ("!", "%s is performed before %s" % (k, ", ".join(sorted(deps[k] - done))))
                return ("go", done | {k}, more)

            def edge(s, B, d):
                I = B.insts[-1]
                if I.op == "br" and I.ops and I.x[0] != I.x[1]:
                    c = V(I.ops[0])
                    inv = 0
                    while c[0] == "not":
                        c, inv = c[1], 1 - inv
                    if c[0] == "fcmp" and c[1] in FLIP and c[2][0] == "load" and c[3][0] == "load":
                        rel, n = FLIP[c[1]]
                        a, b = c[2][1], c[3][1]
                        if rel == "ge":
                            a, b = b, a
                        if clock(a, cur) and clock(b, end):
                            true = (d == I.x[0])
                            holds = true ^ bool(n) ^ bool(inv)
                            if s[0] != "go":
                                return s
                            return (s[0], s[1], "more" if holds else "done")
                return s
            bad, n = flow.run(F, ("no", frozenset(), None), step, edge)
            res.obligations += n
            res.samples.append("main: %d (block, automaton state) pairs visited" % n)
            if n < 10:
                res.broken.append("main: only %d states visited" % n)
            for msg, line, file, path in bad:
                res.add("main", msg, "%s:%s" % (file, line), "%s path through blocks %s" % (name, path[-12:]))
    return f


VECOPS = [r"(void )?std::vector<(Particle_struct|Particle|SpecieP)\*.*>::(push_back|erase|insert|emplace_back)\(.*"]


def migration(cfg=None, name="", sizes=((1, 1), (1, 2), (2, 1), (2, 2), (4, 2), (2, 4), (1, 4))):
    """every particle of every sub-domain and species is decided once: kept, removed, or handed over to the sub-domain of its cell"""
    from . import compare

    @guarded
    def f(res, tier):
        root = r"SMB::particles_runaway_collector\(\)"
        with Prog([root], ["migrate.cpp"], cfg, VECOPS) as C:
            P = C.P
            S = P.summary(C.names[root][0])
            T = P.summary("spec_runaway")
            for w in S.log:
                if isinstance(w, summ.Write) and not S.islocal(w.addr) and not isF(w.guard):
                    res.add("SMB::particles_runaway_collector()", "program state is written besides the lists of particles", "%s:%s" % (w.file, w.line), show(w.addr)[:200])
            for a in S.aborts:
                res.add("SMB::particles_runaway_collector()", "the program is ended while particles are collected", "", str(a)[:200])
            for R, Z in sizes + (((6, 6), (8, 2)) if tier == "thorough" else ()):
                env = {}
                for q, v in (("q_r_domains", R), ("q_z_domains", Z), ("q_dom0", R), ("q_dom1", Z)):
                    env[atom_of(query(P, q))] = rc(v)
                a, b = inst.partial(S, env), inst.partial(T, env)
                a = [c for c in a if not ("basic_string" in c.dem and c.dem.endswith(" const"))]
                res.obligations += len(b)
                res.items.append({"function": "SMB::particles_runaway_collector()", "instance": "%s%d x %d sub-domains" % (name, R, Z), "operations": len(a)})
                for d in compare.compare_calls(a, b, True):
                    res.add("SMB::particles_runaway_collector()", d.what, "%s:%s" % (d.file, d.line), "%s%d x %d sub-domains: %s" % (name, R, Z, d.detail))
    return f
