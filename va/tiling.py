"""How the area is cut into sub-domains: arguments and contents of the objects the constructor of the block of sub-domains creates."""
from . import alg, build, inst, summ
from .alg import *
from .checks import Prog, VECOPS, guarded, query, arg, atom_of, resolve, const_int
from .compare import same
from .summ import base_split

CTOR = r"SMB::SMB\(Cfg.*"
OP = VECOPS + [r"SpecieP::SpecieP\(.*", r"BeamP::BeamP\(.*", r"Domain::Domain\(.*", r"Grid<Domain\*>::Grid\(.*", r"verif_.*"]
FIELDS = {"size": 2, "global_size": 2, "cell_size": 2, "cell_dims": 4, "cell_amount": 2, "global_cell_amount": 2, "pml_size": 4, "pml_sigma": 2}


def tiling(cfg=None, name="", pml=True, ext=False, sizes=((1, 1), (1, 2), (2, 1), (2, 2), (3, 4))):
    @guarded
    def f(res, tier):
        with Prog([CTOR], ["tiling.cpp"], cfg, OP) as C:
            P = C.P
            S = P.summary(C.names[CTOR][0])
            fn = "SMB::SMB()"
            G, CF = mk("arg", (2,)), mk("arg", (1,))
            me = {arg(0): G}
            off = {k: const_int(query(P, "q_off_" + k)) for k in list(FIELDS) + ["domains_amount", "walls"]}
            for R_, Z_ in sizes + (((5, 3), (4, 8)) if tier == "thorough" else ()):
                env = {}
                for q, v in (("q_dom0", rc(R_)), ("q_dom1", rc(Z_))):
                    env[atom_of(query(P, q, me))] = v
                nr, nz = mk("cells", (0,), True), mk("cells", (1,), True)
                env[atom_of(query(P, "q_ncell0", me))] = rscale(nr, R_)
                env[atom_of(query(P, "q_ncell1", me))] = rscale(nz, Z_)
                tag = "%s%d x %d sub-domains" % (name and name + ", ", R_, Z_)
                made = {}
                geoms = {}
                stored = {}
                n0 = res.obligations
                for c in S.calls:
                    short = c.dem.split("(")[0]
                    if short not in ("Domain::Domain", "SpecieP::SpecieP", "BeamP::BeamP", "Grid<Domain*>::Grid") and not short.endswith("push_back"):
                        continue
                    for ij, e, rest in places(c, env):
                        g = resolve(c.guard, e)
                        if isF(g):
                            continue
                        at = "%s:%s" % (c.file, c.line)
                        made.setdefault(short, []).append((ij, c, e, g, rest, at))
                want = [(i, j) for i in range(R_) for j in range(Z_)]
                # --- sub-domains and their geometry
                doms = made.get("Domain::Domain", [])
                if sorted(x[0] for x in doms) != want or any(not isT(x[3]) or x[4] for x in doms):
                    res.add(fn, "not every place of the grid gets exactly one sub-domain", doms[0][5] if doms else "", tag)
                    continue
                for ij, c, e, g, rest, at in doms:
                    here = {**me, arg(1): rc(ij[0]), arg(2): rc(ij[1])}

                    def E(q):
                        return resolve(P_query(P, q, here), env)
                    got = {k: resolve(v, e) for k, v in c.iargs.get(1, {}).items()}
                    for fld, n in FIELDS.items():
                        if fld.startswith("pml") and not pml:
                            continue
                        for k in range(n):
                            v = got.get(("v", off[fld], 8 * k))
                            res.obligations += 1
                            if v is None:
                                res.broken.append("%s[%d] of the geometry of sub-domain %s is not determined" % (fld, k, ij))
                                return
                            d = same(v, E("e_%s_%d" % (fld, k)))
                            if d:
                                res.add(fn, "%s[%d] of a sub-domain's geometry is wrong" % (fld, k), at, "%s, sub-domain %s: code %s, required %s" % (tag, ij, show(d[1])[:200], show(d[2])[:200]))
                    v = got.get(("v", off["walls"], 0))
                    w = leaf(ZERO)
                    for k in range(4):
                        w = vadd(w, ite(S.tobool(E("e_wall_%d" % k)), leaf(rc(2 ** k)), leaf(ZERO)))
                    res.obligations += 1
                    if v is None:
                        res.broken.append("walls of sub-domain %s are not determined" % (ij,))
                        return
                    d = same(v, w)
                    if d:
                        res.add(fn, "walls of a sub-domain are wrong", at, "%s, sub-domain %s: code %s, required %s" % (tag, ij, show(d[1])[:200], show(d[2])[:200]))
                    res.obligations += 1
                    if same(resolve(c.args[3], e), leaf(mk("arg", (3,)))):
                        res.add(fn, "a sub-domain does not get the clock of the simulation", at, tag)
                    for a, f in ((4, 0), (5, 1)) if ext else ():
                        # each profile and its parameters are those configured for that field
                        wants = [(("o", 0), P_query(P, "q_profile", {arg(0): CF, arg(1): rc(f)}), a)]
                        wants += [(("v", 0, 8 * k), P_query(P, "q_param", {arg(0): CF, arg(1): rc(f), arg(2): rc(k)}), a + 2) for k in range(2)]
                        for key, w, ai in wants:
                            v = c.iargs.get(ai, {}).get(key, c.vargs.get(ai, {}).get(key))
                            res.obligations += 1
                            if v is None:
                                res.broken.append("external field of a sub-domain is not determined (argument %d)" % ai)
                                return
                            d = same(resolve(v, e), resolve(w, env))
                            if d:
                                res.add(fn, "a sub-domain gets another external field than configured", at, "%s, argument %d: code %s, required %s" % (tag, ai, show(d[1])[:200], show(d[2])[:200]))
                    res.obligations += 1
                    d0 = resolve(c.args[0], e)
                    dom_of = [w for w in S.log if isinstance(w, summ.Write) and w.kind == "st" and w.val is not None and w.val.atom is None and w.val.r.key() == c.args[0].r.key() and not S.islocal(w.addr)]
                    ok = False
                    for w in dom_of:
                        ok = ok or slot(P, w, e, ij, env)
                    if not ok:
                        res.add(fn, "a sub-domain is not stored at its place of the grid", at, "%s, sub-domain %s" % (tag, ij))
                # --- plasma and beams
                for cls, op, cnt, skip in (("SpecieP::SpecieP", "op_specie", "q_species", (2, 9, 10)), ("BeamP::BeamP", "op_beam", "q_beams", (2, 13, 14))):
                    calls = made.get(cls, [])
                    if sorted(x[0] for x in calls) != want:
                        res.add(fn, "%s: not every sub-domain gets its particles" % cls, calls[0][5] if calls else "", tag)
                        continue
                    T = P.summary(op)
                    ref = [x for x in T.calls if x.dem in ("verif_specie", "verif_beam")][0]
                    for ij, c, e, g, rest, at in calls:
                        res.obligations += 1
                        if len(rest) != 1:
                            res.add(fn, "%s is created in another loop than the one over the configured species" % cls, at, tag)
                            continue
                        q, n = rest[0]
                        if same(resolve(n, e), resolve(P_query(P, cnt, {arg(0): CF}), env)) and same(vsub(leaf(ZERO), vsub(leaf(ZERO), tov(resolve(n, e)))), resolve(P_query(P, cnt, {arg(0): CF}), env)):
                            res.add(fn, "%s is not created for every configured one" % cls, at, "%s: %s" % (tag, show(resolve(n, e))[:150] if isinstance(n, R) else showv(resolve(n, e))[:150]))
                        k = R({((q, 1),): ONE.t[()]})
                        sub = {**me, arg(1): rc(ij[0]), arg(2): rc(ij[1]), arg(3): CF, arg(4): k}
                        want_a = [resolve(subst(a, sub), env) for a in ref.args]
                        wg = resolve(subst(ref.guard, sub), env)
                        nonempty = cmp_eq0(tor(resolve(P_query(P, cnt, {arg(0): CF}), env)), True)
                        res.obligations += len(want_a)
                        if same(ite(nonempty, leaf(ZERO), g), ite(nonempty, leaf(ZERO), wg)):
                            res.add(fn, "%s is created under another condition than required" % cls, at, "%s: %s" % (tag, showv(g)[:150]))
                        have = [resolve(a, e) for a in c.args]
                        for a in range(len(want_a)):
                            b = a + 1
                            if b == 2:
                                x = c.iargs.get(2, {}).get(("o", 0))
                                if x is None:
                                    res.broken.append("the name of a %s is not determined" % cls)
                                    return
                                d = same(resolve(x, e), want_a[1])
                                if d:
                                    res.add(fn, "%s gets a wrong name" % cls, at, "%s: code %s, required %s" % (tag, show(d[1])[:150], show(d[2])[:150]))
                                continue
                            d = same(have[b], want_a[a], g)
                            if d:
                                res.add(fn, "%s: argument %d is wrong" % (cls, b), at, "%s, sub-domain %s: code %s, required %s" % (tag, ij, show(d[1])[:200], show(d[2])[:200]))
                        # geometry: the object the sub-domain's own geometry is copied from; clock
                        res.obligations += 2
                        gm = have[skip[1]]
                        dc = [x for x in doms if x[0] == ij][0]
                        if gm.atom is not None or not fresh(gm.r):
                            res.add(fn, "%s does not get a geometry of its own sub-domain" % cls, at, tag)
                        else:
                            geoms.setdefault(gm.r.key(), set()).add(ij)
                        if same(have[skip[2]], leaf(mk("arg", (3,)))):
                            res.add(fn, "%s does not get the clock of the simulation" % cls, at, tag)
                for k, v in geoms.items():
                    res.obligations += 1
                    if len(v) > 1:
                        res.add(fn, "several sub-domains share one geometry", "", "%s: %s" % (tag, sorted(v)))
                pb = [x for x in made if x.endswith("push_back")]
                objs = {}
                for p in pb:
                    for ij, c, e, g, rest, at in made[p]:
                        objs.setdefault((ij, c.args[1].r.key() if c.args[1].atom is None else None), []).append(c.args[0].r.key() if c.args[0].atom is None else None)
                for cls in ("SpecieP::SpecieP", "BeamP::BeamP"):
                    for ij, c, e, g, rest, at in made.get(cls, []):
                        res.obligations += 1
                        if len(objs.get((ij, c.args[0].r.key()), [])) != 1:
                            res.add(fn, "%s is not put into the list of its sub-domain exactly once" % cls, at, tag)
                res.items.append({"function": fn, "instance": tag, "obligations": res.obligations - n0})
    return f


def P_query(P, fn, env):
    v = P.summary(fn).ret
    return subst(v, dict(env))


def tov(x):
    return leaf(x) if isinstance(x, R) else x


def tor(x):
    if isinstance(x, R):
        return x
    if x.atom is not None:
        raise build.AnalysisBroken("number of species is conditional")
    return x.r


def fresh(r):
    b, o = base_split(r)
    return b is not None and ATOMS[b].kind == "new" and not o.t


def places(c, env):
    """the loops over the grid of sub-domains spelled out: ((i, j), environment, remaining loops)"""
    def go(i, e, idx):
        if i < len(c.quants) and len(idx) < 2:
            q, n = c.quants[i]
            nn = const_int(resolve(n, e))
            if nn is None:
                yield tuple(idx), e, [(q, resolve(n, e)) for q, n in c.quants[i:]]
                return
            for v in range(max(0, nn)):
                yield from go(i + 1, {**e, q: rc(v)}, idx + [v])
            return
        yield tuple(idx), e, [(q, resolve(n, e)) for q, n in c.quants[i:]]
    yield from go(0, env, [])


def slot(P, w, e, ij, env):
    """does write w of a sub-domain go to place ij of the grid of sub-domains?"""
    ad = resolve(w.addr, e)
    want = query(P, "q_slot", {arg(1): rc(ij[0]), arg(2): rc(ij[1])})
    base = const_int(query(P, "q_smb_domains"))
    outs = {}
    for a in deep_atoms(ad, set()):
        if ATOMS[a].kind == "out" and len(ATOMS[a].args) > 1:
            o = ATOMS[a].args[1]
            outs[o.const() if isinstance(o, R) else o] = R({((a, 1),): ONE.t[()]})
    mp = {}
    for a in deep_atoms(want, set()):
        if ATOMS[a].kind == "load":
            b, o = base_split(ATOMS[a].args[0])
            if b is not None and ATOMS[b].kind == "arg" and ATOMS[b].args[0] == 0 and o.is_const() and (o.const() - base) in outs:
                mp[a] = outs[o.const() - base]
    want = resolve(subst(want, mp), env)
    return same(leaf(ad), leaf(want)) is None
