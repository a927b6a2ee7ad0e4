"""Data races of the parallel loops: what concurrent iterations touch, and what the functions they call may write."""
import itertools
import re

from . import alg, build, effects, inst, llvm, summ
from .alg import *
from .checks import Prog, LEAF, VECOPS, guarded, query, arg, atom_of, resolve, const_int
from .summ import base_split

SHARED = {"TimeSim", "Cfg", "SMB", "OutController"}
UNSAFE = {"strtok", "localtime", "gmtime", "ctime", "asctime", "setlocale", "setenv", "putenv", "unsetenv", "drand48", "lrand48", "mrand48", "srand48", "lgamma", "hcreate", "getopt"}
WORK = r"(Domain|SpecieP|BeamP|Pusher\w*|Current\w*|MaxwellSolver\w*|Collisions\w*|ExternalFields\w*)::"
MARK = {"verif_ws", "verif_ws_end", "verif_decide", "verif_kept", "__kmpc_global_thread_num", "__kmpc_critical", "__kmpc_end_critical", "__kmpc_barrier", "atomic"}


def chain(r):
    """base atoms from an address down to its origin"""
    out = []
    for _ in range(40):
        b, off = base_split(r)
        if b is None:
            out.append(None)
            break
        out.append(b)
        if ATOMS[b].kind != "load" or not ATOMS[b].args:
            break
        r = ATOMS[b].args[0]
        if isinstance(r, V):
            if r.atom is not None:
                out.append(None)
                break
            r = r.r
        if not isinstance(r, R):
            break
    return out


def values(v):
    if isinstance(v, R):
        return [v]
    return [x for x in leaves_of(v)]


def leaves_of(v):
    out = []
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.atom is None:
            out.append(x.r)
        else:
            st += [x.hi, x.lo]
    return out


def regions(cfg=None, name="", sizes=((1, 1), (1, 3), (3, 1), (2, 2), (4, 4), (5, 3))):
    @guarded
    def f(res, tier):
        root = r"SMB::.*\(\) \(\.omp_outlined[.\d]*\)"
        with Prog([root], ["smb.cpp", "omp.cpp"], cfg, VECOPS + [r"verif_.*", r"Grid3D<.*>::overlay_.*"] + LEAF, omp=True) as C:
            P = C.P
            names = [n for n in C.names[root] if "_debug__" not in P.dem(n)]
            res.items.append({"instance": name or "default", "parallel regions": len(names)})
            for n in names:
                region(P, n, res, sizes + (((7, 2), (2, 7), (8, 8)) if tier == "thorough" else ()), name)
    return f


def region(P, n, res, sizes, cname):
    S = P.summary(n)
    fn = re.sub(r" \(\.omp.*", "", P.dem(n))
    where = lambda c: "%s:%s" % (c.file, c.line)
    for w in S.log:
        if isinstance(w, summ.Write) and not S.islocal(w.addr) and not isF(w.guard):
            b, _ = base_split(w.addr)
            if b is not None and ATOMS[b].kind in ("new",):
                continue
            res.add(fn, "a variable shared by all threads is written in a parallel loop without synchronisation", where(w), show(w.addr)[:160])
    # which captured value is the SMB
    used = set()
    for c in S.calls:
        for a in c.args + [nn for _, nn in c.quants] + [c.guard]:
            deep_atoms(a, used)
    me = None
    for k in range(2, 14):
        e = {arg(0): mk("arg", (k,))}
        if atom_of(query(P, "q_r_domains", e)) in used or atom_of(query(P, "q_z_domains", e)) in used:
            me = e
            break
    if me is None:
        res.broken.append("%s: the grid of sub-domains is not used in a parallel region" % fn)
        return
    # captured loop starts: scalars of the enclosing function the first iteration spaces depend on (they may have any value)
    pointers = {base_split(ATOMS[a].args[0])[0] for a in used if ATOMS[a].kind == "load" and isinstance(ATOMS[a].args[0], R)}
    spaces = set()
    for c in S.calls:
        for _, nn in c.quants[:2]:
            deep_atoms(nn, spaces)
    start = {}
    for a in spaces:
        if ATOMS[a].kind == "load" and isinstance(ATOMS[a].args[0], R) and a not in pointers:
            q = atom_of(ATOMS[a].args[0])
            if q is not None and ATOMS[q].kind == "arg" and ATOMS[q].args[0] > 1 and mk("arg", (ATOMS[q].args[0],)).key() != me[arg(0)].key():
                start[a] = q
    locks = {}
    total = set()
    for R_, Z_ in sizes:
        base = {}
        for q, v in (("q_r_domains", R_), ("q_z_domains", Z_), ("q_dom0", R_), ("q_dom1", Z_)):
            base[atom_of(query(P, q, me))] = rc(v)
        for vals in itertools.product((0, 1, 2), repeat=len(start)):
            env = dict(base)
            env.update({a: rc(v) for a, v in zip(sorted(start), vals)})
            dom = {}
            for i in range(R_):
                for j in range(Z_):
                    d = resolve(query(P, "q_domain", dict(me, **{}) | {arg(1): rc(i), arg(2): rc(j)}), env)
                    dom[atom_of(d)] = (i, j)
            own = {}         # iteration -> domains touched without a lock
            far = False
            ws = None
            held = None
            nws = 0
            for c in S.calls:
                short = c.dem.split("(")[0]
                if c.dem in MARK:
                    if c.dem == "verif_ws":
                        ws = nws = nws + 1
                    elif c.dem == "verif_ws_end":
                        ws = None
                    elif c.dem == "__kmpc_critical":
                        held = lockname(c)
                    elif c.dem == "__kmpc_end_critical":
                        held = None
                    elif c.dem == "__kmpc_barrier":
                        pass
                    continue
                if isF(resolve(c.guard, env)):
                    continue
                const = c.dem.endswith(" const")
                if ws is None:
                    if not const and not held:
                        res.add(fn, "%s is performed by every thread" % short, where(c))
                    continue
                if not c.quants:
                    res.add(fn, "%s is performed outside the iterations of the parallel loop" % short, where(c))
                    continue
                q, cnt = c.quants[0]
                nn = const_int(resolve(cnt, env))
                if nn is None:
                    res.broken.append("%s: iterations of the parallel loop are not determined: %s" % (fn, show(resolve(cnt, env))[:100] if isinstance(cnt, R) else ""))
                    return
                for v in range(max(0, nn)):
                    e = dict(env)
                    e[q] = rc(v)
                    for c2, e2 in spread(c, 1, e):
                        if isF(resolve(c2.guard, e2)):
                            continue
                        res.obligations += 1
                        touch = set()
                        rec = []
                        for k, a in enumerate(c2.args):
                            for x in values(resolve(a, e2)):
                                ch = chain(x)
                                d = next((dom[b] for b in ch if b in dom), None)
                                if d is not None:
                                    touch.add(d)
                                if k == 0:
                                    rec.append((ch, d))
                            for o, val in c2.iargs.get(k, {}).items():
                                for x in values(resolve(val, e2)):
                                    d = next((dom[b] for b in chain(x) if b in dom), None)
                                    if d is not None:
                                        touch.add(d)
                        own.setdefault((ws, v), set()).update(touch)
                        total |= touch
                        if const:
                            continue
                        for ch, d in rec:
                            last = ch[-1] if ch else None
                            kind = ATOMS[last].kind if last is not None else None
                            if d is not None or kind in ("alloca", "new", "vbuf", "out"):
                                continue
                            if kind is None and len(ch) == 1:
                                continue       # not an address
                            far = True
                            if held is None:
                                res.add(fn, "%s changes an object that other threads may use at the same time" % short, where(c2), "%s%d x %d sub-domains" % (cname, R_, Z_))
                            else:
                                locks.setdefault((short, ATOMS[last].args if kind == "arg" and len(ch) < 3 else "domain"), set()).add(held)
            for (k1, a), (k2, b) in itertools.combinations(sorted(own.items()), 2):
                b2 = b | {(i + x, j + y) for i, j in b for x in (-1, 0, 1) for y in (-1, 0, 1)} if far else b
                if a & b2:
                    res.add(fn, "iterations that run at the same time use the same sub-domain", where(S.calls[0]), "%s%d x %d sub-domains, iterations %s and %s: %s" % (
                        cname, R_, Z_, k1[1], k2[1], sorted(a & b2)[:3]))
                    break
    for k, v in locks.items():
        if len(v) > 1:
            res.add(fn, "%s on the same object is protected by different critical sections" % k[0], where(S.calls[0]), str(sorted(v)))
    if not total:
        res.broken.append("%s: no sub-domain is used in the parallel loop" % fn)
    res.items.append({"function": fn, "instance": cname or "default", "sizes": len(sizes), "locks": len(locks), "assumption": "a particle jumps to an adjacent sub-domain at most" if locks else ""})


def lockname(c):
    a = c.args[-1] if c.args else None
    for x in c.args:
        if isinstance(x, V) and x.atom is None:
            k = atom_of(x.r)
            if k is not None and ATOMS[k].kind == "glob" and "critical" in str(ATOMS[k].args):
                return str(ATOMS[k].args[0])
    return showv(a) if isinstance(a, V) else "?"


def spread(c, i, e):
    """remaining loops over sub-domains (determined counts) spelled out; others stay symbolic"""
    if i >= len(c.quants):
        yield c, e
        return
    q, n = c.quants[i]
    nn = const_int(resolve(n, e))
    if nn is None:
        yield from spread(c, i + 1, e)
        return
    for v in range(max(0, nn)):
        yield from spread(c, i + 1, dict(e, **{}) | {q: rc(v)})


def reach(cfg=None, name=""):
    """no function a sub-domain runs inside a parallel loop writes objects that all threads share"""
    @guarded
    def f(res, tier):
        with build.Tree(cfg or build.config()) as tree:
            m = build.load(tree, specs=[], omp=True, extra=["-fthreadsafe-statics"])
            m.run("function(sroa)")
            m.reindex()
            E = effects.Effects(m, SHARED)
            starts = [n for n in m.defined() if re.match(WORK, m.demangled[n]) and not re.match(r"(\w+)::~?\1\(", m.demangled[n])]
            loops = [n for n in m.defined() if "omp_outlined" in n and "_debug__" not in n]
            names = E.run(starts + loops)
            res.items.append({"instance": name or "default", "functions analysed": len(names), "stores": E.stores, "call sites": E.callsites})
            res.obligations += E.stores + E.callsites
            if len(starts) < 40 or E.stores < 200:
                res.broken.append("too little code reachable: %d functions, %d stores" % (len(starts), E.stores))
            done = set()
            for n in starts:
                for r, wit in E.W[n].items():
                    if r[0] == "p" or (r, wit) in done:
                        continue
                    done.add((r, wit))
                    what = "global variable %s" % m.demangled.get(r[1], r[1]) if r[0] == "g" else "an object of class %s" % r[1]
                    if r[0] == "g":
                        what = "global variable %s" % llvm.demangle([r[1]])[r[1]]
                    res.add(m.demangled[wit[0]], "%s, shared by all threads, is written without synchronisation" % what, "%s:%s" % (wit[2], wit[1]), "%s reached from %s" % (name, m.demangled[n]))
            res.obligations += len(loops)
            for n in loops:
                for r, wit in E.W[n].items():
                    # parameters 0 and 1 are thread numbers; a captured variable is passed by its address
                    if r[0] == "p" and r[1] > 1 and r[2] == 0:
                        res.add(re.sub(r" \(\.omp.*", "", m.demangled[n]), "a variable captured by a parallel loop is written without synchronisation", "%s:%s" % (wit[2], wit[1]), name)
                    elif r[0] == "g" and (r, wit) not in done:
                        done.add((r, wit))
                        res.add(re.sub(r" \(\.omp.*", "", m.demangled[n]), "%s, shared by all threads, is written in a parallel loop without synchronisation" % r[1], "%s:%s" % (wit[2], wit[1]), name)
            for n in names:
                for c in m.calls_in(n):
                    if c in UNSAFE:
                        res.add(m.demangled[n], "%s is not safe to be called by several threads" % c, "", name)
    return f
