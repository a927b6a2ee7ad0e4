"""Order of operations: finite instances of the calls of a function, named by reference operations, checked against a partial order."""
from . import alg, inst, build, prog, summ
from .alg import *
from .inst import query, arg, atom_of, instances, resolve, const_int, NotFinite


def vkey(v):
    return (v.r.key() if v.atom is None else ("a", v.id)) if isinstance(v, V) else v.key()


def opkeys(P, name, n, envbase, ranges):
    """{(call name, argument values): (op, indices)} for all index tuples of reference operation `name`"""
    S = P.summary(name)
    cs = [c for c in S.calls if not isF(c.guard)]
    if len(cs) != 1:
        raise build.AnalysisBroken("reference operation %s makes %d calls" % (name, len(cs)))
    c = cs[0]
    out = {}
    idx = [()]
    for r in ranges[:n]:
        idx = [t + (v,) for t in idx for v in range(r)]
    for t in idx:
        env = dict(envbase)
        for k, v in enumerate(t):
            env[arg(k + 1)] = rc(v)
        out[(c.dem, tuple(vkey(resolve(a, env)) for a in c.args))] = (name[3:], t)
    return out


def nargs(P, name):
    return len(P.summary(name).params) - 1


def bind(env, q, value):
    """make query value q (an R) equal to `value` by fixing one of its atoms"""
    for m, c in q.t.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if ATOMS[a].kind in ("arg",):
                continue
            one = subst_r(q, {a: rc(1)})
            zero = subst_r(q, {a: rc(0)})
            coef = rsub(one, zero)
            if coef.is_const() and coef.const() > 0:
                env[a] = rdiv(rsub(rc(value), zero), coef)
                return
    raise build.AnalysisBroken("query value cannot be fixed: %s" % show(q))


def subst_r(r, mp):
    x = subst(r, mp)
    if isinstance(x, V):
        x = x.r
    return x


class Scope:
    """sizes and states under which a function is instantiated"""

    def __init__(self, P, root, R, Z, K, extra=None):
        self.R, self.Z, self.K = R, Z, K
        self.env = {}
        for q, v in (("q_r_domains", R), ("q_z_domains", Z), ("q_dom0", R), ("q_dom1", Z)):
            self.env[atom_of(query(P, q))] = rc(v)
        for i in range(R):
            for j in range(Z):
                e = {arg(1): rc(i), arg(2): rc(j)}
                bind(self.env, resolve(query(P, "q_species", e), self.env), K)
                if extra:
                    extra(self, P, i, j, e)


def order(P, fn, scope, ops, edges, expect, res, tag):
    """the calls of `fn` are exactly the expected operations, each once, and respect the order given by `edges`"""
    S = P.summary(fn)
    table = {}
    for o in ops:
        table.update(opkeys(P, "op_" + o, ops[o], scope.env, (scope.R, scope.Z, scope.K)))
    for w in S.log:
        if isinstance(w, summ.Write) and not S.islocal(w.addr) and not isF(w.guard):
            report("program state is written besides the listed operations", "%s:%s" % (w.file, w.line), show(w.addr)[:200])
    for a in S.aborts:
        report("the program is ended in the middle of a step", "", str(a)[:200])
    I = instances(S, scope.env)
    seen = {}
    n = 0
    bad = set()

    def report(what, where, detail):
        if what not in bad:
            bad.add(what)
            res.add(P.dem(fn), what, where, "%s: %s" % (tag, detail))
    for pos, x in enumerate(I):
        n += 1
        e = table.get((x.dem, tuple(vkey(a) for a in x.args)))
        where = "%s:%s" % (x.file, x.line)
        if e is None:
            report("unexpected operation %s" % x.dem, where, "arguments %s" % ", ".join(showv(a)[:120] for a in x.args))
            continue
        if not isT(x.guard):
            report("operation %s depends on %s" % (e[0], showv(x.guard)[:160]), where, "indices %s" % (e[1],))
            continue
        if e in seen:
            report("operation %s is performed more than once" % e[0], where, "indices %s" % (e[1],))
        if e not in expect:
            report("operation %s is performed where it must not be" % e[0], where, "indices %s" % (e[1],))
        seen.setdefault(e, (pos, where))
    for e in sorted(expect):
        n += 1
        if e not in seen:
            report("operation %s is missing" % e[0], "", "indices (sub-domain r, z, species) %s" % (e[1],))
    byop = {}
    for (o, t), (pos, where) in seen.items():
        byop.setdefault(o, []).append((t, pos, where))
    for a, b in edges:
        for t, p, w in byop.get(a, ()):
            for u, q, w2 in byop.get(b, ()):
                k = min(len(t), len(u))
                if t[:k] == u[:k]:
                    n += 1
                    if p > q:
                        report("%s is performed before %s" % (b, a), w2, "indices %s / %s" % (u, t))
    res.obligations += n
    res.items.append({"function": P.dem(fn), "instance": tag, "calls": len(I), "obligations": n})
    return I


def allidx(ops, scope):
    out = set()
    for o, n in ops.items():
        idx = [()]
        for r in (scope.R, scope.Z, scope.K)[:n]:
            idx = [t + (v,) for t in idx for v in range(r)]
        out |= {(o, t) for t in idx}
    return out
