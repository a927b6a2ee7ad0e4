"""Compare the summary of a repository function with the summary of its specification.

The comparison is pointwise: for every memory region either side writes, the final content at a generic
element of the region is read back from both summaries (so loop shape, statement order and helper structure do
not matter) and the two normal forms are compared.
"""
import copy
import math
import os
import re
from fractions import Fraction
from . import alg, summ
from .alg import *
from . import models
from .summ import base_split, linear_in, Write, subst_v


class Diff:
    def __init__(self, what, line=0, file="", detail=""):
        self.what, self.line, self.file, self.detail = what, line, file, detail

    def __repr__(self):
        return "%s:%s %s -- %s" % (self.file, self.line, self.what, self.detail)


# ---------------------------------------------------------------- feasibility of a decision path (difference bounds)
def constraints(path):
    ge, eq = [], []   # (R, strict): R >= 0 or R > 0 ; R == 0
    for a, b in path:
        at = ATOMS[a]
        if at.kind == "gt0i":
            P = at.args[0]
            ge.append((rsub(P, ONE) if b else rneg(P), False))
        elif at.kind == "eq0" and b:
            eq.append(at.args[0])
        elif at.kind == "gt0":
            P = at.args[0]
            ge.append((P, True) if b else (rneg(P), False))
    return ge, eq


def equalities(path):
    """what the decisions force to be zero: equalities, and x >= 0 together with x <= 0"""
    ge, eq = constraints(path)
    at_most = [rneg(p) for p, strict in ge if not strict]
    return eq + [p for p, strict in ge if not strict and any(req(p, q) for q in at_most)]


def equal_ints(x, y, path):
    """integer expressions that the decisions force to be equal"""
    d = rsub(x, y)
    return is_int(x) and is_int(y) and not feasible(path, rsub(d, ONE)) and not feasible(path, rsub(rneg(d), ONE))


def feasible(path, more=None):
    ge, eq = constraints(path)
    if more is not None:
        ge.append((more, False))
    ne = [ATOMS[a].args[0] for a, b in path if ATOMS[a].kind == "eq0" and not b]
    used = {a for x in [x for x, _ in ge] + eq + ne for a in x.atoms()}
    for a in sorted(used & NONNEG):
        ge.append((R({((a, 1),): Fraction(1)}), False))
    mags = {a for a in used if ATOMS[a].kind == "abs"}
    if not mags:
        return consistent(ge, eq, ne)
    return split_abs(sorted(mags)[:4], ge, eq, ne)


def split_abs(mags, ge, eq, ne):
    """|x| is x where x >= 0 and -x where x <= 0"""
    if not mags:
        return consistent(ge, eq, ne)
    a, rest = mags[0], mags[1:]
    x = ATOMS[a].args[0]
    for v in (x, rneg(x)):
        mp = {a: v}
        if split_abs(rest, [(subst(g, mp), st) for g, st in ge] + [(v, False)], [subst(e, mp) for e in eq], [subst(e, mp) for e in ne]):
            return True
    return False


def integral(ge, ne):
    """integer relations: x >= 0 and x != 0 make x >= 1"""
    out = []
    for x, st in ge:
        if st is False and is_int(x) and any(x.t == n.t or rneg(x).t == n.t for n in ne):
            x = rsub(x, ONE)
        out.append((x, st))
    return out


def consistent(ge, eq, ne):
    mp = eqmap(eq)
    if mp is None:
        return False
    if mp:
        ge = [(subst(x, mp), st) for x, st in ge]
        ne = [subst(x, mp) for x in ne]

    def bad(x, st):
        return x.is_const() and (x.const() < 0 or (st and x.const() == 0))
    for x in ne:
        if not x.t:
            return False
    ge = integral(ge, ne)
    # scale so that opposite bounds cancel
    sc = []
    for x, st in ge:
        if bad(x, st):
            return False
        if not x.is_const():
            c = abs(x.t[max(x.t)])
            sc.append((rscale(x, 1 / c), st))
    ge = sc
    n = len(ge)
    if n <= 40:
        for i in range(n):
            for j in range(i + 1, n):
                if bad(radd(ge[i][0], ge[j][0]), ge[i][1] or ge[j][1]):
                    return False
    return not farkas(ge)


def farkas(ge):
    """True when the linear system (over monomials) R >= 0 / R > 0 is contradictory: Fourier-Motzkin elimination, given up when it grows"""
    sys_ = []
    seen = set()
    for x, st in ge:
        d = {m: c for m, c in x.t.items()}
        key = (tuple(sorted(d.items())), st)
        if key not in seen:
            seen.add(key)
            sys_.append((d, st))
    while True:
        occ = {}
        for d, st in sys_:
            for m, c in d.items():
                if m != ():
                    o = occ.setdefault(m, [0, 0])
                    o[0 if c > 0 else 1] += 1
        if not occ:
            return any(d.get((), 0) < 0 or (st and d.get((), 0) <= 0) for d, st in sys_)
        # one-sided variables carry no information: drop their rows
        one = {m for m, (p, q) in occ.items() if p == 0 or q == 0}
        if one:
            sys_ = [(d, st) for d, st in sys_ if not (one & set(d))]
            continue
        m = min(occ, key=lambda m: (occ[m][0] * occ[m][1] - occ[m][0] - occ[m][1], m))
        if occ[m][0] * occ[m][1] > 400:
            return False
        pos = [(d, st) for d, st in sys_ if d.get(m, 0) > 0]
        neg = [(d, st) for d, st in sys_ if d.get(m, 0) < 0]
        new = [(d, st) for d, st in sys_ if m not in d]
        seen = {(tuple(sorted(d.items())), st) for d, st in new}
        for dp, sp in pos:
            for dn, sn in neg:
                a, b = dp[m], -dn[m]
                d = {}
                for q, c in dp.items():
                    d[q] = d.get(q, 0) + c * b
                for q, c in dn.items():
                    d[q] = d.get(q, 0) + c * a
                d = {q: c for q, c in d.items() if c}
                st = sp or sn
                if not d or set(d) == {()}:
                    v = d.get((), 0)
                    if v < 0 or (st and v <= 0):
                        return True
                    continue
                lead = abs(d[max(q for q in d if q != ())])
                d = {q: c / lead for q, c in d.items()}
                key = (tuple(sorted(d.items())), st)
                if key not in seen:
                    seen.add(key)
                    new.append((d, st))
        if len(new) > 400:
            return False
        sys_ = new


def eqmap(eq):
    """solve equalities for atoms with coefficient +-1: atom -> R; None when contradictory"""
    mp = {}
    for e in eq:
        if mp:
            e = subst(e, mp)
        if e.is_const():
            if e.t:
                return None
            continue
        cand = [(m[0][0]) for m, c in e.t.items() if len(m) == 1 and m[0][1] == 1]
        done = False
        for a in sorted(cand, key=lambda a: (ATOMS[a].kind not in ("g", "k", "bv"), -a)):
            lin = linear_in(e, a)
            if lin is None:
                continue
            c, rest = lin
            x = rscale(rest, -1 / c)
            if a in deep_atoms(x):
                continue
            for k in list(mp):
                mp[k] = subst(mp[k], {a: x})
            mp[a] = x
            done = True
            break
    return mp


DEBUG = bool(os.environ.get('VERIF_DEBUG'))
CTX = []      # decisions of the enclosing comparison (for the bodies of sums)


def same(a, b, under=None):
    """None if equal, else (path, leaf a, leaf b) of a feasible mismatch"""
    seen = set()
    base = list(CTX)

    def differ(x, y, path):
        """(mismatch or None, verdict depends on the path)"""
        CTX[:] = path
        try:
            if req(x.r, y.r):
                return None, False
            if not feasible(path) or contradictory(path):
                return None, True
            if leaf_same(x.r, y.r):
                return None, True
            mp = eqmap(equalities(path))
            if mp is None:
                return None, True
            if mp:
                x2, y2 = subst(leaf(x.r), mp), subst(leaf(y.r), mp)
                if x2.atom is None and y2.atom is None and leaf_same(x2.r, y2.r):
                    return None, True
            # atoms may carry nested decision diagrams whose conditions are settled by the path
            p, q = settle(x.r, path), settle(y.r, path)
            if p is not None and q is not None and same_settled(p, q):
                return None, True
            if equal_ints(x.r, y.r, path):
                return None, True
            return (path, x.r, y.r), True
        finally:
            CTX[:] = base

    def go(a, b, u, path):
        if a is b or isF(u):
            return None, False
        k = (a.id, b.id, u.id)
        if k in seen:
            return None, False
        t = alg._top(a, b, u)
        if t is None:
            r, dep = differ(a, b, path)
        else:
            r, dep = go(alg._cof(a, t, 1), alg._cof(b, t, 1), alg._cof(u, t, 1), path + [(t, 1)])
            if not r:
                r, d2 = go(alg._cof(a, t, 0), alg._cof(b, t, 0), alg._cof(u, t, 0), path + [(t, 0)])
                dep = dep or d2
        if not r and not dep:
            seen.add(k)
        return r, dep
    return go(a, b, under if under is not None else TRUE(), base)[0]


def settle(r, path):
    """rewrite nested decision diagrams inside atoms of r under the path's decisions"""
    dec = dict(path)
    try:
        return rewrite_nested(r, dec)
    except RecursionError:
        return None


def rewrite_nested(r, dec):
    memo = {}

    def rv(v):
        if v.atom is None:
            return leaf(rr(v.r))
        if v.atom in dec:
            return rv(v.hi if dec[v.atom] else v.lo)
        return ite(boolatom(v.atom), rv(v.hi), rv(v.lo))

    def ra(a):
        if a in memo:
            return memo[a]
        at = ATOMS[a]
        if any(isinstance(x, (R, V)) for x in at.args):
            args = tuple(rr(x) if isinstance(x, R) else rv(x) if isinstance(x, V) else x for x in at.args)
            res = alg.rebuild(at, args)
        else:
            res = R({((a, 1),): Fraction(1)})
        memo[a] = res
        return res

    def rr(r):
        out = ZERO
        for m, c in r.t.items():
            t = rc(c)
            for a, e in m:
                t = rmul(t, rpow(ra(a), e))
            out = radd(out, t)
        return out
    return rr(r)


def same_settled(x, y):
    return leaf_same(x, y)


def leaf_same(a, b):
    if req(a, b):
        return True
    if any(has_sum(x) for x in a.atoms()) and any(has_sum(x) for x in b.atoms()):
        a, b = merge_sums(a), merge_sums(b)
        if req(a, b):
            return True
        return sums_same(a, b)
    return False


def merge_sums(r):
    """c1*S(n,b1) + c2*S(n,b2) -> S(n, c1*b1 + c2*b2), with coefficients free of the bound variable"""
    groups = {}
    out = {}
    for m, c in r.t.items():
        s = [(a, e) for a, e in m if ATOMS[a].kind == "sum"]
        if len(s) == 1 and s[0][1] == 1:
            at = ATOMS[s[0][0]]
            rest = tuple(x for x in m if x != s[0])
            groups.setdefault(at.args[0].key(), []).append((at, R({rest: c})))
        else:
            out[m] = c
    tot = R(out)
    for k, l in groups.items():
        lvls = []
        for at, co in l:
            lv = [ATOMS[a].args[0] for a in alg.deep_atoms(at.args[1]) if ATOMS[a].kind == "bv"]
            lvls.append(max(lv) if lv else -1)
        top = max(lvls)
        body = leaf(ZERO)
        for (at, co), lv in zip(l, lvls):
            b = at.args[1]
            b = body_norm(b)
            if lv != top and lv >= 0:
                b = subst(b, {mkid("bv", (lv,), True): mk("bv", (top,), True)})
            body = vadd(body, vmul(b, leaf(co)))
        tot = radd(tot, mk("sum", (l[0][0].args[0], body)))
    return tot


def body_norm(v):
    return apply("ms", merge_sums, v)


def sums_same(a, b):
    """structural comparison of sums up to semantic equality of the bodies"""
    A = {m: c for m, c in a.t.items()}
    B = {m: c for m, c in b.t.items()}
    for m in list(A):
        if m in B and abs(A[m] - B[m]) <= Fraction(1, 10**8) * abs(A[m]):
            del A[m], B[m]
    if len(A) != len(B) or not A:
        return not A and not B
    for m, c in list(A.items()):
        hit = None
        for m2, c2 in B.items():
            if mono_same(m, c, m2, c2):
                hit = m2
                break
        if hit is None:
            return False
        del B[hit]
    return True


def mono_same(m, c, m2, c2):
    if abs(c - c2) > Fraction(1, 10**8) * abs(c) or len(m) != len(m2):
        return False
    x = [t for t in m if t not in m2]
    y = [t for t in m2 if t not in m]
    if len(x) != len(y):
        return False
    for a, e in x:
        hit = None
        for t in y:
            if t[1] == e and atom_same(a, t[0]):
                hit = t
                break
        if hit is None:
            return False
        y.remove(hit)
    return True


SUMMY = {}


def has_sum(a):
    r = SUMMY.get(a)
    if r is None:
        r = SUMMY[a] = any(ATOMS[x].kind in ("sum", "mu_at", "last", "lastwrite", "anywrite") for x in alg.deep_atoms(R({((a, 1),): Fraction(1)})))
    return r


def atom_same(a, b):
    """atoms equal up to semantic equality of their arguments (only looked at when loops are involved: everything else is canonical already)"""
    if a == b:
        return True
    p, q = ATOMS[a], ATOMS[b]
    if p.kind != q.kind or len(p.args) != len(q.args) or not has_sum(a) or not has_sum(b):
        return False
    for x, y in zip(p.args, q.args):
        if isinstance(x, R) and isinstance(y, R):
            if not leaf_same(x, y):
                return False
        elif isinstance(x, (R, V)) and isinstance(y, (R, V)):
            x = leaf(x) if isinstance(x, R) else x
            y = leaf(y) if isinstance(y, R) else y
            if same(x, y) is not None:
                return False
        elif x != y:
            return False
    return True


UNDER = []        # literals every execution satisfies
OPPO = {}


def contradictory(path):
    """two decisions with opposite outcome on conditions that are semantically the same, or a text equal to two different literals"""
    texts = {}
    for a, b in path:
        if b and ATOMS[a].kind == "eq0":
            for m, c in ATOMS[a].args[0].t.items():
                if len(m) == 1 and len(ATOMS[a].args[0].t) == 1 and ATOMS[m[0][0]].kind == "strcmp":
                    x, y = ATOMS[m[0][0]].args
                    if models.text_of(y) is not None and texts.setdefault(x.key(), y.key()) != y.key():
                        return True
    ls = [(a, b) for a, b in path if has_sum(a)]
    for i, (a, x) in enumerate(ls):
        for b, y in ls[i + 1:]:
            if x == y or ATOMS[a].kind != ATOMS[b].kind:
                continue
            k = (a, b)
            if k not in OPPO:
                keep = list(CTX)
                CTX[:] = UNDER
                OPPO[k] = False
                OPPO[k] = atom_same(a, b)
                CTX[:] = keep
            if OPPO[k]:
                return True
    return False


# ---------------------------------------------------------------- generic addresses
def generic(addr, ks):
    """address with every loop-dependent index replaced by a generic integer"""
    cnt = [0]

    def go(r):
        base, off = base_split(r)
        if base is None:
            return r
        at = ATOMS[base]
        if at.kind in ("load", "vbuf") and deep_atoms(at.args[0]) & ks:
            b = mk(at.kind, (go(at.args[0]),), at.isint)
        elif at.kind == "new" and deep_atoms(R({((base, 1),): Fraction(1)})) & ks:
            a = list(at.args[:2])
            for x in at.args[2:]:
                if deep_atoms(x) & ks:
                    x = mk("g", (cnt[0],), True)
                    cnt[0] += 1
                a.append(x)
            b = mk("new", tuple(a), at.isint)
        else:
            b = R({((base, 1),): Fraction(1)})
        dep, rest = {}, {}
        for m, c in off.t.items():
            if deep_atoms(R({m: c})) & ks:
                dep[m] = c
            else:
                rest[m] = c
        if not dep:
            return radd(b, off)
        s = None
        for c in dep.values():
            c = abs(c)
            s = c if s is None else Fraction(math.gcd(int(s), int(c))) if s.denominator == 1 and c.denominator == 1 else s
        keep = {m: c for m, c in rest.items() if (c / s).denominator != 1}
        g = mk("g", (cnt[0],), True)
        cnt[0] += 1
        # constant part modulo the stride
        if () in rest and (rest[()] / s).denominator != 1:
            keep[()] = rest[()] % s
        return radd(radd(b, R(keep)), rscale(g, s))
    return go(addr)


def targets(S, ignore=None):
    out = {}
    for w in S.log[getattr(S, "npre", 0):]:
        if not isinstance(w, Write) or w.kind not in ("st", "acc", "copy", "fill", "str"):
            continue
        if S.islocal(w.addr):
            continue
        if isF(w.guard):
            continue
        ks = {k for k, _ in w.quants}
        ga = generic(w.addr, ks)
        if w.kind in ("copy", "fill"):
            # block copies: check every 8-byte slot
            if w.x[0] is None:
                a = radd(ga, rscale(mk("g", (9,), True), Fraction(8)))
                out.setdefault(a.key(), (a, w))
                continue
            n = int(w.x[0])
            for o in range(0, n, 8):
                out.setdefault(radd(ga, rc(o)).key(), (radd(ga, rc(o)), w))
            continue
        out.setdefault(ga.key(), (ga, w))
        out[ga.key()] = (ga, w)
    return out


def relpath(f):
    m = re.search(r"/va_[^/]+/(.*)", f)
    return m.group(1) if m else f


def literals(v):
    out = []
    while v.atom is not None:
        if isF(v.lo):
            out.append((v.atom, 1))
            v = v.hi
        elif isF(v.hi):
            out.append((v.atom, 0))
            v = v.lo
        else:
            break
    return out


def compare_aborts(S, T, under):
    """both end the program under the same conditions; an exit inside a loop is grouped with the others of the same repetition"""
    groups = []
    for side, X in ((0, S), (1, T)):
        for g, line, file, quants in X.aborts:
            # an exit in the middle of a loop is described by its iteration, outer loops first
            ks = sorted(a for a in deep_atoms(g) if ATOMS[a].kind == "k")
            mp = {k: mk("q", (i,), True) for i, k in enumerate(ks)}
            g = subst(g, mp)
            if isF(g):
                continue
            qs = [subst(X.kn.get(k, leaf(ONE)), mp) for k in ks] + [m for _, m in quants]
            for G in groups:
                if len(G[0]) == len(qs) and all(same(x, y) is None for x, y in zip(G[0], qs)):
                    break
            else:
                G = [qs, FALSE(), FALSE(), None]
                groups.append(G)
            G[1 + side] = vor(G[1 + side], g)
            if not side:
                G[3] = (line, file)
    out = []
    for qs, a, b, site in groups:
        r = same(a, b, vand(under, some(qs)))
        if r:
            path, x, y = r
            out.append(Diff("fatal exit", site[0] if site else S.lastline, relpath(site[1] if site else S.lastfile),
                            "when {%s}%s: code %s, required %s" % (show_path(path), ", repeatedly" if qs else "", "stops" if x == ONE else "goes on", "stop" if y == ONE else "go on")))
    return out


def some(qs):
    """something repeated is done at all only when the counts are not zero"""
    out = TRUE()
    for p in qs:
        if isinstance(p, R):
            p = leaf(p)
        out = vand(out, apply("some", lambda r: vnot(cmp_eq0(r)) if not r.is_const() else (TRUE() if r.const() != 0 else FALSE()), p))
    return out


def within(T, addr):
    """condition that a generic place of a vector's storage lies inside the vector, when its final length is a known small number"""
    b, off = base_split(addr)
    if b is None or ATOMS[b].kind != "vbuf" or len(off.t) != 1:
        return None
    (m, c), = off.t.items()
    if len(m) != 1 or m[0][1] != 1 or not ATOMS[m[0][0]].isint:
        return None
    this = ATOMS[b].args[0]
    n = alg.vsub(T.read1(radd(this, rc(8)), TRUE()), T.read1(this, TRUE()))
    if n.atom is not None or not n.r.is_const() or not 0 <= n.r.const() <= 16 * c:
        return None
    out = FALSE()
    for k in range(int(n.r.const() / c)):
        out = vor(out, cmp_eq0(radd(off, rc(-k * c))))
    return out


def compare(S, T, calls=True, skip_addr=None, under=None, callfilter=None, only_base=None, calls_unordered=False, aborts=False):
    """diffs of code summary S against specification summary T; also returns the number of obligations"""
    diffs = []
    n = 0
    if calls_unordered:
        S, T = name_objects(S), name_objects(T)
    under = vand(under if under is not None else TRUE(), T.assume)
    UNDER[:] = literals(under)
    OPPO.clear()
    ts, tt = targets(S), targets(T)
    keys = list(ts) + [k for k in tt if k not in ts]
    for k in keys:
        addr, w = ts.get(k) or tt[k]
        if skip_addr and skip_addr(addr):
            continue
        n += 1
        v1 = S.read1(addr, TRUE())
        v2 = T.read1(addr, TRUE())
        r = same(v1, v2, under)
        if r:
            inside = within(T, addr)
            if inside is not None:
                r = same(v1, v2, vand(under, inside))
        if r:
            path, x, y = r
            site = w if k in ts else None
            site = find_site(S, addr, path) or site
            diffs.append(Diff("final content of %s" % show(addr), site.line if site else 0, relpath(site.file) if site else "",
                              "when {%s}: code %s, required %s" % (show_path(path), clip(show(x)), clip(show(y)))))
    if S.ret is not None or T.ret is not None:
        n += 1
        if S.ret is None or T.ret is None:
            diffs.append(Diff("return value missing"))
        else:
            r = same(S.ret, T.ret, under)
            if r:
                path, x, y = r
                diffs.append(Diff("return value", S.lastline, relpath(S.lastfile), "when {%s}: code %s, required %s" % (show_path(path), clip(show(x)), clip(show(y)))))
    if aborts == "same":
        n += max(1, len(T.aborts))
        diffs += compare_aborts(S, T, under)
    elif aborts and not any(q for _, _, _, q in S.aborts):
        # fatal exits happen exactly where the reference's precondition fails
        n += 1
        dead = FALSE()
        for g, line, file, _ in S.aborts:
            dead = vor(dead, g)
        r = same(dead, vnot(T.assume), TRUE())
        if r:
            path, x, y = r
            a = S.aborts[0] if S.aborts else None
            diffs.append(Diff("fatal exit", a[1] if a else S.lastline, relpath(a[2] if a else S.lastfile),
                              "when {%s}: code %s, required %s" % (show_path(path), "stops" if x == ONE else "goes on", "stop" if y == ONE else "go on")))
    if calls:
        c1 = [c for c in S.calls if (callfilter is None or callfilter(c)) and not isF(c.guard)]
        c2 = [c for c in T.calls if (callfilter is None or callfilter(c)) and not isF(c.guard)]
        if not isT(under):
            c1, c2 = [restricted(c, under) for c in c1], [restricted(c, under) for c in c2]
            c1, c2 = [c for c in c1 if not isF(c.guard)], [c for c in c2 if not isF(c.guard)]
        n += len(c2)
        diffs += compare_calls(c1, c2, calls_unordered)
    return diffs, n


def name_objects(S):
    """objects are named by what is constructed in them, not by the position of their allocation in the program"""
    mp, cnt = {}, {}
    for c in S.calls:
        m = re.match(r"(?:\w+::)*(\w+)::\1\(", c.dem)
        if not m or not c.args or c.args[0].atom is not None:
            continue
        b, off = summ.base_split(c.args[0].r)
        if b is None or off.t or ATOMS[b].kind != "new" or len(ATOMS[b].args) != 2 or b in mp or c.quants:
            continue
        k = cnt[c.dem] = cnt.get(c.dem, 0) + 1
        mp[b] = mk("new", (c.dem, k), ATOMS[b].isint)
    if not mp:
        return S
    sv = lambda v: v if v is None else subst(v, mp)
    for w in S.log:
        if isinstance(w, summ.Write):
            w.addr, w.guard, w.val = sv(w.addr), sv(w.guard), sv(w.val)
    for c in S.calls:
        c.args, c.guard = [sv(a) for a in c.args], sv(c.guard)
        c.iargs = {i: {o: sv(v) for o, v in d.items()} for i, d in c.iargs.items()}
    S.ret, S.assume = sv(S.ret), sv(S.assume)
    return S


def canon_call(c):
    mp = {}
    for i, (k, _) in enumerate(c.quants):
        mp[k] = mk("q", (i,), True)
    args = [subst(a, mp) for a in c.args]
    g = subst(c.guard, mp)
    qs = [subst(m, mp) for _, m in c.quants]
    return args, g, qs


def content(c, i):
    """values held by the local object passed as argument i (addresses of its own parts left out)"""
    mp = {k: mk("q", (j,), True) for j, (k, _) in enumerate(c.quants)}
    out = {}
    for o, v in c.iargs[i].items():
        v = subst(v, mp)
        if any(ATOMS[a].kind in ("alloca", "undef") for a in deep_atoms(v)):
            end = c.iargs[i].get((o[0], o[1] + 8)) if o[0] == "o" and len(o) == 2 else None
            if end is not None and any(ATOMS[a].kind == "vbuf" for a in deep_atoms(v)):
                n = apply("length", lambda x, y: rsub(x, y), subst(end, mp), v)
                if not any(ATOMS[a].kind in ("alloca", "undef") for a in deep_atoms(n)):
                    out[("length", o[1])] = n
            continue
        out[o] = v
    return out


def restricted(c, under):
    c = copy.copy(c)
    c.guard = vand(c.guard, under)
    return c


def call_same(x, y):
    if x.dem != y.dem or len(x.args) != len(y.args) or len(x.quants) != len(y.quants):
        return "different call"
    a1, g1, q1 = canon_call(x)
    a2, g2, q2 = canon_call(y)
    for p, q in zip(q1, q2):
        if same(p, q):
            return "repeated a different number of times"
    if same(g1, g2, some(q1)):
        return "made under a different condition: when %s" % show_path(same(g1, g2, some(q1))[0])
    for i, (p, q) in enumerate(zip(a1, a2)):
        if i in getattr(x, "iargs", {}) and i in getattr(y, "iargs", {}):
            cx, cy = content(x, i), content(y, i)
            for o in sorted(set(cx) | set(cy), key=str):
                if o[0] == "length" and (o not in cx or o not in cy):
                    continue
                if o not in cx or o not in cy:
                    return "argument %d: local object differs at %s" % (i, o)
                r = same(cx[o], cy[o], g1)
                if r:
                    return "argument %d: content at %s: code %s, required %s" % (i, o, clip(show(r[1])), clip(show(r[2])))
            continue
        r = same(p, q, g1)
        if r:
            return "argument %d: code %s, required %s" % (i, clip(show(r[1])), clip(show(r[2])))
    return None


class TooMany(Exception):
    pass


def joint(c1, c2, unordered, budget=6000):
    """the calls made as a function of the state: for every feasible combination of the conditions the same calls (as a multiset when
    unordered, as a sequence otherwise), whatever the branches they are written in.  None when equal, else (code call or None, text)"""
    if any(getattr(c, "iargs", {}) for c in c1 + c2):
        raise TooMany()
    can = [canon_call(c) for c in c1 + c2]
    qs = can[0][2] if can else []
    for a, g, q in can:
        if len(q) != len(qs) or any(same(x, y) for x, y in zip(q, qs)):
            raise TooMany()
    n1 = len(c1)
    count = [0]
    seen = set()

    def leafcheck(act, args, path):
        A, B = [i for i in act if i < n1], [i for i in act if i >= n1]
        if not A and not B:
            return None, False
        if not feasible(path) or contradictory(path):
            return None, True
        base = list(CTX)
        CTX[:] = base + path
        u = TRUE()
        for t, b in reversed(path):
            u = vand(u, boolatom(t) if b else vnot(boolatom(t)))
        try:
            def eq(i, j):
                x, y = (c1 + c2)[i], (c1 + c2)[j]
                return x.dem == y.dem and len(args[i]) == len(args[j]) and all(same(p, q, u) is None for p, q in zip(args[i], args[j]))
            left = list(B)
            for i in A:
                hit = next((j for j in (left if unordered else left[:1]) if eq(i, j)), None)
                if hit is None:
                    near = next((j for j in left if (c1 + c2)[j].dem == (c1 + c2)[i].dem), None)
                    why = "made where it is not required"
                    if near is not None and len(args[i]) == len(args[near]):
                        for k, (p, q) in enumerate(zip(args[i], args[near])):
                            r = same(p, q, u)
                            if r:
                                why = "argument %d: code %s, required %s" % (k, clip(show(r[1])), clip(show(r[2])))
                                break
                    return (c1[i], why), True
                left.remove(hit)
            if left:
                return (None, "required call %s missing" % short((c1 + c2)[left[0]].dem)), True
            return None, True
        finally:
            CTX[:] = base

    def go(gs, args, path):
        count[0] += 1
        if count[0] > budget:
            raise TooMany()
        key = tuple((i, g.id) for i, g in gs if not isF(g))
        if key in seen:
            return None, False
        t = alg._top(*[g for _, g in gs]) if gs else None
        if t is None:
            # conditions decided: decide the arguments' own conditions within same()
            r, dep = leafcheck([i for i, g in gs if isT(g)], args, path)
            dep = dep or bool(gs)
        else:
            if path and not feasible(path):
                return None, True
            out = []
            for b in (1, 0):
                ng = [(i, alg._cof(g, t, b)) for i, g in gs if not isF(alg._cof(g, t, b))]
                out.append(go(ng, args, path + [(t, b)]))
                if out[-1][0]:
                    return out[-1]
            r, dep = None, any(d for _, d in out)
        if r is None and not dep:
            seen.add(key)
        return r, dep
    gs = [(i, g) for i, (a, g, q) in enumerate(can)]
    args = {i: a for i, (a, g, q) in enumerate(can)}
    return go(gs, args, [])[0]


def compare_calls(c1, c2, unordered=False):
    diffs = pairwise_calls(list(c1), list(c2), unordered)
    if not diffs or not c1 or not c2:
        return diffs
    try:
        r = joint(c1, c2, unordered)
    except (TooMany, RecursionError):
        return diffs
    if r is None:
        return []
    if DEBUG:
        print("joint:", r)
    return diffs


def exclusive(x, y):
    g = vand(x.guard, y.guard)
    return isF(g) or same(g, FALSE()) is None


def pairwise_calls(c1, c2, unordered=False):
    diffs = []
    if unordered:
        left = list(c2)
        for c in c1:
            hit = None
            for d in left:
                if call_same(c, d) is None:
                    hit = d
                    break
            if hit is None:
                near = [d for d in left if d.dem == c.dem]
                diffs.append(Diff("call %s" % short(c.dem), c.line, relpath(c.file), call_same(c, near[0]) if near else "not required here"))
                if near:
                    left.remove(near[0])
            else:
                left.remove(hit)
        for d in left:
            diffs.append(Diff("required call %s missing" % short(d.dem)))
        return diffs
    # calls that are never made together have no order: bring those of the reference into the order of the code
    rest, order = list(c2), []
    for c in c1:
        hit = None
        for j, d in enumerate(rest):
            if d.dem == c.dem and call_same(c, d) is None:
                hit = j
                break
        if DEBUG:
            print("order:", short(c.dem), hit, [(short(e.dem), exclusive(e, rest[hit])) for e in rest[:hit]] if hit is not None else [(short(e.dem), call_same(c, e)[:600]) for e in rest if e.dem == c.dem])
        if hit is None or not all(exclusive(e, rest[hit]) for e in rest[:hit]):
            order = None
            break
        order.append(rest.pop(hit))
    if order is not None and not rest:
        return diffs
    for i in range(max(len(c1), len(c2))):
        if i >= len(c1):
            diffs.append(Diff("required call %s missing" % short(c2[i].dem)))
        elif i >= len(c2):
            diffs.append(Diff("extra call %s" % short(c1[i].dem), c1[i].line, relpath(c1[i].file)))
        else:
            r = call_same(c1[i], c2[i])
            if r:
                diffs.append(Diff("call %s" % short(c1[i].dem), c1[i].line, relpath(c1[i].file), "%s (required: %s)" % (r, short(c2[i].dem))))
                if c1[i].dem != c2[i].dem:
                    break
    return diffs


def short(d):
    from .prog import strip_targs
    return strip_targs(d).split("(")[0][-80:]


def find_site(S, addr, path):
    for w in reversed(S.log):
        if isinstance(w, Write) and w.kind in ("st", "acc") and w.line:
            m = S.match(w, addr)
            if m is not None:
                return w
    return None


def show_path(path):
    s = " && ".join(("" if b else "!") + show_atom(a) for a, b in (path if os.environ.get("VERIF_CLIP") else path[-8:]))
    return clip(s, 400 if not os.environ.get("VERIF_CLIP") else 10 ** 7)


def clip(s, n=int(os.environ.get("VERIF_CLIP", "300"))):
    return s if len(s) <= n else s[:n] + "..."
