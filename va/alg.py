"""Canonical term algebra used by the value-flow analysis.

A value is an algebraic decision diagram (ADD) over boolean atoms whose leaves are
Laurent polynomials (class R) over interned atoms; quotients by sums are represented by
interned 'inv' atoms and compared by clearing denominators.  Nothing here executes the
analysed program: terms are only rewritten into normal form.
"""
import decimal
import math
import random
from fractions import Fraction

ZTOL = Fraction(1, 10**11)


class Blowup(Exception):
    pass


class Atom:
    __slots__ = ("id", "kind", "args", "isint")

    def __init__(self, id, kind, args, isint):
        self.id, self.kind, self.args, self.isint = id, kind, args, isint

    def __repr__(self):
        return show_atom(self.id)


ATOMS = []
NONNEG = set()      # values the program compares as unsigned numbers
_intern = {}
_byhead = {}


def reset():
    ATOMS.clear(); _intern.clear(); _byhead.clear(); _leaf.clear(); _node.clear()
    _ap.clear(); _sub.clear(); _fpa.clear()


def snap(fr):
    return fr


def const_of_double(d):
    f = Fraction(d)
    if f == 0 or f.denominator == 1:
        return f
    for q in (1000,):
        g = f.limit_denominator(q)
        if g != 0 and abs(g - f) <= abs(f) * Fraction(1, 10**15):
            return g
    if abs(f) < Fraction(1, 10**4) or abs(f) > 10**9:
        # decimal literal such as 1e-5: prefer the exact decimal
        g = Fraction(repr(d))
        if abs(g - f) <= abs(f) * Fraction(1, 10**15):
            return g
    return f


def _ck(c):
    if c.denominator == 1 and abs(c) < 10**9:
        return int(c)
    return "%.9e" % float(c) if abs(c) < Fraction(10)**300 and abs(c) > Fraction(1, 10**300) else str(c)


class R:
    """Laurent polynomial over atoms: dict mono -> Fraction; mono = ((atom,exp),...)"""
    __slots__ = ("t", "_key", "_fp")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._fp = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted((m, _ck(c)) for m, c in self.t.items()))
            if len(self._key) > 1:
                self._key = tuple(sorted(self._key, key=lambda x: (x[0], str(x[1]))))
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, R) and self.key() == o.key()

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    def __repr__(self):
        return show(self)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s


def rc(x):
    x = Fraction(x)
    return R({(): x}) if x else R({})


ZERO, ONE = rc(0), rc(1)


def _addto(t, m, c):
    o = t.get(m)
    if o is None:
        if c:
            t[m] = c
    else:
        s = o + c
        if s == 0 or abs(s) <= ZTOL * max(abs(o), abs(c)):
            del t[m]
        else:
            t[m] = s


def radd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        _addto(t, m, c)
    return R(t)


def rscale(a, c):
    if c == 1:
        return a
    if c == 0:
        return ZERO
    return R({m: k * c for m, k in a.t.items()})


def rneg(a):
    return rscale(a, Fraction(-1))


def rsub(a, b):
    return radd(a, rneg(b))


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def rmul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) * len(b.t) > BIGPROD:
        a, b = wrap(a), wrap(b)
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            c = c1 * c2
            if c.denominator.bit_length() + c.numerator.bit_length() > 400:
                c = lim(c)
            _addto(t, _mmul(m1, m2), c)
    return _reduce(t)


def lim(c):
    """keep 160 significant bits of a coefficient"""
    n, d = c.numerator, c.denominator
    sh = d.bit_length() - n.bit_length() + 160
    q = (n << sh) // d if sh >= 0 else n // (d << -sh)
    return Fraction(q, 1 << sh) if sh >= 0 else Fraction(q << -sh)


BIGPROD = 300
BIGOP = 12


def wrap(r):
    """name a large polynomial: later equality is decided by its fingerprint, not by expansion"""
    return mk("big", (r,)) if len(r.t) > BIGOP else r


def _needs_reduce(m):
    for a, e in m:
        k = ATOMS[a].kind
        if k == "sqrt" and (e >= 2 or e < 0):
            return True
        if k == "inv" and e < 0:
            return True
    return False


def _reduce(t):
    if not any(_needs_reduce(m) for m in t):
        return R(t)
    out = ZERO
    plain = {}
    for m, c in t.items():
        if not _needs_reduce(m):
            _addto(plain, m, c)
            continue
        keep = []
        ext = ONE
        for a, e in m:
            at = ATOMS[a]
            if at.kind == "sqrt" and (e >= 2 or e < 0):
                q, r = divmod(e, 2)
                if r:
                    keep.append((a, 1))
                ext = rmul(ext, rpow(at.args[0], q))
            elif at.kind == "inv" and e < 0:
                ext = rmul(ext, rpow(at.args[0], -e))
            else:
                keep.append((a, e))
        out = radd(out, rmul(R({tuple(keep): c}), ext))
    return radd(R(plain), out)


def _content(b):
    """b = c * mono * P ; P has leading coefficient 1, nonneg exponents with zero minimum"""
    mins = None
    for m in b.t:
        d = dict(m)
        if mins is None:
            mins = dict(d)
        else:
            for a in list(mins):
                mins[a] = min(mins[a], d.get(a, 0))
            for a, e in d.items():
                if a not in mins:
                    mins[a] = min(e, 0)
    mins = {a: e for a, e in mins.items() if e}
    mono = tuple(sorted(mins.items()))
    inv = tuple((a, -e) for a, e in mono)
    t = {_mmul(m, inv): c for m, c in b.t.items()}
    lead = max(t)
    c = t[lead]
    P = R({m: k / c for m, k in t.items()})
    return c, mono, P


def rinv(b):
    if not b.t:
        return mk("divzero", ())
    if len(b.t) == 1:
        (m, c), = b.t.items()
        return _reduce({tuple((a, -e) for a, e in m): 1 / c})
    c, mono, P = _content(b)
    base = _reduce({tuple((a, -e) for a, e in mono): 1 / c})
    return rmul(base, mk("inv", (P,)))


def rdiv(a, b):
    if b.is_const() and b.t:
        return rscale(a, 1 / b.const())
    if a.t and len(a.t) > 1 and len(b.t) > 1 and a.key() == b.key():
        return ONE
    if len(a.t) > 1 and len(b.t) > 1:
        ca, ma, Pa = _content(a)
        cb, mb, Pb = _content(b)
        if Pa.key() == Pb.key():
            return rmul(_reduce({_mmul(ma, tuple((x, -e) for x, e in mb)): ca / cb}), ONE)
    return rmul(a, rinv(b))


def rpow(a, n):
    if n < 0:
        return rinv(rpow(a, -n))
    r = ONE
    for _ in range(n):
        r = rmul(r, a)
    return r


def clear(r):
    """multiply by powers of the bodies of all inv atoms (recursively) -> polynomial"""
    for _ in range(60):
        invs = {}
        for m in r.t:
            for a, e in m:
                if ATOMS[a].kind == "inv":
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            break
        # eliminate the atom with the largest id first (it may mention older ones)
        a = max(invs)
        n = invs[a]
        P = ATOMS[a].args[0]
        pows = [ONE]
        for _i in range(n):
            pows.append(rmul(pows[-1], P))
        groups = {}
        for m, c in r.t.items():
            d = dict(m)
            e = d.pop(a, 0)
            groups.setdefault(e, {})
            _addto(groups[e], tuple(sorted(d.items())), c)
        out = ZERO
        for e, t in groups.items():
            out = radd(out, rmul(R(t), pows[n - e]))
        r = out
    return r


# Random interpretation (Gulwani & Necula): each atom gets fixed pseudo-random values, so a term has a
# fingerprint; two terms are equal (with overwhelming probability) iff their difference vanishes at every point.
# Values are 50-digit decimals spread over many orders of magnitude, so that no monomial is drowned everywhere.
NP = 4
decimal.getcontext().prec = 50
decimal.getcontext().Emax = 10**9
decimal.getcontext().Emin = -10**9
D = decimal.Decimal
_fpa = {}
_rng = random.Random(20240917)


class Cx:
    """complex fingerprint value (only below square roots of negative samples)"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __add__(self, o):
        o = o if isinstance(o, Cx) else Cx(o, D(0))
        return Cx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __mul__(self, o):
        if not isinstance(o, Cx):
            return Cx(self.re * o, self.im * o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def inv(self):
        n = self.re * self.re + self.im * self.im
        return Cx(self.re / n, -self.im / n)

    def __pow__(self, e):
        if e < 0:
            return self.inv() ** (-e)
        r = Cx(D(1), D(0))
        for _ in range(e):
            r = r * self
        return r

    def __abs__(self):
        return abs(self.re) + abs(self.im)

    def __bool__(self):
        return bool(self.re) or bool(self.im)


def _csqrt(x):
    if isinstance(x, Cx):
        m = (x.re * x.re + x.im * x.im).sqrt()
        re = ((m + x.re) / 2).copy_abs().sqrt()
        im = ((m - x.re) / 2).copy_abs().sqrt()
        return Cx(re, im if x.im >= 0 else -im)
    return x.sqrt() if x >= 0 else Cx(D(0), (-x).sqrt())


def _cinv(x):
    if not x:
        return D(10) ** 40
    return x.inv() if isinstance(x, Cx) else 1 / x


def atom_fp(a):
    g = _fpa.get(a)
    if g is None:
        at = ATOMS[a]
        if at.kind == "inv":
            g = tuple(_cinv(x) for x in fp(at.args[0])[0])
        elif at.kind == "big":
            g, _ = fp(at.args[0])
        elif at.kind == "sqrt":
            g = tuple(_csqrt(x) for x in fp(at.args[0])[0])
        else:
            g = tuple(D(_rng.uniform(0.6, 1.8)) * D(10) ** _rng.randint(*SPREAD[i]) for i in range(NP))
        _fpa[a] = g
    return g


SPREAD = [(0, 1), (-3, 3), (-7, 9), (-9, 12)]


def fp(r):
    """(values, magnitudes) of R at the sample points"""
    if r._fp is None:
        val = [D(0)] * NP
        mag = [D(0)] * NP
        for m, c in r.t.items():
            f = D(c.numerator) / D(c.denominator)
            for i in range(NP):
                x = f
                for a, e in m:
                    g = atom_fp(a)[i]
                    x = x * g if e == 1 else x * g ** e
                val[i] = val[i] + x
                mag[i] = mag[i] + abs(x)
        r._fp = (tuple(val), tuple(mag))
    return r._fp


_TOL = D("1e-10")


def rzero(d):
    if not d.t:
        return True
    if d.is_const():
        return abs(d.const()) < Fraction(1, 10**300)
    if len(d.t) == 1:
        return False
    v, m = fp(d)
    return all(abs(x) <= _TOL * y for x, y in zip(v, m))


def req(a, b):
    if a is b or a.key() == b.key():
        return True
    if a.is_const() and b.is_const():
        return _ck(a.const()) == _ck(b.const())
    # a summand must not be drowned by the others: the same monomials need the same coefficients, and when all but the
    # constants agree the constants have to agree as well
    same = a.t.keys() == b.t.keys()
    if same and any(not _near(c, b.t[m]) for m, c in a.t.items()):
        return False
    if not _near_fp(a, b):
        return False
    if not same:
        ca, cb = a.t.get((), 0), b.t.get((), 0)
        if (ca or cb) and not _near(ca, cb) and _near_fp(R({m: c for m, c in a.t.items() if m}), R({m: c for m, c in b.t.items() if m})):
            return False
    return rzero(rsub(a, b))


def _near(x, y):
    return abs(x - y) * 10**9 <= abs(x)


def _near_fp(a, b):
    va, ma = fp(a)
    vb, mb = fp(b)
    for i in range(NP):
        if abs(va[i] + (-1) * vb[i]) > _TOL * (ma[i] + mb[i]):
            return False
    return True


def _scale(P, c):
    """positive scale of P that does not depend on the way the polynomial is written"""
    x = abs(fp(P)[0][0])
    return Fraction(x) if x else abs(c)


# ---------------------------------------------------------------- atoms
def _akey(kind, args):
    return (kind,) + tuple(x.key() if isinstance(x, R) else x for x in args)


def mk(kind, args=(), isint=False):
    """interned atom -> R"""
    return R({((mkid(kind, args, isint), 1),): Fraction(1)})


def mkid(kind, args=(), isint=False):
    k = _akey(kind, args)
    i = _intern.get(k)
    if i is not None:
        return i
    head = (kind, len(args)) + tuple(x for x in args if not isinstance(x, R))
    if kind not in ("k", "q") and any(isinstance(x, R) and any(ATOMS[a].kind in ("inv", "big", "sqrt") for a in x.atoms()) for x in args):
        # semantic interning among same-head atoms
        for c in _byhead.get(head, ()):
            ok = True
            for x, y in zip(ATOMS[c].args, args):
                if isinstance(x, R) and isinstance(y, R):
                    if not req(x, y):
                        ok = False
                        break
                elif x != y:
                    ok = False
                    break
            if ok:
                _intern[k] = c
                return c
    i = len(ATOMS)
    ATOMS.append(Atom(i, kind, tuple(args), isint))
    _intern[k] = i
    _byhead.setdefault(head, []).append(i)
    return i


def rabs(x, isint=False):
    """|x| with the sign of the argument normalised (|x| = |-x|, |c x| = |c| |x|)"""
    if x.is_const():
        return rc(abs(x.const()))
    c = x.t[max(x.t)]
    if isint:
        return mk("abs", (rneg(x) if c < 0 else x,), True)
    return rscale(mk("abs", (rscale(x, 1 / c),)), abs(c))


def rsqrt(x):
    if x.is_const():
        c = x.const()
        if c >= 0:
            return rc(const_of_double(math.sqrt(float(c))))
    lead = max(x.t)
    c = abs(x.t[lead])
    if c != 1:
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        s = Fraction(rn, rd) if rn * rn == n and rd * rd == d else Fraction((D(n) / D(d)).sqrt())
        return rscale(rsqrt(rscale(x, 1 / c)), s)
    return mk("sqrt", (x,))


def is_int(r):
    for m, c in r.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if not ATOMS[a].isint or e < 0:
                return False
    return True


# ---------------------------------------------------------------- ADD
_leaf = {}
_node = {}
_ap = {}
_sub = {}


class V:
    """ADD node: atom is None for leaves"""
    __slots__ = ("atom", "hi", "lo", "r", "id")

    def __init__(self, atom, hi, lo, r, id):
        self.atom, self.hi, self.lo, self.r, self.id = atom, hi, lo, r, id

    def __repr__(self):
        return showv(self)


_vid = [0]


def leaf(r):
    if not isinstance(r, R):
        r = rc(r)
    k = r.key()
    v = _leaf.get(k)
    if v is None:
        _vid[0] += 1
        v = _leaf[k] = V(None, None, None, r, _vid[0])
    return v


def node(a, hi, lo):
    if hi is lo:
        return hi
    k = (a, hi.id, lo.id)
    v = _node.get(k)
    if v is None:
        _vid[0] += 1
        v = _node[k] = V(a, hi, lo, None, _vid[0])
        if len(_node) > 1500000:
            raise Blowup("decision diagram too large")
    return v


def boolatom(a):
    return node(a, TRUE(), FALSE())


def TRUE():
    return leaf(ONE)


def FALSE():
    return leaf(ZERO)


def _top(*vs):
    m = None
    for v in vs:
        if v.atom is not None and (m is None or v.atom < m):
            m = v.atom
    return m


def _cof(v, a, b):
    if v.atom == a:
        return v.hi if b else v.lo
    return v


def apply(name, f, *vs):
    """lift leaf function f(R...)->V or R over ADDs"""
    memo = {}

    def go(vs):
        k = tuple(v.id for v in vs)
        got = memo.get(k)
        if got is not None:
            return got
        a = _top(*vs)
        if a is None:
            r = f(*[v.r for v in vs])
            if isinstance(r, R):
                r = leaf(r)
        else:
            r = ite_node(a, go([_cof(v, a, 1) for v in vs]), go([_cof(v, a, 0) for v in vs]))
        memo[k] = r
        return r
    return go(list(vs))


def ite_node(a, hi, lo):
    """hi/lo may have tops above a (f can return V): use general ite"""
    t = _top(hi, lo)
    if t is None or t > a:
        return node(a, hi, lo)
    return ite(boolatom(a), hi, lo)


def ite(c, x, y):
    memo = _ap

    def go(c, x, y):
        if c.atom is None:
            return x if c.r.t else y
        if x is y:
            return x
        k = ("ite", c.id, x.id, y.id)
        g = memo.get(k)
        if g is not None:
            return g
        a = _top(c, x, y)
        r = node(a, go(_cof(c, a, 1), _cof(x, a, 1), _cof(y, a, 1)), go(_cof(c, a, 0), _cof(x, a, 0), _cof(y, a, 0)))
        memo[k] = r
        return r
    return go(c, x, y)


def vnot(c):
    return ite(c, FALSE(), TRUE())


def vand(a, b):
    return ite(a, b, FALSE())


def vor(a, b):
    return ite(a, TRUE(), b)


def isT(v):
    return v.atom is None and v.r.t and v.r.is_const()


def isF(v):
    return v.atom is None and not v.r.t


def vadd(a, b):
    return apply("add", radd, a, b)


def vsub(a, b):
    return apply("sub", rsub, a, b)


def vmul(a, b):
    return apply("mul", rmul, a, b)


def vdiv(a, b):
    return apply("div", rdiv, a, b)


def leaves(v, guard=None):
    """yield (guardV, R)"""
    seen = {}
    out = []

    seen, order = set(), []

    def collect(v):
        if v.id in seen:
            return
        seen.add(v.id)
        if v.atom is None:
            if v.id not in (x.id for x in order):
                order.append(v)
        else:
            collect(v.hi)
            collect(v.lo)
    collect(v)
    keys = {}
    for x in order:
        keys.setdefault(x.r.key(), []).append(x)
    for k, xs in keys.items():
        hit = {x.id for x in xs}
        memo = {}

        def go(v):
            if v.id in memo:
                return memo[v.id]
            r = (TRUE() if v.id in hit else FALSE()) if v.atom is None else node(v.atom, go(v.hi), go(v.lo))
            memo[v.id] = r
            return r
        out.append((go(v), xs[0].r))
    return out


def veq(a, b, under=None):
    """semantic equality of two ADDs (leafwise), optionally only where `under` holds"""
    memo = set()

    def go(a, b, u):
        if a is b:
            return True
        if u is not None and isF(u):
            return True
        k = (a.id, b.id, u.id if u is not None else 0)
        if k in memo:
            return True
        t = _top(a, b) if u is None else _top(a, b, u)
        if t is None:
            r = req(a.r, b.r)
        else:
            r = go(_cof(a, t, 1), _cof(b, t, 1), None if u is None else _cof(u, t, 1)) and \
                go(_cof(a, t, 0), _cof(b, t, 0), None if u is None else _cof(u, t, 0))
        if r:
            memo.add(k)
        return r
    return go(a, b, under)


# ---------------------------------------------------------------- comparisons
def cmp_gt0(P, isint):
    """atom for P > 0 as V"""
    if P.is_const():
        return TRUE() if P.const() > 0 else FALSE()
    if not isint and len(P.t) == 2 and () in P.t:
        # a * sqrt(X) + b > 0 with constants a, b of opposite sign
        m = max(P.t)
        a, b = P.t[m], P.t[()]
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "sqrt" and a * b < 0:
            X = ATOMS[m[0][0]].args[0]
            q = (b / a) ** 2
            return cmp_gt0(rsub(X, R({(): q})) if a > 0 else rsub(R({(): q}), X), False)
    lead = max(P.t)
    c = P.t[lead]
    if isint and is_int(P):
        import functools
        g = functools.reduce(math.gcd, [int(abs(k)) for m, k in P.t.items() if m != ()], 0) or 1
        # P = g*Q + c0 > 0  <=>  Q > -c0/g  <=> Q >= floor(-c0/g)+1 <=> Q - floor(-c0/g) > 0
        if g > 1:
            c0 = P.const()
            t = {m: k / g for m, k in P.t.items() if m != ()}
            fl = math.floor(-c0 / g)
            if fl:
                t[()] = Fraction(-fl)
            P = R(t)
            c = P.t[lead]
        if c < 0:
            return vnot(boolatom(mkid("gt0i", (rsub(ONE, P),))))
        return boolatom(mkid("gt0i", (P,)))
    if len(P.t) > 1 and any(ATOMS[a].kind in ("big", "inv", "sqrt") for a in P.atoms()):
        c = _scale(P, c)
    P = rscale(P, 1 / abs(c))
    return boolatom(mkid("gt0", (P,)))


def cmp_eq0(P, isint=False):
    if P.is_const():
        return TRUE() if P.const() == 0 else FALSE()
    c = P.t[max(P.t)]
    if len(P.t) > 1 and any(ATOMS[a].kind in ("big", "inv", "sqrt") for a in P.atoms()):
        x = fp(P)[0][0]
        c = _scale(P, c) * (-1 if (x.re if isinstance(x, Cx) else x) < 0 else 1)
    P = rscale(P, 1 / c)
    if isint and P.const().denominator != 1 and all(k.denominator == 1 for m, k in P.t.items() if m != ()):
        return FALSE()
    return boolatom(mkid("eq0", (P,)))


# ---------------------------------------------------------------- substitution
def subst(x, mp):
    """substitute atoms by R values: mp {atom_id: R}.  x is R or V"""
    memo = {}

    def sr(r):
        k = ("r", r.key())
        g = memo.get(k)
        if g is not None:
            return g
        if not any(touch(a) for m in r.t for a, _ in m):
            memo[k] = r
            return r
        out = ZERO
        for m, c in r.t.items():
            t = rc(c)
            keep = []
            for a, e in m:
                if touch(a):
                    t = rmul(t, rpow(sa(a), e))
                else:
                    keep.append((a, e))
            out = radd(out, rmul(t, R({tuple(keep): Fraction(1)})))
        memo[k] = out
        return out

    tm = {}

    def touch(a):
        g = tm.get(a)
        if g is None:
            if a in mp:
                g = True
            else:
                g = any(isinstance(x, R) and any(touch(b) for m in x.t for b, _ in m) for x in ATOMS[a].args) \
                    or any(isinstance(x, V) and vt(x) for x in ATOMS[a].args)
            tm[a] = g
        return g

    def vt(v):
        if v.atom is None:
            return any(touch(b) for m in v.r.t for b, _ in m)
        return touch(v.atom) or vt(v.hi) or vt(v.lo)

    am = {}

    def sa(a):
        if a in mp:
            return mp[a]
        g = am.get(a)
        if g is None:
            at = ATOMS[a]
            g = rebuild(at, tuple(sr(x) if isinstance(x, R) else (sv(x) if isinstance(x, V) else x) for x in at.args))
            am[a] = g
        return g

    vm = {}

    def sv(v):
        g = vm.get(v.id)
        if g is not None:
            return g
        if v.atom is None:
            g = leaf(sr(v.r))
        elif not touch(v.atom):
            g = ite(boolatom(v.atom), sv(v.hi), sv(v.lo))
        else:
            c = batom(v.atom)
            g = ite(c, sv(v.hi), sv(v.lo))
        vm[v.id] = g
        return g

    def batom(a):
        if a in mp:
            r = mp[a]
            return leaf(r)
        at = ATOMS[a]
        if at.kind in ("gt0", "gt0i"):
            return cmp_gt0(sr(at.args[0]), at.kind == "gt0i")
        if at.kind == "eq0":
            return cmp_eq0(sr(at.args[0]), True)
        r = sa(a)
        if r.is_const():
            return TRUE() if r.t else FALSE()
        (m, c), = r.t.items()
        return boolatom(m[0][0])

    return sr(x) if isinstance(x, R) else sv(x)


def _ints(f):
    return lambda a, b: f(int(a), int(b)) if a.denominator == 1 and b.denominator == 1 else None


def _trunc(a):
    return -((-a.numerator) // a.denominator) if a < 0 else a.numerator // a.denominator


def _idiv(a, b):
    return None if b == 0 else (-1 if (a < 0) != (b < 0) else 1) * (abs(a) // abs(b))


FOLD = {"idiv": _ints(_idiv), "floor": lambda a: a.numerator // a.denominator, "ceil": lambda a: -((-a.numerator) // a.denominator), "trunc": _trunc,
        "and": _ints(lambda a, b: a & b if a >= 0 and b >= 0 else None), "or": _ints(lambda a, b: a | b if a >= 0 and b >= 0 else None)}


def rebuild(at, args):
    if at.kind == "inv":
        return rinv(args[0])
    if at.kind == "big":
        return wrap(args[0])
    if at.kind == "sqrt":
        return rsqrt(args[0])
    if at.kind == "abs":
        return rabs(args[0], at.isint)
    if at.kind in FOLD and all(isinstance(x, R) and x.is_const() for x in args):
        r = FOLD[at.kind](*[x.const() for x in args])
        if r is not None:
            return rc(r)
    if at.kind == "idiv" and args[1].is_const() and args[1].t:
        q = rscale(args[0], 1 / args[1].const())
        if all(k.denominator == 1 for k in q.t.values()):
            return q
    return mk(at.kind, args, at.isint)


def support(v):
    """all boolean atoms of ADD"""
    s = set()
    seen = set()

    def go(v):
        if v.id in seen:
            return
        seen.add(v.id)
        if v.atom is not None:
            s.add(v.atom)
            go(v.hi)
            go(v.lo)
    go(v)
    return s


def deep_atoms(x, acc=None):
    """all atom ids reachable from R/V"""
    acc = set() if acc is None else acc
    seenv = set()

    def gr(r):
        for m in r.t:
            for a, _ in m:
                ga(a)

    def ga(a):
        if a in acc:
            return
        acc.add(a)
        for x in ATOMS[a].args:
            if isinstance(x, R):
                gr(x)
            elif isinstance(x, V):
                gv(x)

    def gv(v):
        if v.id in seenv:
            return
        seenv.add(v.id)
        if v.atom is None:
            gr(v.r)
        else:
            ga(v.atom)
            gv(v.hi)
            gv(v.lo)
    if isinstance(x, R):
        gr(x)
    else:
        gv(x)
    return acc


# ---------------------------------------------------------------- printing
NAMER = [None]


_budget = [0]


def show_atom(a, depth=0):
    at = ATOMS[a]
    if depth == 0:
        _budget[0] = 150
    _budget[0] -= 1
    if depth > 7 or _budget[0] < 0:
        return "#%d" % a
    if NAMER[0]:
        s = NAMER[0](at)
        if s:
            return s
    d = depth + 1
    if at.kind == "gt0" or at.kind == "gt0i":
        return "(%s > 0)" % show(at.args[0], d)
    if at.kind == "eq0":
        return "(%s == 0)" % show(at.args[0], d)
    if at.kind == "inv":
        return "1/(%s)" % show(at.args[0], d)
    if at.kind == "load":
        return "[%s]" % show(at.args[0], d)
    if not at.args:
        return at.kind
    return "%s(%s)" % (at.kind, ", ".join(show(x, d) if isinstance(x, R) else showv(x, d) if isinstance(x, V) else str(x) for x in at.args))


def show(r, depth=0):
    if not r.t:
        return "0"
    out = []
    lim_n = max(3, 14 - 2 * depth)
    items = list(r.t.items())
    more = len(items) > lim_n
    if len(items) < 200:
        items.sort(key=lambda x: (-len(x[0]), x[0]))
    for m, c in items[:lim_n]:
        try:
            f = float(c)
        except OverflowError:
            f = math.inf
        cs = ("%d" % c) if c.denominator == 1 and abs(c) < 10**9 else "%.10g" % f
        ms = "*".join(show_atom(a, depth) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not ms:
            out.append(cs)
        elif c == 1:
            out.append(ms)
        elif c == -1:
            out.append("-" + ms)
        else:
            out.append(cs + "*" + ms)
    if more:
        out.append("...(%d terms)" % len(r.t))
    return " + ".join(out).replace("+ -", "- ")


def showv(v, depth=0):
    if v.atom is None:
        return show(v.r, depth)
    if depth > 4:
        return "..."
    return "ite(%s, %s, %s)" % (show_atom(v.atom, depth), showv(v.hi, depth + 1), showv(v.lo, depth + 1))
