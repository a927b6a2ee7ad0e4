"""Finite instances of closed-form iteration spaces: which calls a function makes, in which order, for given sizes.

The summary of a function lists its out-of-line calls with symbolic guards and symbolic loop counts.  For chosen values of the
size parameters (number of sub-domains, ...) the iteration spaces become finite, and the ordered list of calls is read off the
formulas.  Nothing of the program is executed."""
from . import alg
from .alg import *


class NotFinite(Exception):
    pass


class Inst:
    __slots__ = ("dem", "args", "guard", "content", "line", "file", "key", "call", "env")


def query(P, fn, env=()):
    """value returned by query function `fn` (an R); its parameters arg(i) may be replaced through env"""
    s = P.summary(fn)
    v = s.ret
    if env:
        v = subst(v, dict(env))
    if v.atom is not None:
        raise NotFinite("query %s is conditional" % fn)
    return v.r


def atom_of(r):
    """the single atom an R consists of"""
    if len(r.t) != 1:
        return None
    (m, c), = r.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    return m[0][0]


def arg(i):
    return atom_of(mk("arg", (i,)))


def const_int(v):
    if isinstance(v, V):
        if v.atom is not None:
            return None
        v = v.r
    if not v.is_const():
        return None
    c = v.const()
    return int(c) if c == int(c) else None


def resolve(x, env):
    """substitute until nothing changes (values of parameters may appear inside addresses)"""
    for _ in range(6):
        y = subst(x, env)
        if y is x or (isinstance(x, V) and y.id == x.id) or (isinstance(x, R) and y.key() == x.key()):
            return y
        x = y
    return x


def instances(S, env, limit=200000, calls=None):
    """ordered call instances of summary S under env {atom id: R}"""
    out = []
    cs = [c for c in S.calls if not isF(c.guard)] if calls is None else calls
    seqs = {id(c): i for i, c in enumerate(S.calls)}
    # loop position: smallest sequence number of a call below the same loop prefix
    pos = {}
    for c in cs:
        for i in range(len(c.quants)):
            k = tuple(q for q, _ in c.quants[:i + 1])
            pos[k] = min(pos.get(k, seqs[id(c)]), seqs[id(c)])

    def expand(c, i, e, key):
        if i == len(c.quants):
            g = resolve(c.guard, e)
            if isF(g):
                return
            x = Inst()
            x.dem, x.guard, x.line, x.file, x.key, x.call, x.env = c.dem, g, c.line, c.file, tuple(key) + (seqs[id(c)],), c, dict(e)
            x.args = [resolve(a, e) for a in c.args]
            out.append(x)
            if len(out) > limit:
                raise NotFinite("too many instances")
            return
        q, n = c.quants[i]
        nn = const_int(resolve(n, e))
        if nn is None:
            raise NotFinite("loop count of %s at %s:%s is not determined by the parameters: %s" % (c.dem, c.file, c.line, show(resolve(n, e)) if isinstance(n, R) else showv(resolve(n, e))))
        p = pos[tuple(a for a, _ in c.quants[:i + 1])]
        for v in range(max(0, nn)):
            e2 = dict(e)
            e2[q] = rc(v)
            expand(c, i + 1, e2, key + [p, v])

    for c in cs:
        expand(c, 0, dict(env), [])
    out.sort(key=lambda x: x.key)
    return out


def content(x, i):
    """{offset: value} of the local object passed as argument i of instance x"""
    return {o: resolve(v, x.env) for o, v in x.call.iargs.get(i, {}).items()}


def partial(S, env, limit=5000):
    """calls of S with every loop whose count the parameters determine spelled out; other loops stay symbolic"""
    from .summ import Call
    out = []

    def expand(c, i, e, kept):
        if i == len(c.quants):
            g = resolve(c.guard, e)
            if isF(g):
                return
            d = Call(c.name, c.dem, [resolve(a, e) for a in c.args], g, [(q, resolve(n, e)) for q, n in kept], c.line, c.file, c.seq)
            d.iargs = {}
            out.append(d)
            if len(out) > limit:
                raise NotFinite("too many instances")
            return
        q, n = c.quants[i]
        nn = const_int(resolve(n, e))
        if nn is None:
            expand(c, i + 1, e, kept + [(q, n)])
            return
        for v in range(max(0, nn)):
            e2 = dict(e)
            e2[q] = rc(v)
            expand(c, i + 1, e2, kept)

    for c in S.calls:
        if not isF(c.guard):
            expand(c, 0, dict(env), [])
    return out
