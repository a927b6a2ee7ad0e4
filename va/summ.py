"""Value-flow summaries of functions.

A forward array-dataflow analysis over SSA: every value is mapped to a canonical term
(alg.V), control flow is folded into decision diagrams (gated SSA), counted loops become
quantified writes, and a load is resolved by read-over-write against the log of earlier
(possibly quantified) writes.  Assumption: memory reached through different access paths
does not alias.
"""
import re
from fractions import Fraction
from . import alg
from .alg import *
from . import models

PURE = {"sqrt", "pow", "sin", "cos", "tan", "exp", "log", "log10", "floor", "ceil", "fabs", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh",
        "cbrt", "round", "trunc", "fmod", "tgamma", "lgamma", "erf", "fmin", "fmax", "hypot", "exp2", "log2"}
SKIP_CALL = re.compile(r"llvm\.(dbg|lifetime|assume|experimental\.noalias|stackrestore|donothing|invariant|va_|stacksave|prefetch|sideeffect|trap|ubsantrap)")


class Unsupported(Exception):
    pass


class Write:
    __slots__ = ("addr", "guard", "val", "quants", "kind", "line", "file", "x")

    def __init__(self, addr, guard, val, quants=(), kind="st", line=0, file="", x=None):
        self.addr, self.guard, self.val, self.quants, self.kind = addr, guard, val, quants, kind
        self.line, self.file, self.x = line, file, x


class Call:
    __slots__ = ("name", "dem", "args", "guard", "quants", "line", "file", "seq", "iargs", "vargs", "ret")

    def __init__(self, name, dem, args, guard, quants, line, file, seq):
        self.name, self.dem, self.args, self.guard, self.quants, self.line, self.file, self.seq = name, dem, args, guard, quants, line, file, seq


UNROLL = 8


class LoopCtx:
    def __init__(self):
        self.prev = None      # writes of an iteration (from the discovery pass)
        self.cells = {}       # invariant address key -> placeholder R
        self.celladdr = {}


class Marker:
    __slots__ = ("loop",)

    def __init__(self, loop):
        self.loop = loop


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class Loop:
    pass


def find_loops(F):
    """natural loops on the CFG without unwind edges; returns (rpo, loops by header, innermost loop of block)"""
    n = len(F.blocks)
    seen = set()
    order = []
    st = [(0, iter(F.blocks[0].succs))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(F.blocks[s].succs)))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [p for p in F.blocks[b].preds if p in idx] for b in rpo}
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in F.blocks[b].succs:
            if s in idx and dom(s, b):
                L = loops.setdefault(s, Loop())
                if not hasattr(L, "header"):
                    L.header, L.latches, L.blocks = s, [], {s}
                L.latches.append(b)
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        stack += preds[x]
            elif s in idx and idx[s] <= idx[b]:
                raise Unsupported("irreducible control flow in %s" % F.dem)
    inner = {}
    for b in rpo:
        best = None
        for L in loops.values():
            if b in L.blocks and (best is None or len(L.blocks) < len(best.blocks)):
                best = L
        inner[b] = best
    for L in loops.values():
        L.parent = None
        for M in loops.values():
            if M is not L and L.header in M.blocks and (L.parent is None or len(M.blocks) < len(L.parent.blocks)):
                L.parent = M
    return rpo, preds, loops, inner, idom


def base_split(r):
    """address polynomial -> (base atom id, offset R)"""
    best = None
    for m, c in r.t.items():
        if len(m) == 1 and m[0][1] == 1 and c == 1 and ATOMS[m[0][0]].kind in ("arg", "load", "alloca", "vbuf", "glob", "ret", "new", "out", "vt", "carried", "phi", "opq", "undef", "cell"):
            if best is None or prio(m[0][0]) > prio(best):
                best = m[0][0]
    if best is None:
        return None, r
    return best, rsub(r, R({((best, 1),): Fraction(1)}))


def prio(a):
    k = ATOMS[a].kind
    at = ATOMS[a]
    p = 1 if at.isint else 2
    return (p, {"alloca": 5, "vbuf": 5, "glob": 5, "new": 5, "arg": 4, "ret": 3, "out": 3, "load": 3}.get(k, 1), -a)


def unify(a, b):
    """equations (list of R == 0) under which addresses a and b coincide; None: never"""
    ba, oa = base_split(a)
    bb, ob = base_split(b)
    if ba is None or bb is None:
        d = rsub(a, b)
        return [d] if d.t else []
    eqs = []
    d = rsub(oa, ob)
    if d.is_const():
        if d.t:
            return None
    else:
        eqs.append(d)
    if ba == bb:
        return eqs
    A, B = ATOMS[ba], ATOMS[bb]
    if A.kind == B.kind and A.kind in ("load", "vbuf"):
        e = unify(A.args[0], B.args[0])
        if e is None:
            return None
        return e + eqs
    if A.kind == B.kind == "new" and A.args[:2] == B.args[:2] and len(A.args) == len(B.args):
        # the same allocation in other iterations: the same object only in the same iteration
        for x, y in zip(A.args[2:], B.args[2:]):
            d = rsub(x, y)
            if d.is_const():
                if d.t:
                    return None
            else:
                eqs.append(d)
        return eqs
    return None


class Summariser:
    def __init__(self, prog, F, pure=(), argvals=None, policy=None):
        self.prog, self.F = prog, F
        self.rpo, self.preds, self.loops, self.inner, self.idom = find_loops(F)
        self.val = {}
        self.log = []
        self.calls = []
        self.guard = {}
        self.edge = {}
        self.ctx = []
        self.facts = []
        self.ret = None
        self.ord = {}
        self.argvals = argvals or {}
        self.pure = set(pure)
        self.notes = []
        self.undef_uses = []
        self.policy = policy or {}
        self.allocas = set()
        self.exmap = {}
        self.assume = TRUE()
        self.lastline, self.lastfile = 0, ''
        self.aborts = []
        self.kn = {}          # iteration -> how often the loop is run
        self.loopinfo = {}
        self._dead = {}

    # ------------------------------------------------------------ operands
    def arg(self, i):
        if i in self.argvals:
            return self.argvals[i]
        return leaf(mk("arg", (i,), isint=self.F.param_types[i].startswith("i")))

    def v(self, o):
        k = o[0]
        if k == "i":
            if o[1] not in self.val:
                return leaf(mk("opq", (o[1],)))
            return self.val[o[1]]
        if k == "a":
            return self.arg(o[1])
        if k == "c":
            return leaf(rc(o[1]))
        if k == "f":
            d = o[1]
            if d != d or d in (float("inf"), float("-inf")):
                return leaf(mk("fpconst", (str(d),)))
            return leaf(rc(const_of_double(d)))
        if k == "g":
            t = self.prog.m.global_string(o[1])
            return leaf(mk("glob", (o[1] if t is None else "str:" + t,)))
        if k == "fn":
            return leaf(mk("glob", (o[1],)))
        if k == "u":
            return leaf(mk("undef", ()))
        if k == "gepc":
            return self.gep(o[1])
        if k == "ce":
            if o[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return self.v(o[2][0])
            if o[1] in ("add", "sub"):
                f = vadd if o[1] == "add" else vsub
                return f(self.v(o[2][0]), self.v(o[2][1]))
        if k == "agg":
            return leaf(mk("agg", tuple(self.v(x).r for x in o[1])))
        return leaf(mk("opq", (str(o),)))

    def gep(self, g):
        base, off, terms = g
        r = self.v(base)
        if off:
            r = vadd(r, leaf(rc(off)))
        for o, s in terms:
            r = vadd(r, vmul(self.v(o), leaf(rc(s))))
        return r

    # ------------------------------------------------------------ comparisons with facts
    def known(self, P):
        """P > 0 ? True / False / None for integer-valued P using loop-range facts (F >= 0)"""
        if P.is_const():
            return P.const() > 0
        fs = [f.r for f in self.facts if f.atom is None]
        for f in fs:
            d = rsub(P, f)
            if d.is_const() and d.const() > 0:
                return True
            d = rsub(rneg(P), f)
            if d.is_const() and d.const() >= 0:
                return False
            if f.is_const() or len(f.t) > 8:
                continue
            m = max(f.t)
            c = P.t.get(m)
            if c is None:
                continue
            c /= f.t[m]
            if abs(c) == 1:
                continue
            d = rsub(P, rscale(f, c))
            if d.is_const():
                if c > 0 and d.const() > 0:
                    return True
                if c < 0 and d.const() <= 0:
                    return False
        if len(fs) <= 8:
            for i in range(len(fs)):
                for j in range(i, len(fs)):
                    s = radd(fs[i], fs[j])
                    d = rsub(P, s)
                    if d.is_const() and d.const() > 0:
                        return True
                    d = rsub(rneg(P), s)
                    if d.is_const() and d.const() >= 0:
                        return False
        return None

    def gt0(self, P, isint):
        if isint:
            k = self.known(P)
            if k is not None:
                return TRUE() if k else FALSE()
            base = [f.r for f in self.facts if f.atom is None]
            for F in self.facts:
                if F.atom is None:
                    continue
                hit = [False]

                def dec(f):
                    for extra in [ZERO] + base[:6]:
                        d = rsub(rsub(P, f), extra)
                        if d.is_const() and d.const() > 0:
                            hit[0] = True
                            return TRUE()
                        d = rsub(rsub(rneg(P), f), extra)
                        if d.is_const() and d.const() >= 0:
                            hit[0] = True
                            return FALSE()
                    return cmp_gt0(P, isint)
                r = apply("fact", dec, F)
                if hit[0]:
                    return r
        return cmp_gt0(P, isint)

    def eq0(self, P, isint):
        if isint and not P.is_const():
            if self.known(P) or self.known(rneg(P)):
                return FALSE()
        return cmp_eq0(P, isint)

    def icmp(self, p, a, b):
        def f(x, y):
            if p[0] == "u":
                for z in (x, y):
                    if len(z.t) == 1:
                        (m, c), = z.t.items()
                        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "load":
                            NONNEG.add(m[0][0])
            d = rsub(x, y)
            if p == "eq":
                return self.eq0(d, True)
            if p == "ne":
                return vnot(self.eq0(d, True))
            if p in ("ugt", "sgt"):
                return self.gt0(d, True)
            if p in ("ult", "slt"):
                return self.gt0(rneg(d), True)
            if p in ("uge", "sge"):
                return vnot(self.gt0(rneg(d), True))
            return vnot(self.gt0(d, True))
        # pointers and unflagged loads are integers too: mark by context
        return apply("icmp", f, a, b)

    def fcmp(self, p, a, b):
        q = p[1:] if p not in ("ord", "uno", "true", "false") else p

        def f(x, y):
            d = rsub(x, y)
            if q == "eq":
                return cmp_eq0(d)
            if q == "ne":
                return vnot(cmp_eq0(d))
            if q == "gt":
                return cmp_gt0(d, False)
            if q == "lt":
                return cmp_gt0(rneg(d), False)
            if q == "ge":
                return vnot(cmp_gt0(rneg(d), False))
            if q == "le":
                return vnot(cmp_gt0(d, False))
            if q in ("uno", "ord"):
                if x.is_const() and y.is_const():
                    r = FALSE()
                else:
                    z = y if x.is_const() else x
                    r = boolatom(mkid("isnan", (z,)))
                return r if q == "uno" else vnot(r)
            return TRUE() if q == "true" else FALSE()
        return apply("fcmp", f, a, b)

    # ------------------------------------------------------------ memory
    def read(self, addr, guard, upto=None):
        return apply("read", lambda r: self.read1(r, guard, upto), addr)

    def read1(self, addr, guard, upto=None):
        log = self.log
        n = len(log) if upto is None else upto
        chain = []
        final = False
        for i in range(n - 1, -1, -1):
            w = log[i]
            if isinstance(w, Marker):
                r = self.read_prev(w.loop, addr, guard)
                if r is None:
                    continue
                cond, val, final = r
                chain.append(("st", cond, val))
                if final:
                    break
                continue
            if isF(vand(w.guard, guard)):
                continue
            m = self.match(w, addr)
            if m is None:
                continue
            cond, val = m
            if not w.quants:
                cond = vand(cond, w.guard)
            if isF(vand(cond, guard)):
                continue
            if w.kind == "acc":
                chain.append(("acc", cond, val))
                continue
            if val == "copy":
                val = self.read1(radd(w.val.r, off_of(addr, w.addr)), guard, i)
            elif isinstance(val, tuple):
                val = self.read(val[1], guard, i)
            chain.append(("st", cond, val))
            if isF(vand(guard, vnot(cond))):
                final = True
                break
        if final:
            out = chain.pop()[2]
        else:
            out = self.initial(addr)
        for kind, cond, val in reversed(chain):
            if kind == "acc":
                out = vadd(out, ite(cond, val, leaf(ZERO)))
            else:
                out = ite(cond, val, out)
        return out

    def initial(self, addr):
        b, off = base_split(addr)
        if b is not None and ATOMS[b].kind == "glob":
            g = ATOMS[b].args[0]
            if off.is_const() and off.const() == 0:
                c = self.prog.global_value(g)
                if c is not None:
                    return c
            arr = self.prog.m.global_array(g)
            if arr:
                sz, els = arr
                els = [leaf(rc(const_of_double(v) if k == "f" else v)) for k, v in els]
                if all(e is els[0] for e in els):
                    return els[0]
                if not off.is_const():
                    out = els[-1]
                    for j in range(len(els) - 2, -1, -1):
                        out = ite(cmp_eq0(radd(off, rc(-j * sz))), els[j], out)
                    return out
                if off.const() % sz == 0 and 0 <= off.const() // sz < len(els):
                    return els[int(off.const() // sz)]
        x = b
        while x is not None and ATOMS[x].kind == "vbuf":
            x, _ = base_split(ATOMS[x].args[0])
        if x is not None and ATOMS[x].kind == "alloca":
            return leaf(mk("undef", ()))
        return leaf(mk("load", (addr,), isint=False))

    def match(self, w, addr):
        if w.kind == "copy" or w.kind == "fill" or w.kind == "clob":
            b1, o1 = base_split(addr)
            b2, o2 = base_split(w.addr)
            if w.quants and w.kind == "copy":
                # a buffer per iteration
                if b1 is None or b2 is None or o2.t or w.x[0] is not None:
                    return None
                eqs = unify(R({((b2, 1),): Fraction(1)}), R({((b1, 1),): Fraction(1)}))
                m = None if eqs is None else self.solve(w, eqs, [k for k, n in w.quants])
                return None if m is None else (m[0], ("copy", vadd(m[1], leaf(o1))))
            if b1 is None or b1 != b2:
                return None
            d = rsub(o1, o2)
            if w.kind == "clob":
                return (TRUE(), leaf(mk("out", (w.x, d))))
            if w.x[0] is not None:
                if not d.is_const():
                    return None
                if d.const() < 0 or d.const() >= w.x[0]:
                    return None
            if w.kind == "fill":
                return (TRUE(), w.val)
            return (TRUE(), "copy")
        wa = w.addr
        mp = {}
        if w.quants:
            for k, n in w.quants:
                mp[k] = None
        eqs = unify(wa, addr)
        if eqs is None:
            return None
        return self.solve(w, eqs, list(mp))

    def solve(self, w, eqs, ks):
        sol = {}
        rest = []
        pend = list(eqs)
        for e in pend:
            if sol:
                e = subst(e, sol)
            done = False
            if e.is_const():
                if e.t:
                    return None
                continue
            for k in ks:
                if k in sol:
                    continue
                lin = linear_in(e, k)
                if lin is not None:
                    c, restr = lin
                    x = rscale(restr, -1 / c)
                    # integrality
                    cst = x.const()
                    if all(cc.denominator == 1 for m, cc in x.t.items() if m != ()) and cst.denominator != 1:
                        return None
                    for kk in list(sol):
                        sol[kk] = subst(sol[kk], {k: x})
                    sol[k] = x
                    done = True
                    break
            if not done:
                rest.append(e)
        cond = TRUE()
        for e in rest:
            if sol:
                e = subst(e, sol)
            cond = vand(cond, self.eq0(e, True))
            if isF(cond):
                return None
        val = w.val
        g = w.guard
        if w.quants:
            for k, n in w.quants:
                if k not in sol:
                    if w.kind == "acc":
                        return self.accsum(w, cond, sol)
                    # several iterations may write the cell: the last one wins
                    body = close_ks(ite(vand(cond, subst(g, sol)), subst(val, sol), leaf(mk("nowrite", ()))), [q for q, _ in w.quants if q not in sol])
                    key = (body,) + tuple(subst(m, sol) for q, m in w.quants)
                    return (boolatom(mkid("anywrite", key)), leaf(mk("lastwrite", key)))
            for k, n in w.quants:
                x = sol[k]
                nn = subst(n, sol)
                lo = vnot(self.gt0(rneg(x), True))
                hi = apply("lt", lambda r: self.gt0(rsub(r, x), True), nn)
                cond = vand(cond, vand(lo, hi))
                if isF(cond):
                    return None
            val = subst(val, sol)
            g = subst(g, sol)
            cond = vand(cond, g)
        return (cond, val)

    def accsum(self, w, cond, sol):
        """contribution of an accumulating write whose location is hit by several iterations"""
        rng = TRUE()
        for k, n in w.quants:
            if k in sol:
                x, nn = sol[k], subst(n, sol)
                rng = vand(rng, vand(vnot(self.gt0(rneg(x), True)), apply("lt", lambda r: self.gt0(rsub(r, x), True), nn)))
        d = ite(vand(vand(cond, subst(w.guard, sol)), rng), subst(w.val, sol), leaf(ZERO))
        for k, n in w.quants:      # innermost first
            if k not in sol:
                nn = subst(n, sol)
                dd = d
                d = apply("s", lambda r: sumv(dd, k, r), nn)
        return (TRUE(), d)

    def read_prev(self, L, addr, guard):
        """effect of earlier iterations of an active loop on a read at addr"""
        key = addr.key()
        if key in L.cells:
            return (TRUE(), leaf(L.cells[key]), True)
        if L.prev is None:
            return None
        for w in reversed(L.prev):
            if w.kind not in ("st", "acc"):
                continue
            kk = mk("k", (uid(),), True)
            kid = next(iter(kk.t))[0][0]
            mp = {L.k: kk}
            wa = subst(w.addr, mp)
            eqs = unify(wa, addr)
            if eqs is None:
                continue
            if isF(vand(subst(w.guard, mp), guard)):
                continue
            ks = [kid] + [q[0] for q in w.quants]
            sol = {}
            bad = False
            for e in eqs:
                if sol:
                    e = subst(e, sol)
                if e.is_const():
                    if e.t:
                        bad = True
                        break
                    continue
                hit = False
                for q in ks:
                    if q in sol:
                        continue
                    lin = linear_in(e, q)
                    if lin is not None:
                        x = rscale(lin[1], -1 / lin[0])
                        if all(cc.denominator == 1 for m, cc in x.t.items() if m != ()) and x.const().denominator != 1:
                            bad = True
                            break
                        for z in list(sol):
                            sol[z] = subst(sol[z], {q: x})
                        sol[q] = x
                        hit = True
                        break
                if bad:
                    break
                if not hit:
                    if self.known(e) or self.known(rneg(e)):
                        bad = True
                        break
            if bad:
                continue
            if kid in sol:
                d = rsub(R({((L.k, 1),): Fraction(1)}), sol[kid])
                if d.is_const() and d.const() <= 0:
                    continue
                if self.known(radd(ONE, rneg(d))):   # d <= 0
                    continue
                # another iteration's range excluded?
                if w.quants and any(self.out_of_range(sol.get(q), n, sol) for q, n in w.quants):
                    continue
                return (TRUE(), leaf(mk("carried", (addr,))), True)
            # invariant cell written by every iteration
            if not depends(w.addr, L.k) and not w.quants:
                if not [e for e in eqs if not e.is_const()]:
                    L.celladdr[key] = addr
                    ph = mk("cell", (L.uid, len(L.cells)))
                    L.cells[key] = ph
                    L.grew = True
                    return (TRUE(), leaf(ph), True)
            return (TRUE(), leaf(mk("carried", (addr,))), True)
        return None

    def out_of_range(self, x, n, sol):
        if x is None:
            return False
        if self.known(rneg(x)):
            return True
        nn = subst(n, sol)
        if nn.atom is None and self.known(radd(rsub(x, nn.r), ONE)):
            return True
        return False

    # ------------------------------------------------------------ execution
    def run(self):
        g = {0: TRUE()}
        self.exec_region(self.rpo, None, 0, TRUE())
        return self

    def exec_region(self, order, loop, entry, g0):
        """execute blocks of a region (function body or loop body) in RPO; inner loops are collapsed"""
        inside = set(order)
        self.guard[entry] = g0
        done = set()
        for b in order:
            if b in done:
                continue
            L = self.inner[b]
            if b != entry or loop is None:
                # compute guard
                if not (loop is None and b == entry):
                    g = FALSE()
                    for p in self.preds[b]:
                        if (p, b) in self.edge and p in inside:
                            if self.is_back(p, b):
                                continue
                            g = vor(g, self.edge[(p, b)])
                    self.guard[b] = g
                if L is not None and L is not loop and L.header == b:
                    sub = [x for x in self.rpo if x in L.blocks]
                    if not isF(self.guard[b]):
                        self.exec_loop(L, sub, self.guard[b])
                    done |= L.blocks
                    continue
            self.exec_block(b, loop)
            done.add(b)

    def is_back(self, p, b):
        return b in self.loops and p in self.loops[b].blocks

    def exec_block(self, b, loop):
        g = self.guard[b]
        B = self.F.blocks[b]
        if isF(g):
            for s in B.succs:
                self.edge[(b, s)] = FALSE()
            return
        for I in B.insts:
            if I.op == "phi":
                if b in self.loops and loop is not None and loop.header == b:
                    continue  # set by exec_loop
                v = None
                for o, p in I.ops:
                    if (p, b) not in self.edge:
                        continue
                    e = self.edge[(p, b)]
                    if isF(e):
                        continue
                    x = self.edge_val(o, p, b)
                    v = x if v is None else ite(e, x, v)
                self.val[I.id] = v if v is not None else leaf(mk("undef", ()))
                continue
            self.exec_inst(I, b, g)

    def seti(self, I, v):
        self.val[I.id] = v

    def exec_inst(self, I, b, g):
        op = I.op
        if I.line:
            self.lastline, self.lastfile = I.line, I.file
        v = self.v
        if op == "br":
            if not I.ops:
                self.edge[(b, I.x[0])] = g
            else:
                c = self.tobool(v(I.ops[0]))
                t, f = I.x
                if t == f:
                    self.edge[(b, t)] = g
                else:
                    dt, df = self.dead_exit(t), self.dead_exit(f)
                    self.edge[(b, t)] = g if df and not dt else vand(g, c)
                    self.edge[(b, f)] = g if dt and not df else vand(g, vnot(c))
            return
        if op == "switch":
            x = v(I.ops[0])
            d, cases = I.x
            rest = g
            acc = {}
            for c, t in cases:
                e = apply("sw", lambda r: self.eq0(rsub(r, rc(c)), True), x)
                acc[t] = vor(acc.get(t, FALSE()), vand(rest, e))
                rest = vand(rest, vnot(e))
            acc[d] = vor(acc.get(d, FALSE()), rest)
            for t, e in acc.items():
                self.edge[(b, t)] = e
            return
        if op == "ret":
            if I.ops:
                x = v(I.ops[0])
                self.ret = x if self.ret is None else ite(g, x, self.ret)
            return
        if op in ("unreachable", "resume", "landingpad", "fence"):
            if op == "unreachable":
                self.aborts.append((g, self.lastline, self.lastfile, ()))
            if op == "landingpad":
                self.seti(I, leaf(mk("opq", ("lp",))))
            return
        if op in ("fadd", "add"):
            return self.seti(I, vadd(v(I.ops[0]), v(I.ops[1])))
        if op in ("fsub", "sub"):
            return self.seti(I, vsub(v(I.ops[0]), v(I.ops[1])))
        if op in ("fmul", "mul"):
            return self.seti(I, vmul(v(I.ops[0]), v(I.ops[1])))
        if op == "fdiv":
            return self.seti(I, vdiv(v(I.ops[0]), v(I.ops[1])))
        if op == "fneg":
            return self.seti(I, vmul(leaf(rc(-1)), v(I.ops[0])))
        if op in ("sdiv", "udiv") and I.x and v(I.ops[1]).atom is None and v(I.ops[1]).r.is_const():
            d = v(I.ops[1]).r.const()
            return self.seti(I, apply("exdiv%s" % d, lambda a: rscale(a, 1 / d), v(I.ops[0])))
        if op in ("lshr", "ashr") and I.x and v(I.ops[1]).atom is None and v(I.ops[1]).r.is_const():
            d = Fraction(2) ** int(v(I.ops[1]).r.const())
            return self.seti(I, apply("exdiv%s" % d, lambda a: rscale(a, 1 / d), v(I.ops[0])))
        if op in ("sdiv", "udiv"):
            return self.seti(I, apply("idiv", idiv, v(I.ops[0]), v(I.ops[1])))
        if op in ("srem", "urem", "frem"):
            return self.seti(I, apply("rem", irem, v(I.ops[0]), v(I.ops[1])))
        if op == "shl":
            return self.seti(I, apply("shl", lambda a, c: rscale(a, Fraction(2) ** int(c.const())) if c.is_const() else mk("shl", (a, c), True), v(I.ops[0]), v(I.ops[1])))
        if op in ("lshr", "ashr"):
            return self.seti(I, apply("shr", lambda a, c: idiv(a, rc(2 ** int(c.const()))) if c.is_const() else mk("shr", (a, c), True), v(I.ops[0]), v(I.ops[1])))
        if op in ("and", "or", "xor"):
            a, c = v(I.ops[0]), v(I.ops[1])
            if I.ty == "i1":
                a, c = self.tobool(a), self.tobool(c)
                r = vand(a, c) if op == "and" else vor(a, c) if op == "or" else ite(a, vnot(c), c)
                return self.seti(I, r)
            return self.seti(I, apply(op, lambda x, y: bitop(op, x, y), a, c))
        if op == "icmp":
            return self.seti(I, self.icmp(I.x, v(I.ops[0]), v(I.ops[1])))
        if op == "fcmp":
            return self.seti(I, self.fcmp(I.x, v(I.ops[0]), v(I.ops[1])))
        if op == "select":
            return self.seti(I, ite(self.tobool(v(I.ops[0])), v(I.ops[1]), v(I.ops[2])))
        if op in ("zext", "sext", "uitofp", "sitofp", "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            x = v(I.ops[0])
            if op in ("zext", "uitofp", "sext", "sitofp"):
                x = apply("asint", mark_int, x)
            return self.seti(I, x)
        if op == "trunc":
            x = v(I.ops[0])
            if I.ty == "i1":
                x = self.tobool(x)
            return self.seti(I, x)
        if op in ("fptosi", "fptoui"):
            return self.seti(I, apply("trunc", lambda r: r if is_int(r) else (rc(int(r.const())) if r.is_const() else mk("trunc", (r,), True)), v(I.ops[0])))
        if op == "alloca":
            a = mk("alloca", (self.F.name, I.id))
            return self.seti(I, leaf(a))
        if op == "gep":
            return self.seti(I, self.gep(I.x))
        if op == "load":
            a = v(I.ops[0])
            x = self.read(a, g)
            if I.ty.startswith("i") and I.ty != "i1":
                x = apply("asint", mark_int, x)
            return self.seti(I, x)
        if op == "store":
            val, a = v(I.ops[0]), v(I.ops[1])
            for pg, r in leaves(a):
                gg = vand(g, pg)
                if not isF(gg):
                    self.store(r, gg, val, I)
            return
        if op in ("call", "invoke"):
            self.exec_call(I, b, g)
            if op == "invoke":
                self.edge[(b, I.x[1])] = g
            return
        if op == "extractvalue":
            x = v(I.ops[0])
            ix = tuple(I.x)

            def ex(r):
                if len(r.t) == 1:
                    (m, c), = r.t.items()
                    if c == 1 and len(m) == 1 and ATOMS[m[0][0]].kind == "agg" and len(ix) == 1:
                        return ATOMS[m[0][0]].args[ix[0]]
                return mk("ext", (ix, r))
            return self.seti(I, apply("ext", ex, x))
        if op == "insertvalue":
            x, y = v(I.ops[0]), v(I.ops[1])
            ix = tuple(I.x)

            def ins(r, s):
                els = []
                if len(r.t) == 1:
                    (m, c), = r.t.items()
                    if c == 1 and len(m) == 1 and ATOMS[m[0][0]].kind == "agg":
                        els = list(ATOMS[m[0][0]].args)
                while len(els) <= ix[0]:
                    els.append(mk("undef", ()))
                els[ix[0]] = s
                return mk("agg", tuple(els))
            return self.seti(I, apply("ins", ins, x, y))
        if op in ("atomicrmw", "cmpxchg"):
            self.calls.append(Call("atomic", "atomic", [v(o) for o in I.ops], g, self.quants(), I.line, I.file, len(self.log)))
            return self.seti(I, leaf(mk("opq", ("atomic", I.id))))
        if op in ("insertelement", "extractelement", "shufflevector"):
            return self.seti(I, leaf(mk("opq", ("vec", I.id))))
        raise Unsupported("instruction %s in %s" % (op, self.F.dem))

    def store(self, r, gg, val, I):
        kind = "st"
        if not self.islocal(r):
            cur = self.read1(r, gg)
            own = {mkid("load", (r,)), mkid("carried", (r,))}
            for key, ph in [(k, p) for L in self.ctx for k, p in L.cells.items()]:
                if key == r.key():
                    own |= ph.atoms()
            if deep_atoms(cur) & own:
                d = vsub(val, cur)
                if not (deep_atoms(d) & own):
                    kind, val = "acc", d
        self.log.append(Write(r, gg, val, (), kind, I.line, I.file))

    def islocal(self, r):
        b, off = base_split(r)
        if b is not None and ATOMS[b].kind == "vbuf":
            return self.islocal(ATOMS[b].args[0])
        return b is not None and ATOMS[b].kind in ("alloca", "out")

    def tobool(self, x):
        def f(r):
            if r.is_const():
                return TRUE() if r.t else FALSE()
            if len(r.t) == 1:
                (m, c), = r.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ("isnan", "gt0", "gt0i", "eq0", "bool"):
                    return boolatom(m[0][0])
            return vnot(cmp_eq0(r, True))
        return apply("bool", f, x)

    def freshk(self):
        return mk("k", (uid(),), True)

    def quants_of(self, extra):
        return tuple((next(iter(k.t))[0][0], leaf(n)) for k, n in extra)

    def quants(self):
        return tuple((L.k, L.n) for L in self.ctx)

    def exec_call(self, I, b, g):
        callee = I.x[0] if I.op == "invoke" else I.x
        args = [self.v(o) for o in I.ops]
        name = None
        if callee[0] == "fn":
            name = callee[1]
        else:
            tgt = self.v(callee)
            name = self.vname(tgt)
        if SKIP_CALL.match(name):
            if I.ty != "void":
                self.seti(I, TRUE())
            return
        if name == "va_assume":
            c = self.tobool(args[0])
            self.assume = vand(self.assume, c)
            if c.atom is not None and ATOMS[c.atom].kind == "gt0i":
                P = ATOMS[c.atom].args[0]
                if isT(c.hi) and isF(c.lo):
                    self.facts.append(leaf(rsub(P, ONE)))
                elif isF(c.hi) and isT(c.lo):
                    self.facts.append(leaf(rneg(P)))
            return
        dem = self.prog.dem(name)
        short = name
        m = re.match(r"llvm\.(\w+)(\.|$)", name)
        if m:
            short = m.group(1)
        if short in ("memcpy", "memmove"):
            n = args[2]
            if n.atom is None and n.r.is_const() and args[0].atom is None:
                for pg, src in leaves(args[1]):
                    gg = vand(g, pg)
                    self.log.append(Write(args[0].r, gg, leaf(src), (), "copy", I.line, I.file, (n.r.const(), 0)))
                return
            short = name
        if short == "memset":
            n = args[2]
            if n.atom is None and n.r.is_const() and args[0].atom is None and args[1].atom is None and args[1].r.is_const() and args[1].r.const() == 0:
                self.log.append(Write(args[0].r, g, leaf(ZERO), (), "fill", I.line, I.file, (n.r.const(), 0)))
                return
        r = self.purecall(short, dem, args, I)
        if r is not None:
            self.seti(I, r)
            return
        if not self.prog.is_opaque(dem) and (models.vec_call(self, dem, args, g, I) or models.str_call(self, dem, args, g, I)):
            return
        pol = self.prog.call_policy(name, dem) if not self.policy.get(name) else self.policy[name]
        if pol == "ignore":
            if I.ty != "void":
                self.seti(I, leaf(mk("opq", (name, I.id))))
            return
        if pol == "pure":
            ts = models.split_args(models._S1.sub("STR", dem)[len(models._S1.sub("STR", dem).split("(")[0]) + 1:-1])
            if len(ts) == len(args):
                args = [self.read(x, g) if re.match(r"STR( const)?&?$", t) else x for x, t in zip(args, ts)]
            self.seti(I, apply("fn", lambda *rs: mk("fn", (dem,) + tuple(rs), I.ty.startswith("i")), *args))
            return
        o = self.ord.get(name, 0)
        self.ord[name] = o + 1
        ks = tuple(R({((L.k, 1),): Fraction(1)}) for L in self.ctx)
        if len(args) == 2 and "::push_back(" in dem and re.search(r"\*( const)?&{1,2}\)$", dem):
            args = [args[0], self.read(args[1], g)]      # the element handed over, wherever the reference points
        c = Call(name, dem, args, g, self.quants(), I.line, I.file, len(self.log))
        ts = models.arg_types(dem, len(args))
        c.iargs, c.vargs = {}, {}      # vargs: elements of vectors at constant places (not compared, the generic element is)
        for ai, a in enumerate(args):
            if a.atom is None and self.islocal(a.r):
                self.vlast = {}
                c.iargs[ai] = self.local_content(a, g, ts.get(ai))
                c.vargs[ai] = self.vlast
        if 0 in c.iargs and re.match(r"(?:\w+::)*(\w+)::\1\(", dem):
            c.iargs[0] = {}       # under construction
        self.calls.append(c)
        tag = (dem, o)
        if pol == "pureatom":
            def f(*rs):
                return mk("fn", (dem,) + tuple(rs), I.ty.startswith("i"))
            if I.ty != "void":
                self.seti(I, apply("fn", f, *args))
            return
        # out-parameters: local storage handed to the callee is redefined by it
        for ai, a in enumerate(args):
            for pg, r in leaves(a):
                bs, off = base_split(r)
                if bs is not None and ATOMS[bs].kind == "alloca" and off.is_const():
                    if pol == "const":
                        continue
                    t = mk("tag", (dem, o, ai) + ks)
                    self.log.append(Write(R({((bs, 1),): Fraction(1)}), vand(g, pg), None, (), "clob", I.line, I.file, t))
        if I.ty != "void":
            kind = "new" if dem.startswith("operator new") else "ret"
            rv = mk(kind, (dem, o) + ks, I.ty.startswith("i"))
            if I.ty == "i1":
                rv = None
                self.seti(I, boolatom(mkid("bool", (dem, o) + ks)))
                return
            self.seti(I, leaf(rv))

    def local_content(self, a, g, ty=None):
        """what a local object handed to a callee holds: {('o', offset): value} and, for vectors it owns, {('v', vector offset, offset): value}"""
        b, off = base_split(a.r)
        out = {}
        if ATOMS[b].kind != "alloca":
            return out
        for w in self.log:
            if not isinstance(w, Write) or w.kind not in ("st", "acc", "copy"):
                continue
            wb, wo = base_split(w.addr)
            if wb == b:
                d = rsub(wo, off)
                if d.is_const() and d.const() >= 0:
                    out[("o", d.const())] = w.addr
            elif wb is not None and ATOMS[wb].kind == "vbuf":
                vb, vo = base_split(ATOMS[wb].args[0])
                if vb == b:
                    d = rsub(vo, off)
                    if d.is_const():
                        for k in ([wo.const()] if w.kind != "copy" and wo.is_const() else sorted(self.offsets(wb)) if w.kind == "copy" else ()):
                            out[("v", d.const(), k)] = radd(R({((wb, 1),): Fraction(1)}), rc(k))
        res = {k: self.read1(x, g) for k, x in out.items()}
        if ty is not None and models.nested_ok(ty):
            # a vector: its element at a generic place
            self.vlast = {k: v for k, v in res.items() if k[0] == "v"}
            res = {k: v for k, v in res.items() if k[0] != "v"}
            cur, lv, rng, out_ = leaf(a.r), 0, TRUE(), mk("opq", ("outside",))

            def inside(v):
                """what lies outside of the vector does not matter"""
                mp = {}
                for x in deep_atoms(v):
                    if ATOMS[x].kind == "undef" or (ATOMS[x].kind == "load" and any(ATOMS[y].kind == "alloca" for y in deep_atoms(ATOMS[x].args[0]))):
                        mp[x] = mk("opq", ("outside",))
                return subst(v, mp) if mp else v
            while True:
                ty = models.inner(ty)
                buf = self.read(cur, g)
                nb = vsub(self.read(vadd(cur, leaf(rc(8))), g), buf)
                res[("n", lv)] = ite(rng, inside(nb), leaf(out_))
                sz = models.elem(ty)
                at = rscale(mk("probe", (lv,), True), Fraction(sz or 24))
                cur = vadd(buf, leaf(at))
                rng = vand(rng, apply("in", lambda r: self.gt0(rsub(r, at), True), nb))
                lv += 1
                if sz is not None:
                    res[("p", lv)] = ite(rng, inside(self.read(cur, g)), leaf(out_))
                    break
        return res

    def offsets(self, vb, depth=0):
        """constant offsets of a buffer that were written, also by copying another buffer"""
        out = set()
        for w in self.log:
            if isinstance(w, Write):
                wb, wo = base_split(w.addr)
                if wb != vb or not wo.is_const():
                    continue
                if w.kind == "copy":
                    if depth < 6 and w.val is not None and w.val.atom is None:
                        sb, so = base_split(w.val.r)
                        if (sb is None or ATOMS[sb].kind not in ("vbuf", "alloca", "new")):
                            out |= {wo.const(), wo.const() + 8}
                        elif sb is not None and so.is_const():
                            out |= {k - so.const() + wo.const() for k in self.offsets(sb, depth + 1) if k >= so.const()}
                elif w.kind in ("st", "acc"):
                    out.add(wo.const())
        return out

    def vname(self, tgt):
        """indirect call: name it by the vtable slot"""
        s = show(tgt.r) if tgt.atom is None else "multi"
        if tgt.atom is None:
            b, off = base_split(tgt.r)
            if b is not None and ATOMS[b].kind == "load":
                a = ATOMS[b].args[0]
                b2, off2 = base_split(a)
                if b2 is not None and ATOMS[b2].kind == "load" and off2.is_const():
                    return "vcall@%d" % int(off2.const())
                if b2 is not None and ATOMS[b2].kind == "glob" and ATOMS[b2].args[0].startswith("_ZTV") and off2.is_const() and off.is_const() and off.const() == 0:
                    f = self.prog.m.vtable_slot(ATOMS[b2].args[0], int(off2.const()) // 8)
                    if f:
                        return f
            if b is not None and ATOMS[b].kind == "glob":
                return ATOMS[b].args[0]
        return "icall"

    def purecall(self, short, dem, args, I):
        isd = I.ty in ("double", "float")
        if short in ("sqrt", "sqrtf"):
            return apply("sqrt", rsqrt, args[0])
        if short in ("pow", "powf", "powi"):
            return apply("pow", rpowf, args[0], args[1])
        if short in ("fabs", "fabsf", "abs"):
            def fabs(r):
                return rabs(r, is_int(r))
            return apply("abs", fabs, args[0])
        if short in ("floor", "ceil", "round", "trunc", "floorf", "ceilf", "rint", "nearbyint"):
            k = short.rstrip("f") if short.endswith("ff") or short in ("ceilf",) else short

            def fl(r):
                if is_int(r):
                    return r
                return mk(k, (r,), True)
            return apply("fl", fl, args[0])
        if short in ("fmuladd", "fma"):
            return vadd(vmul(args[0], args[1]), args[2])
        if short in ("maxnum", "fmax", "smax", "umax"):
            return apply("mx", lambda a, b: ite(cmp_gt0(rsub(b, a), short[0] in "su"), leaf(b), leaf(a)), args[0], args[1])
        if short in ("minnum", "fmin", "smin", "umin"):
            return apply("mn", lambda a, b: ite(cmp_gt0(rsub(a, b), short[0] in "su"), leaf(b), leaf(a)), args[0], args[1])
        if short == "is":
            def fc(r, m):
                b = boolatom(mkid("fpclass", (r, m)))
                return vand(vnot(cmp_eq0(r)), b) if isinstance(m, R) and m.is_const() and m.const() == 264 else b       # isnormal(x) implies x != 0
            return apply("fpc", fc, args[0], args[1])
        if short in ("expect",):
            return args[0]
        if short in PURE or short in self.pure:
            def f(*rs):
                if short == "fmod" and is_int(rs[0]) and is_int(rs[1]):
                    return irem(rs[0], rs[1])
                return mk(short, tuple(rs))
            return apply(short, f, *args)
        return None

    # ------------------------------------------------------------ loops
    def exec_loop(self, L, order, g):
        H = self.F.blocks[L.header]
        phis = [I for I in H.insts if I.op == "phi"]
        inits = {}
        for I in phis:
            v = None
            for o, p in I.ops:
                if p in L.blocks:
                    continue
                e = self.edge.get((p, L.header))
                if e is None or isF(e):
                    continue
                x = self.edge_val(o, p, L.header)
                v = x if v is None else ite(e, x, v)
            inits[I.id] = v if v is not None else leaf(mk("undef", ()))
        snapshot = (len(self.log), len(self.calls), dict(self.ord), list(self.facts), dict(self.guard), dict(self.edge), self.ret, dict(self.exmap), len(self.aborts))

        def restore():
            del self.log[snapshot[0]:]
            del self.calls[snapshot[1]:]
            self.ord = dict(snapshot[2])
            self.facts = list(snapshot[3])
            self.guard = dict(snapshot[4])
            self.edge = dict(snapshot[5])
            self.ret = snapshot[6]
            self.exmap = dict(snapshot[7])
            del self.aborts[snapshot[8]:]

        nested = any(self.inner[b] is not L for b in L.blocks)
        if nested and self.unrolled(L, H, phis, inits, order, g):
            return
        if nested:
            restore()
        C = LoopCtx()
        C.uid = uid()
        C.k = mkid("k", (C.uid,), True)
        nid = mkid("n", (C.uid,), True)
        C.n = leaf(mk("n", (C.uid,), True))
        C.loop = L
        C.grew = False
        kid = C.k
        kr = R({((C.k, 1),): Fraction(1)})
        place = {}
        for I in phis:
            place[I.id] = mk("phi", (C.uid, I.id), I.ty.startswith("i"))
        phids = {next(iter(place[i].t))[0][0] for i in place}
        self.ctx.append(C)
        # pass 1: which header phis are affine
        affine, ivals = {}, {}
        if phis:
            for I in phis:
                self.val[I.id] = leaf(place[I.id])
            self.log.append(Marker(C))
            self.exec_region(order, L, L.header, g)
            latch = self.latch_vals(L, phis)
            for I in phis:
                d = vsub(latch[I.id], leaf(place[I.id]))
                if d.atom is None and d.r.t and not (deep_atoms(d.r) & (phids | {C.k})):
                    affine[I.id] = d.r
            for I in phis:
                if I.id in affine:
                    ivals[I.id] = vadd(inits[I.id], leaf(rmul(affine[I.id], kr)))
        # pass 2: trip count with affine phis substituted
        restore()
        for I in phis:
            self.val[I.id] = ivals.get(I.id, leaf(place[I.id]))
        self.log.append(Marker(C))
        body0 = len(self.log)
        self.exec_region(order, L, L.header, g)
        ex = self.exit_edges(L)
        hedges = {e: c for e, c in ex.items() if e[0] == L.header}
        n = self.trip(L, C, g, phids, hedges)
        if n is not None:
            C.n = n
        if n is not None and n.atom is None and n.r.is_const() and 0 <= n.r.const() <= UNROLL and all(e[0] == L.header for e in ex) and all(self.inner[b] is L for b in L.blocks):
            # a few iterations, and their number is known: one after another
            restore()
            self.ctx.pop()
            cur = inits
            for it in range(int(n.r.const()) + 1):
                for I in phis:
                    self.val[I.id] = cur[I.id]
                for b in L.blocks:
                    for d in self.F.blocks[b].succs:
                        self.edge.pop((b, d), None)
                self.exec_region(order, L, L.header, g)
                if it < int(n.r.const()):
                    cur = self.latch_vals(L, phis)
            self.loopinfo[C.uid] = dict(n=n, N=n, header=L.header, guard=g, line=self.F.blocks[L.header].insts[-1].line)
            return
        C.prev = self.iter_writes(body0)
        rfacts = [leaf(kr)]
        if n is not None:
            rfacts.append(vsub(vsub(n, leaf(kr)), leaf(ONE)))
        # pass 3: with previous-iteration knowledge and range facts (repeat while new cells appear)
        for _ in range(6):
            C.grew = False
            restore()
            self.facts += rfacts
            for I in phis:
                self.val[I.id] = ivals.get(I.id, leaf(place[I.id]))
            self.log.append(Marker(C))
            self.exec_region(order, L, L.header, g)
            latch = self.latch_vals(L, phis)
            C.prev = self.iter_writes(body0)
            if not C.grew:
                break
        iw = self.iter_writes(body0)
        icalls = self.calls[snapshot[1]:]
        iaborts = self.aborts[snapshot[8]:]
        ex3 = self.exit_edges(L)
        if n is not None:
            breaks = {e: c for e, c in ex3.items() if e[0] != L.header}
            heads = hedges
        else:
            breaks, heads = ex3, {}
        self.ctx.pop()
        recs = {}
        for I in phis:
            if I.id not in affine:
                recs[next(iter(place[I.id].t))[0][0]] = (inits[I.id], latch[I.id])
        del self.log[snapshot[0]:]
        self.facts = list(snapshot[3])
        cellw = {}
        for key, ph in C.cells.items():
            pid = next(iter(ph.t))[0][0]
            addr = C.celladdr[key]
            pre = self.read1(addr, g)
            fin = None
            for w in iw:
                if w.kind in ("st", "acc") and w.addr.key() == key:
                    fin = w
            if fin is None:
                recs[pid] = (pre, leaf(ph))
            elif fin.kind == "acc":
                recs[pid] = (pre, ite(fin.guard, vadd(fin.val, leaf(ph)), leaf(ph)))
            else:
                recs[pid] = (pre, ite(fin.guard, fin.val, leaf(ph)))
            cellw[pid] = (addr, fin)
        sub_in, sub_out = self.close_recs(recs, C, n)
        # number of iterations begun / stop condition
        stop = FALSE()
        for c in breaks.values():
            stop = vor(stop, restrict(c, g))
        stop = subst_v(stop, sub_in)
        if isF(stop) and n is not None:
            N = n
            broke = FALSE()
            klast = None
        else:
            body = close_k(stop, kid)
            nn = n if n is not None else leaf(mk("inf", ()))
            it = mkid("iters", (nn, body), True)
            itr = R({((it, 1),): Fraction(1)})
            N = leaf(itr)
            broke = TRUE() if n is None else boolatom(mkid("exists", (nn, body)))
            klast = rsub(itr, ONE)

        def fin_val(x):
            if sub_in:
                x = subst_v(x, sub_in)
            return subst_v(x, {nid: N}) if n is None else x
        self.kn[kid] = n if n is not None else N
        newlog = []
        for w in iw:
            if w.kind in ("st", "acc") and w.addr.key() in C.cells:
                continue
            val = fin_val(w.val) if w.val is not None else None
            gd = fin_val(restrict_keep(w.guard))
            for pg, ad in leaves(fin_val(leaf(w.addr))):
                newlog.append(Write(ad, vand(gd, pg), val, tuple((q, fin_val(m)) for q, m in w.quants) + ((kid, N),), w.kind, w.line, w.file, w.x))
        for c in icalls:
            c.args = [fin_val(a) for a in c.args]
            c.guard = fin_val(c.guard)
            c.quants = tuple((q, N if q == kid else fin_val(m)) for q, m in c.quants)
        for i in range(len(iaborts)):
            gd, line, file, q = iaborts[i]
            self.aborts[snapshot[8] + i] = (fin_val(gd), line, file, q + ((kid, N),))
        self.log += newlog
        for pid, (addr, w) in cellw.items():
            if w is not None:
                if n is not None and isF(stop):
                    fv = sub_out[pid]
                else:
                    fv = apply("atN", lambda r: subst(sub_in[pid], {kid: r}), N)
                self.log.append(Write(addr, g, fv, (), "st", w.line, w.file))
        # exit edges: guards and value maps
        for e, c in heads.items():
            self.edge[e] = vand(g, vnot(broke))
            self.exmap[e] = self.exmap.get(e, []) + [({kid: n}, sub_out)]
        for e, c in breaks.items():
            km = {kid: leaf(klast)}
            c2 = subst_v(subst_v(restrict(c, g), sub_in), km)
            if len(breaks) == 1:
                self.edge[e] = vand(g, broke)
            else:
                self.edge[e] = vand(vand(g, broke), c2)
            self.exmap[e] = self.exmap.get(e, []) + [(km, sub_in)]
        # every loop-internal edge is finished
        for b in L.blocks:
            for I in self.F.blocks[b].insts:
                pass
        self.loopinfo[C.uid] = dict(n=n, N=N, header=L.header, guard=g, line=self.F.blocks[L.header].insts[-1].line)

    def unrolled(self, L, H, phis, inits, order, g):
        """a loop around other loops whose header decides every time, from the initial values, whether it goes on: iterations one after another"""
        exits = [(b, s) for b in L.blocks for s in self.F.blocks[b].succs if s not in L.blocks and not self.dead_exit(s)]
        if not exits or any(b != L.header for b, s in exits):
            return False
        cur = inits
        for it in range(UNROLL + 1):
            for I in phis:
                self.val[I.id] = cur[I.id]
            for b in L.blocks:
                for d in self.F.blocks[b].succs:
                    self.edge.pop((b, d), None)
            mark = (len(self.log), len(self.calls), dict(self.ord), list(self.facts), len(self.aborts))
            self.guard[L.header] = g
            self.exec_block(L.header, L)
            out = [e for e in exits if not isF(self.edge.get(e, FALSE()))]
            on = [s for s in H.succs if s in L.blocks and not isF(self.edge.get((L.header, s), FALSE()))]
            if out and on:
                return False
            del self.log[mark[0]:]
            del self.calls[mark[1]:]
            self.ord, self.facts = mark[2], mark[3]
            del self.aborts[mark[4]:]
            if not on and it == 0:
                return False
            for d in H.succs:
                self.edge.pop((L.header, d), None)
            if it == UNROLL and on:
                return False
            self.exec_region(order, L, L.header, g)
            if not on:
                self.loopinfo[uid()] = dict(n=leaf(rc(it)), N=leaf(rc(it)), header=L.header, guard=g, line=H.insts[-1].line)
                return True
            cur = self.latch_vals(L, phis)
        return False

    def edge_val(self, o, p, b):
        """value of operand o on edge p->b (p may lie in loops that this edge leaves)"""
        x = self.v(o)
        for km, sub in self.exmap.get((p, b), ()):
            if sub:
                x = subst_v(x, sub)
            x = subst_v(x, km)
        return x

    def exit_edges(self, L):
        out = {}
        for b in L.blocks:
            for s in self.F.blocks[b].succs:
                if s not in L.blocks and (b, s) in self.edge and not isF(self.edge[(b, s)]):
                    if self.dead_exit(s):
                        continue
                    out[(b, s)] = self.edge[(b, s)]
        return out

    def dead_exit(self, s, depth=0):
        """does block s inevitably reach unreachable (abort)?"""
        if s in self._dead:
            return self._dead[s]
        seen = set()
        st = [s]
        r = True
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            B = self.F.blocks[b]
            t = B.insts[-1]
            if t.op == "ret":
                r = False
                break
            if t.op in ("unreachable", "resume"):
                continue
            st += B.succs
        self._dead[s] = r
        return r

    def latch_vals(self, L, phis):
        out = {}
        for I in phis:
            v = None
            for o, p in I.ops:
                if p not in L.blocks:
                    continue
                e = self.edge.get((p, L.header))
                if e is None or isF(e):
                    continue
                x = self.edge_val(o, p, L.header)
                v = x if v is None else ite(e, x, v)
            out[I.id] = v if v is not None else leaf(mk("undef", ()))
        return out

    def iter_writes(self, start):
        """per-iteration effective writes: one per location"""
        res = []
        idx = {}
        for w in self.log[start:]:
            if isinstance(w, Marker):
                continue
            if w.kind in ("st", "acc") and not w.quants:
                k = w.addr.key()
                if k in idx:
                    o = res[idx[k]]
                    if w.kind == "acc":
                        d = ite(w.guard, w.val, leaf(ZERO))
                        if o.kind == "acc":
                            od = ite(o.guard, o.val, leaf(ZERO))
                            nw = Write(w.addr, vor(o.guard, w.guard), vadd(od, d), (), "acc", w.line, w.file)
                        elif isF(vand(w.guard, vnot(o.guard))):
                            nw = Write(w.addr, o.guard, vadd(o.val, d), (), "st", w.line, w.file)
                        else:
                            nw = None
                    elif o.kind == "st":
                        nw = Write(w.addr, vor(o.guard, w.guard), ite(w.guard, w.val, o.val), (), "st", w.line, w.file)
                    elif isF(vand(o.guard, vnot(w.guard))):
                        nw = w
                    else:
                        nw = None
                    if nw is not None:
                        res[idx[k]] = None
                        w = nw
                idx[k] = len(res)
            res.append(w)
        return [w for w in res if w is not None]

    def trip(self, L, C, g, phids, hedges):
        if not hedges:
            return None
        cont = FALSE()
        for s in self.F.blocks[L.header].succs:
            if s in L.blocks:
                cont = vor(cont, self.edge.get((L.header, s), FALSE()))
        c = restrict(cont, g)
        n = count_of(c, C.k)
        if n is None or (deep_atoms(n) & (phids | {C.k})):
            return None
        return n

    def close_recs(self, recs, C, n):
        """closed forms of recurrences.  returns (placeholder -> V inside the loop, placeholder -> V after the loop)"""
        sub_in, sub_out = {}, {}
        pids = set(recs)
        kr = R({((C.k, 1),): Fraction(1)})
        todo = dict(recs)
        # resolve recurrences in dependency order where possible
        progress = True
        while todo and progress:
            progress = False
            for pid in list(todo):
                init, step = todo[pid]
                if sub_in:
                    step = subst_v(step, sub_in)
                me = R({((pid, 1),): Fraction(1)})
                d = vsub(step, leaf(me))
                if not (deep_atoms(d) & set(todo)):
                    if n is not None:
                        sub_out[pid] = vadd(init, apply("s", lambda r: sumv(d, C.k, r), n))
                    sub_in[pid] = vadd(init, sumv(d, C.k, kr))
                    del todo[pid]
                    progress = True
                elif not (deep_atoms(step) & set(todo)):
                    if n is not None:
                        sub_out[pid] = apply("last", lambda r: ite(cmp_gt0(r, True), subst(step, {C.k: rsub(r, ONE)}), init), n)
                    prev = subst(step, {C.k: rsub(kr, ONE)})
                    sub_in[pid] = ite(cmp_gt0(kr, True), prev, init)
                    del todo[pid]
                    progress = True
        # the rest: systems of recurrences without a closed form, innermost dependencies first
        while todo:
            steps = {p: subst_v(st, dict(sub_in)) if sub_in else st for p, (i, st) in todo.items()}
            deps = {p: (deep_atoms(steps[p]) & set(todo)) - {p} for p in todo}
            clo = {p: reach_set(p, deps) for p in todo}
            comp = min(({q for q in clo[p] | {p} if p in clo[q] or q == p} for p in todo if all(p in clo[q] for q in clo[p] - {p})), key=lambda c: (len(c), min(c)))
            new_in = {}
            for pid in comp:
                rest = sorted(comp - {pid}, key=lambda p: str(fp(todo[p][0].r)) if todo[p][0].atom is None else "~")
                names = [pid] + rest
                mp = {p: mk("bp", (i,)) for i, p in enumerate(names)}
                key = tuple(x for p in names for x in (todo[p][0], close_k(subst_v(steps[p], {a: leaf(b) for a, b in mp.items()}), C.k)))
                new_in[pid] = leaf(mk("mu_at", (len(names),) + key + (kr,)))
                if n is not None:
                    sub_out[pid] = apply("mu", lambda r: mk("mu_at", (len(names),) + key + (r,)), n)
            sub_in.update(new_in)
            for pid in comp:
                del todo[pid]
        return sub_in, sub_out


def reach_set(p, deps):
    out, st = set(), list(deps[p])
    while st:
        q = st.pop()
        if q not in out:
            out.add(q)
            st += deps[q]
    return out


def restrict_keep(g):
    return g


def close_ks(v, ks):
    for k in ks:
        v = close_k(v, k)
    return v


def close_k(v, k, pid=None):
    """bind loop counter k (and optionally a recurrence placeholder) in v"""
    lvl = -1
    for a in deep_atoms(v):
        if ATOMS[a].kind in ("bv", "bp"):
            lvl = max(lvl, ATOMS[a].args[0])
    m = {k: mk("bv", (lvl + 1,), True)}
    if pid is not None:
        m[pid] = mk("bp", (lvl + 1,))
    return subst(v, m)


def off_of(addr, base):
    return rsub(addr, base)


def depends(r, k):
    return k in deep_atoms(r)


def subst_v(x, mp):
    """substitute placeholders by ADD values (mp atom -> V)"""
    leafmap = {a: v.r for a, v in mp.items() if v.atom is None}
    multi = {a: v for a, v in mp.items() if v.atom is not None}
    if leafmap:
        x = subst(x, leafmap)
        if isinstance(x, R):
            x = leaf(x)
    if isinstance(x, R):
        x = leaf(x)
    for a, v in multi.items():
        if a not in deep_atoms(x):
            continue
        y = x
        x = apply("substv", lambda r: subst(y, {a: r}), v)
    return x


def restrict(c, g):
    """simplify c under assumption g"""
    if isT(g):
        return c
    memo = {}

    def go(c, g):
        if c.atom is None or isT(g):
            return c
        if isF(g):
            return c
        k = (c.id, g.id)
        if k in memo:
            return memo[k]
        a = alg._top(c, g)
        g1, g0 = alg._cof(g, a, 1), alg._cof(g, a, 0)
        c1, c0 = alg._cof(c, a, 1), alg._cof(c, a, 0)
        if isF(g1):
            r = go(c0, g0)
        elif isF(g0):
            r = go(c1, g1)
        else:
            x, y = go(c1, g1), go(c0, g0)
            r = node(a, x, y)
        memo[k] = r
        return r
    return go(c, g)


def linear_in(e, k):
    """e = c*k + rest with constant c and rest free of k -> (c, rest)"""
    c = e.t.get(((k, 1),))
    if c is None:
        return None
    rest = R({m: x for m, x in e.t.items() if m != ((k, 1),)})
    if k in deep_atoms(rest):
        return None
    return c, rest


def count_of(c, k):
    """trip count (V) from the continue-condition c(k): first k>=0 where c fails, for monotone affine conditions"""
    if c.atom is None:
        return None
    at = ATOMS[c.atom]
    kk = k in deep_atoms(R({((c.atom, 1),): Fraction(1)}))
    if not kk:
        hi = count_of(c.hi, k) if not isF(c.hi) else leaf(ZERO)
        lo = count_of(c.lo, k) if not isF(c.lo) else leaf(ZERO)
        if hi is None or lo is None:
            return None
        return ite(boolatom(c.atom), hi, lo)
    pos = isT(c.hi) and isF(c.lo)
    neg = isF(c.hi) and isT(c.lo)
    if not (pos or neg):
        return None
    P = at.args[0] if at.args and isinstance(at.args[0], R) else None
    if P is None:
        return None
    lin = linear_in(P, k)
    if lin is None:
        return None
    s, rest = lin
    if at.kind in ("gt0i", "gt0"):
        if pos:
            # rest + s*k > 0 ; need s<0 : k < rest/(-s)
            if s >= 0:
                return None
            return leaf(ceildiv(rest, -s))
        # not (rest + s*k > 0)  <=> rest + s*k <= 0 ; need s>0: k <= -rest/s  -> count = floor(-rest/s)+1
        if s <= 0:
            return None
        if s == 1:
            return leaf(radd(rneg(rest), ONE))
        return leaf(radd(mk("floor", (rscale(rest, -1 / s),), True), ONE))
    if at.kind == "eq0":
        if neg:
            x = rscale(rest, -1 / s)
            return leaf(x)
        return None
    return None


def ceildiv(rest, s):
    if s == 1:
        return rest
    x = rscale(rest, 1 / s)
    if is_int(x):
        return x
    return mk("ceil", (x,), True)


def mark_int(r):
    """loads of integers: make sure the atoms are flagged integral"""
    for m in r.t:
        for a, e in m:
            at = ATOMS[a]
            if at.kind in ("load", "ret", "arg", "out", "carried", "opq", "cell", "ext", "phi", "kexit", "undef") and not at.isint:
                at.isint = True
    return r


def idiv(a, b):
    if b.is_const() and b.t:
        c = b.const()
        q = rscale(a, 1 / c)
        if is_int(q) or all(k.denominator == 1 for k in q.t.values()):
            return q
        if a.is_const():
            x = a.const() / c
            return rc(int(x))
    return mk("idiv", (a, b), True)


def irem(a, b):
    if a.is_const() and b.is_const() and b.t:
        x, y = int(a.const()), int(b.const())
        return rc(abs(x) % abs(y) * (1 if x >= 0 else -1))
    return mk("rem", (a, b), True)


def bitop(op, x, y):
    if x.is_const() and y.is_const() and x.const().denominator == 1 and y.const().denominator == 1:
        a, b = int(x.const()), int(y.const())
        return rc(a & b if op == "and" else a | b if op == "or" else a ^ b)
    if op == "or" and not x.t:
        return y
    if op == "or" and not y.t:
        return x
    if op == "and" and (not x.t or not y.t):
        return ZERO
    if x.key() == y.key():
        return ZERO if op == "xor" else x
    if str(y.key()) < str(x.key()):
        x, y = y, x
    return mk(op, (x, y), True)


def rpowf(a, n):
    if n.is_const():
        c = n.const()
        if c.denominator == 1 and abs(c) <= 12:
            return rpow(a, int(c))
        if c.denominator == 2 and abs(c) <= 12:
            return rpow(rsqrt(a), int(c * 2))
        if a.is_const() and a.const() > 0:
            return rc(Fraction(float(a.const()) ** float(c)))
    return mk("pow", (a, n))


def sumv(e, k, n, partial=False):
    """sum_{k=0}^{n-1} e(k) as V"""
    def s1(r):
        out = ZERO
        for m, c in r.t.items():
            keep = []
            dep = []
            for a, x in m:
                if k in deep_atoms(R({((a, 1),): Fraction(1)})):
                    dep.append((a, x))
                else:
                    keep.append((a, x))
            if not dep:
                out = radd(out, rmul(R({tuple(keep): c}), n))
            else:
                body = close_k(leaf(R({tuple(dep): Fraction(1)})), k)
                out = radd(out, rmul(R({tuple(keep): c}), mk("sum", (n, body))))
        return out
    if e.atom is None:
        return leaf(s1(e.r))
    if k not in deep_atoms_bool(e):
        return apply("sum", s1, e)
    return leaf(mk("sum", (n, close_k(e, k))))


def deep_atoms_bool(v):
    acc = set()
    for a in support(v):
        deep_atoms(R({((a, 1),): Fraction(1)}), acc)
    return acc
