"""Control-flow automata over LLVM IR: every path through a function drives an automaton; illegal transitions are reported with a path."""


class Values:
    """canonical expressions of SSA values of one function (memory read through a pointer is named by the pointer)"""

    def __init__(self, F, m):
        self.F, self.m = F, m
        self.memo = {}

    def __call__(self, o, depth=0):
        k = o[0]
        if k == "i":
            return self.inst(o[1], depth)
        if k == "gepc":
            b, off, t = o[1]
            return self.add(self(b, depth + 1), off, ())
        return tuple(x if not isinstance(x, list) else tuple(x) for x in o)

    def add(self, base, off, terms):
        if base[0] == "gep" and not terms and not base[3]:
            base, off = base[1], off + base[2]
        if off == 0 and not terms:
            return base
        return ("gep", base, off, tuple(terms))

    def inst(self, i, depth):
        if i in self.memo:
            return self.memo[i]
        I = self.F.insts[i]
        r = ("i", i)
        if depth < 40:
            if I.op == "gep":
                b, off, t = I.x
                r = self.add(self(b, depth + 1), off, tuple((self(x, depth + 1), s) for x, s in t))
            elif I.op == "load":
                r = ("load", self(I.ops[0], depth + 1))
            elif I.op in ("fadd", "fsub", "fmul", "fdiv", "add", "sub", "mul", "fneg"):
                r = (I.op,) + tuple(self(x, depth + 1) for x in I.ops)
            elif I.op in ("bitcast", "freeze", "zext", "sext", "trunc"):
                r = self(I.ops[0], depth + 1)
            elif I.op == "alloca":
                r = ("alloca", i, I.x[2])
            elif I.op in ("fcmp", "icmp"):
                r = (I.op, I.x, self(I.ops[0], depth + 1), self(I.ops[1], depth + 1))
            elif I.op == "xor" and len(I.ops) == 2 and ("c", 1) in [tuple(x) for x in I.ops]:
                a = [x for x in I.ops if tuple(x) != ("c", 1)]
                r = ("not", self(a[0], depth + 1)) if a else r
            elif I.op == "phi":
                vs = {self(x, depth + 1) for x, _ in I.ops} if depth < 12 else set()
                if len(vs) == 1:
                    r = vs.pop()
        self.memo[i] = r
        return r


def callee(I):
    x = I.x[0] if I.op == "invoke" else I.x
    return x[1] if x and x[0] == "fn" else None


def run(F, start, step, edge=None, unwind=False):
    """forward dataflow of automaton states; step(state, I) -> state or ('!', message); edge(state, block, succ) -> state or None.
    Returns (violations [(message, line, file, path)], number of (block, state) pairs)"""
    entry = {(0, start): None}
    work = [(0, start)]
    bad = {}
    n = 0
    while work:
        key = work.pop()
        b, s = key
        n += 1
        B = F.blocks[b]
        dead = False
        for I in B.insts:
            t = step(s, I)
            if isinstance(t, tuple) and t and t[0] == "!":
                k = (t[1], I.line)
                if k not in bad:
                    path = []
                    q = key
                    while q is not None and len(path) < 200:
                        path.append(q[0])
                        q = entry[q]
                    bad[k] = (t[1], I.line, I.file, path[::-1])
                dead = True
                break
            s = t
        if dead:
            continue
        last = B.insts[-1]
        succs = list(B.succs)
        if unwind and last.op == "invoke":
            succs.append(last.x[2])
        for d in succs:
            t = edge(s, B, d) if edge else s
            if t is None:
                continue
            k = (d, t)
            if k not in entry:
                entry[k] = key
                work.append(k)
    return list(bad.values()), n
