"""Interprocedural side effects: which objects a function can write, by the root of the written address.

Roots: ("p", k, d) the object parameter k points to (d = 0) or memory reachable from it (d = 1); ("g", name) a global variable (or memory reachable from it);
("shared", T) memory reachable through an object of a class all threads share.  Thread-local and function-local objects are dropped.
Flow-insensitive for locals, bottom-up with a fixpoint over the call graph."""
from . import flow, llvm

NOEFF = ("loguru::", "std::basic_ostream", "std::ostream", "std::ios", "operator new", "operator delete", "__cxa_", "std::terminate", "std::__throw",
         "std::basic_ios", "std::locale", "std::basic_streambuf", "__clang_call_terminate", "llvm.", "_Unwind", "std::exception")


class Effects:
    def __init__(self, m, shared):
        self.m = m
        self.shared = shared
        self.G = m.globals()
        self.F = {}
        self.W = {}        # function -> {root: (function, line, file)} first witness
        self.R = {}        # function -> set of roots of the returned pointer
        self.calls = {}    # function -> set of callees
        self.stores = 0
        self.callsites = 0
        self.vt = {}       # slot position of virtual functions is not needed: any virtual function may be called
        self.virtuals = set()
        for n, (g, tls, const) in self.G.items():
            if n.startswith("_ZTV"):
                self.virtuals |= set(m.functions_in_initialiser(g))

    def closure(self, starts):
        seen = set()
        st = list(starts)
        while st:
            n = st.pop()
            if n in seen or n not in self.m.fns:
                continue
            seen.add(n)
            if llvm.IsDecl(self.m.fns[n]):
                continue
            for c in self.m.calls_in(n):
                if c and c not in seen:
                    st.append(c)
        return seen

    def run(self, starts):
        names = [n for n in self.closure(starts) if not llvm.IsDecl(self.m.fns[n])]
        for n in names:
            self.F[n] = self.m.extract(n)
            self.W[n] = {}
            self.R[n] = set()
        changed = True
        rounds = 0
        while changed and rounds < 40:
            changed = False
            rounds += 1
            self.stores = self.callsites = 0
            for n in names:
                a, b = len(self.W[n]), len(self.R[n])
                self.one(n)
                if len(self.W[n]) != a or len(self.R[n]) != b:
                    changed = True
        return names

    def guarded(self, F):
        """ids of instructions that every path reaches inside a critical section or the once-only initialisation of a static"""
        inside = {0: frozenset()}
        work = [0]
        at = {}
        while work:
            b = work.pop()
            s = inside[b]
            for I in F.blocks[b].insts:
                at[I.id] = s
                if I.op in ("call", "invoke"):
                    c = flow.callee(I) or ""
                    if c == "__kmpc_critical":
                        s = s | {"crit"}
                    elif c == "__kmpc_end_critical":
                        s = s - {"crit"}
                    elif c == "__cxa_guard_acquire":
                        s = s | {"init"}
                    elif c == "__cxa_guard_release":
                        s = s - {"init"}
            last = F.blocks[b].insts[-1]
            succ = list(F.blocks[b].succs)
            if last.op == "invoke":
                succ.append(last.x[2])
            for d in succ:
                t = s
                if last.op == "br" and "init" in s and len(last.x) > 1 and any(I.op == "call" and flow.callee(I) == "__cxa_guard_acquire" for I in F.blocks[b].insts):
                    t = s if d == last.x[0] else s - {"init"}
                n = t if d not in inside else inside[d] & t
                if d not in inside or n != inside[d]:
                    inside[d] = n
                    work.append(d)
        return at

    def one(self, n):
        F = self.F[n]
        memo = {}
        stored = {}
        if not hasattr(F, "at"):
            F.at = self.guarded(F)
        for I in F.insts:
            if I.op == "store":
                r = self.base_alloca(F, I.ops[1])
                if r is not None:
                    stored.setdefault(r, []).append(I.ops[0])
            elif I.op in ("call", "invoke"):
                als = [self.base_alloca(F, o) for o in I.ops]
                for k, a in enumerate(als):
                    if a is not None:
                        stored.setdefault(a, []).extend(o for j, o in enumerate(I.ops) if j != k)

        def roots(o, stack=()):
            k = o[0]
            if k == "a":
                return {("p", o[1], 0)} if F.param_types[o[1]] == "ptr" else set()
            if k == "g":
                g = self.G.get(o[1])
                if g is None or g[1] or g[2] or o[1].startswith(("_ZTV", "_ZTI", "_ZGV", ".str")):
                    return set()
                return {("g", o[1])}
            if k == "gepc":
                return roots(o[1][0], stack)
            if k == "ce":
                return set().union(*[roots(x, stack) for x in o[2]]) if o[2] else set()
            if k != "i":
                return set()
            i = o[1]
            if i in memo:
                return memo[i]
            if i in stack:
                return set()
            I = F.insts[i]
            st = stack + (i,)
            if I.op == "gep":
                r = roots(I.x[0], st)
                t = self.tname(I.src)
                if t in self.shared and r and not all(x[0] == "l" for x in r):
                    r = r | {("shared", t)}
            elif I.op == "load":
                a = self.base_alloca(F, I.ops[0])
                if a is not None:
                    r = set()
                    for v in stored.get(a, []):
                        r |= roots(v, st)
                else:
                    r = {("p", x[1], 1) if x[0] == "p" else x for x in roots(I.ops[0], st)}
            elif I.op == "alloca":
                r = {("l", i)}
            elif I.op == "phi":
                r = set()
                for v, _ in I.ops:
                    r |= roots(v, st)
            elif I.op == "select":
                r = roots(I.ops[1], st) | roots(I.ops[2], st)
            elif I.op in ("bitcast", "freeze", "inttoptr", "ptrtoint", "add", "sub", "extractvalue", "insertvalue", "addrspacecast"):
                r = set()
                for v in I.ops:
                    r |= roots(v, st)
            elif I.op in ("call", "invoke"):
                r = set()
                c = flow.callee(I)
                if c and c.startswith("llvm.threadlocal.address"):
                    r = set()
                elif c and c.startswith("_ZTW"):
                    r = set()
                elif c in self.R:
                    for x in self.R[c]:
                        r |= through(x, I, st)
                elif c and ("operator new" in self.m.demangled.get(c, c) or c in ("malloc", "calloc")):
                    r = {("l", i)}
                else:
                    for v in I.ops:
                        r |= roots(v, st)
            else:
                r = set()
            if not stack or len(stack) < 3:
                memo[i] = r
            return r

        def through(x, I, st=()):
            """root x of a callee, seen from call I"""
            if x[0] != "p":
                return {x}
            if x[1] >= len(I.ops):
                return set()
            o = I.ops[x[1]]
            r = roots(o, st)
            if x[2] == 0:
                return r
            out = {("p", y[1], 1) if y[0] == "p" else y for y in r if y[0] != "l"}
            for a in {y[1] for y in r if y[0] == "l"} | {self.base_alloca(F, o)}:
                for v in stored.get(a, []):
                    out |= roots(v, st)
            return out

        def wr(rs, I, wit=None):
            if F.at.get(I.id):
                return
            for r in rs:
                if r[0] != "l" and r not in self.W[n]:
                    self.W[n][r] = wit or (n, I.line, I.file)

        for I in F.insts:
            if I.op == "store":
                self.stores += 1
                wr(roots(I.ops[1]), I)
            elif I.op == "ret" and I.ops:
                self.R[n] |= {r for r in roots(I.ops[0]) if r[0] != "l"}
            elif I.op in ("call", "invoke"):
                c = flow.callee(I)
                self.callsites += 1
                d = self.m.demangled.get(c, c) if c else ""
                if c and c.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                    wr(roots(I.ops[0]), I)
                elif c in self.W:
                    for r, wit in list(self.W[c].items()):
                        wr(through(r, I), I, wit if r[0] != "p" else None)
                elif c and not d.endswith(" const") and I.ops and not any(x in d or c.startswith(x) for x in NOEFF) and "(" in d:
                    wr(roots(I.ops[0]), I)

    def base_alloca(self, F, o):
        for _ in range(60):
            if o[0] != "i":
                return None
            I = F.insts[o[1]]
            if I.op == "alloca":
                return I.id
            if I.op == "gep":
                o = I.x[0]
            elif I.op in ("bitcast", "freeze"):
                o = I.ops[0]
            else:
                return None
        return None

    def tname(self, s):
        s = s.split(".", 1)[1] if s.startswith(("class.", "struct.")) else s
        return s.split(".")[0]
