"""Whole-program view: inlining policy, root extraction, summaries."""
import functools
import re
from . import llvm, summ, alg
from .alg import leaf, mk, rc, const_of_double

STDLIKE = re.compile(r"(std::|__gnu_cxx::|__cxxabi|operator (new|delete)|loguru|picojson|HighFive|MPI|.* std::|.* __gnu_cxx::)")
STD_NO = re.compile(r"(push_back|emplace|insert|erase|resize|reserve|assign|clear|_M_realloc|_M_default|allocate|construct|destroy|_Destroy|~|swap|sort|"
                    r"copy|uninit|fill|remove|find|transform|hash|string|stream|map|_Rb_tree|mersenne|distribution|random|locale|basic_|"
                    r"vector::vector|vector::operator=|_Vector_impl|_Vector_base::_Vector_base|list::|_List|shuffle|function)")


class Prog:
    def __init__(self, module, opaque=(), keep_roots=(), pure=()):
        self.pure = [re.compile(p) for p in pure]
        self.m = module
        self.opaque = [re.compile(p) for p in opaque]
        self.gvals = {}
        self.sums = {}
        self.ignore = re.compile(r"(.*::~.*|loguru::.*|std::.*(ostream|ios).*|operator delete.*|.*StreamLogger.*|__cxa_.*|std::terminate.*|__clang_call_terminate|"
                                 r"std::allocator.*|.*basic_ostream.*|.*AbortLogger.*)")

    def is_opaque(self, dem):
        return any(o.fullmatch(dem) for o in self.opaque)

    def prepare(self, roots):
        """inline everything below the roots (except opaque functions) and normalise"""
        m = self.m
        inl, no = [], []
        roots = set(roots)
        for n in m.defined():
            d = m.demangled[n]
            if n.startswith("_GLOBAL__sub_I"):
                no.append(n)
                continue
            if n in roots and not any(o.fullmatch(d) for o in self.opaque):
                inl.append(n)      # a root used by another root is inlined there and analysed on its own
                continue
            if any(o.fullmatch(d) for o in self.opaque):
                no.append(n)
                continue
            if n.startswith("__cxx_global_var_init"):
                inl.append(n)
                continue
            core = d
            # template functions carry a return type in front
            if is_std(core):
                if STD_NO.search(strip_targs(core)) or m.fn_size(n) > 80:
                    no.append(n)
                else:
                    inl.append(n)
            else:
                inl.append(n)
        # recursion guard: functions that can reach themselves are kept out of line
        rec = self.recursive(set(inl))
        inl = [n for n in inl if n not in rec]
        no += list(rec)
        m.set_inline(inl, no)
        # only code reachable from the roots is analysed: the rest becomes declarations
        si = set(inl)
        reach = set(roots) | {n for n in m.defined() if n.startswith("_GLOBAL__sub_I")}
        st = list(reach)
        while st:
            for c in m.calls_in(st.pop()):
                if (c in si or c in roots) and c not in reach:
                    reach.add(c)
                    st.append(c)
        for n in m.defined():
            llvm.SetComdat(m.fns[n], None)
            if n in roots or n.startswith("_GLOBAL__sub_I"):
                llvm.SetLinkage(m.fns[n], 0)
            elif n in reach:
                llvm.SetLinkage(m.fns[n], 8)   # internal
            else:
                llvm.SetLinkage(m.fns[n], 1)   # available externally: body dropped
        m.run("elim-avail-extern,always-inline,globaldce")
        m.reindex()
        m.run("function(sroa,instsimplify,simplifycfg,sroa,loop-simplify,lcssa,loop(loop-unroll-full),sroa,instsimplify,simplifycfg,loop-simplify,lcssa)")
        m.reindex()
        self.init_globals()

    def recursive(self, names):
        g = {}
        for n in names:
            g[n] = [c for c in self.m.calls_in(n) if c in names]
        # Tarjan-free: iterative DFS colouring
        rec = set()
        for s in names:
            seen = set()
            st = list(g[s])
            while st:
                x = st.pop()
                if x == s:
                    rec.add(s)
                    break
                if x in seen:
                    continue
                seen.add(x)
                st += g[x]
        return rec

    def dem(self, name):
        return self.m.demangled.get(name, name)

    def call_policy(self, name, dem):
        if self.ignore.fullmatch(dem):
            return "ignore"
        if any(p.fullmatch(dem) for p in self.pure):
            return "pure"
        if dem == "verif_kept":
            return "pureatom"
        return None

    def global_value(self, g):
        if g in self.gvals:
            return self.gvals[g]
        c = self.m.global_const(g)
        if c:
            return leaf(rc(const_of_double(c[1]) if c[0] == "f" else c[1]))
        return None

    def init_globals(self):
        for n in list(self.m.fns):
            if n.startswith("_GLOBAL__sub_I") and not llvm.IsDecl(self.m.fns[n]):
                try:
                    F = self.m.extract(n)
                    s = summ.Summariser(self, F).run()
                except (summ.Unsupported, alg.Blowup, RecursionError):
                    continue
                for w in s.log:
                    if isinstance(w, summ.Write) and w.kind == "st" and not w.quants and alg.isT(w.guard):
                        b, off = summ.base_split(w.addr)
                        if b is not None and alg.ATOMS[b].kind == "glob" and not off.t and w.val.atom is None:
                            if self.const_like(alg.ATOMS[b].args[0], w.val):
                                self.gvals[alg.ATOMS[b].args[0]] = w.val

    def const_like(self, g, v):
        return v.r.is_const()

    def summary(self, name, pre=(), **kw):
        """summary of function `name`; `pre`: functions whose effects describe the state on entry (established invariants)"""
        F = self.m.extract(name)
        s = summ.Summariser(self, F, **kw)
        for p in pre:
            q = summ.Summariser(self, self.m.extract(p), **kw)
            q.log = list(s.log)
            q.run()
            s.log = [w for w in q.log]
            s.assume = alg.vand(s.assume, q.assume)
            s.facts += q.facts
        s.npre = len(s.log)
        s.run()
        return s


def is_std(d):
    # "ret ns::name<...>(...)" or "ns::name(...)"
    h = strip_targs(d)
    h = h.split("(")[0]
    h = h.split(" ")[-1] if not h.startswith("operator") else h
    return bool(re.match(r"(std|__gnu_cxx|loguru|picojson|HighFive|MPI|__cxxabiv1)::|operator\b|__", h))


@functools.lru_cache(None)
def strip_targs(d):
    out = []
    depth = 0
    i = 0
    while i < len(d):
        c = d[i]
        if d.startswith("operator<<", i) or d.startswith("operator<=", i) or d.startswith("operator>>", i) or d.startswith("operator->", i) or d.startswith("operator>=", i):
            if depth == 0:
                out.append(d[i:i + 10])
            i += 10
            continue
        if d.startswith("operator<", i) or d.startswith("operator>", i):
            if depth == 0:
                out.append(d[i:i + 9])
            i += 9
            continue
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)
