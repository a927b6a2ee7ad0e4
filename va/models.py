"""Abstract models of the standard containers: a vector of scalars is a growable array owned by the vector object."""
import re
from fractions import Fraction
from . import alg
from .alg import *

SCALAR = {"double": 8, "float": 4, "unsigned long": 8, "long": 8, "int": 4, "unsigned int": 4, "unsigned short": 2, "short": 2, "char": 1, "unsigned char": 1}
VEC = re.compile(r"std::vector<(?P<t>.*), std::allocator<(?P=t) ?> ?>::(?P<m>~?\w+|operator=)(?:<.*>)?\((?P<a>.*)\)(?: const)?(?: &)?$")


def elem(t):
    if t == "picojson::value":
        return 40                 # size in the stand-in header
    if t in SCALAR:
        return SCALAR[t]
    if t.endswith("*"):
        return 8
    return None


_NEST = re.compile(r"std::vector<(?P<t>.*), std::allocator<(?P=t) ?> ?>$")


def inner(t):
    """element type of a vector type, or None"""
    m = _NEST.match(t.strip())
    return m.group("t").strip() if m else None


def nested_ok(t):
    i = inner(t)
    return i is not None and (elem(i) is not None or nested_ok(i))


def deepcopy(S, dst, src, t, g, I, quants=()):
    """the vector object (element type t) at R dst becomes a copy of the one at V src, under quantified k < n"""
    from .summ import Write
    q = S.quants_of(quants)
    buf = mk("vbuf", (dst,))
    for pg, s in leaves(src):
        gg = vand(g, pg)
        if isF(gg):
            continue
        b = S.read1(s, gg)
        n = vsub(S.read1(radd(s, rc(8)), gg), b)
        S.log.append(Write(dst, gg, leaf(buf), q, "st", I.line, I.file))
        S.log.append(Write(radd(dst, rc(8)), gg, vadd(leaf(buf), n), q, "st", I.line, I.file))
        for pg2, b0 in leaves(b):
            g2 = vand(gg, pg2)
            if isF(g2):
                continue
            if elem(t) is not None:
                S.log.append(Write(buf, g2, leaf(b0), q, "copy", I.line, I.file, (None, 0)))
            else:
                for pg3, nr in leaves(n):
                    g3 = vand(g2, pg3)
                    if not isF(g3):
                        k = S.freshk()
                        off = rscale(k, Fraction(24))
                        deepcopy(S, radd(buf, off), leaf(radd(b0, off)), inner(t), g3, I, quants + ((k, rscale(nr, Fraction(1, 24))),))


def nested_call(S, t, meth, a, args, g, I):
    from .summ import Write
    if meth.startswith("~"):
        return True
    A = args[0]
    if A.atom is not None:
        return False
    this = A.r
    if meth in ("vector", "operator=") and re.match(r"std::vector<.*> ?(const)?&{1,2}(, std::allocator<.*> const&)?$", a):
        deepcopy(S, this, args[1], t, g, I)
        if meth == "operator=" and I.ty != "void":
            S.seti(I, A)
        return True
    if meth == "vector" and a.startswith("unsigned long, std::vector<"):
        n, init = args[1], args[2]
        buf = mk("vbuf", (this,))
        S.log.append(Write(this, g, leaf(buf), (), "st", I.line, I.file))
        S.log.append(Write(radd(this, rc(8)), g, vadd(leaf(buf), vmul(n, leaf(rc(24)))), (), "st", I.line, I.file))
        for pg, nr in leaves(n):
            gg = vand(g, pg)
            if not isF(gg):
                k = S.freshk()
                deepcopy(S, radd(buf, rscale(k, Fraction(24))), init, inner(t), gg, I, ((k, nr),))
        return True
    return False


def vbuf(S, this, g):
    """buffer atom owned by the vector object at address `this`"""
    return mk("vbuf", (this,))


def vec_call(S, dem, args, g, I):
    """returns True when the call was modelled"""
    from .summ import Write
    h = dem
    # drop a leading return type
    i = h.find("std::vector<")
    if i < 0 or (i > 0 and not re.match(r"[\w:&\*<> ,]+ $", h[:i])):
        return False
    m = VEC.match(h[i:])
    if not m:
        return False
    t, meth, a = m.group("t"), m.group("m"), m.group("a")
    sz = elem(t)
    isb = t == "bool"
    if sz is None and nested_ok(t):
        return nested_call(S, t, meth, a, args, g, I)
    if sz is None and not isb:
        return False
    if isb and meth not in ("vector", "operator=", "~vector"):
        return False
    if meth.startswith("~"):
        return True
    A = args[0]
    if A.atom is not None:
        return False
    this = A.r
    st = lambda off, val, guard=g: S.log.append(Write(radd(this, rc(off)), guard, val, (), "st", I.line, I.file))
    buf = vbuf(S, this, g)
    L = lambda r: leaf(r)
    FIN = 16 if isb else 8

    def setup(nbytes):
        st(0, L(buf))
        st(FIN, vadd(L(buf), nbytes))

    def copyfrom(src):
        for pg, s in leaves(src):
            gg = vand(g, pg)
            if isF(gg):
                continue
            s0 = S.read1(s, gg)
            s1 = S.read1(radd(s, rc(FIN)), gg)
            for pg2, b0 in leaves(s0):
                S.log.append(Write(buf, vand(gg, pg2), L(b0), (), "copy", I.line, I.file, (None, 0)))
            st(0, L(buf), gg)
            st(FIN, vadd(L(buf), vsub(s1, s0)), gg)
            if isb:
                st(8, L(ZERO), gg)
                st(24, S.read1(radd(s, rc(24)), gg), gg)

    if meth in ("vector", "operator="):
        if re.match(r"std::vector<.*> ?(const)?&{1,2}(, std::allocator<.*> const&)?$", a) or re.match(r"std::vector<.*> ?&&$", a):
            copyfrom(args[1])
            if meth == "operator=" and I.ty != "void":
                S.seti(I, A)
            return True
        if isb and "initializer_list" not in a:
            return False
        if a in ("", "std::allocator<%s> const&" % t):
            setup(L(ZERO))
            return True
        if a.startswith("std::initializer_list"):
            n = args[2]
            if n.atom is not None or not n.r.is_const() or args[1].atom is not None:
                return False
            cnt = int(n.r.const())
            src = args[1].r
            if isb:
                # packed bits
                word = leaf(ZERO)
                for j in range(cnt):
                    word = vadd(word, vmul(L(rc(2 ** j)), ite(S.tobool(S.read1(radd(src, rc(j)), g)), L(ONE), L(ZERO))))
                S.log.append(Write(buf, g, word, (), "st", I.line, I.file))
                st(0, L(buf)); st(8, L(ZERO)); st(16, L(buf)); st(24, L(rc(cnt)))
            else:
                vals = [S.read1(radd(src, rc(j * sz)), g) for j in range(cnt)]
                for j, x in enumerate(vals):
                    S.log.append(Write(radd(buf, rc(j * sz)), g, x, (), "st", I.line, I.file))
                setup(L(rc(cnt * sz)))
            if meth == "operator=" and I.ty != "void":
                S.seti(I, A)
            return True
        if meth == "vector" and a.startswith("unsigned long"):
            n = args[1]
            val = L(ZERO)
            if re.match(r"unsigned long, %s const&" % re.escape(t), a):
                val = S.read(args[2], g)
            S.log.append(Write(buf, g, val, (), "fill", I.line, I.file, (None, 0)))
            setup(vmul(n, L(rc(sz))))
            return True
        return False
    if meth in ("push_back", "emplace_back"):
        if meth == "emplace_back" and len(args) != 2:
            return False
        x = S.read(args[1], g)
        from .summ import base_split
        made = base_split(this)[0]
        made = made is not None and ATOMS[made].kind == "new"        # the object is made in this iteration
        if S.ctx and not made and not S.islocal(this) and any(l.k in deep_atoms(this) for l in S.ctx):
            return False      # a vector chosen by the iteration: the additions are an ordered sequence of events
        fin = S.read1(radd(this, rc(8)), g)
        for pg, r in leaves(fin):
            gg = vand(g, pg)
            if not isF(gg):
                S.log.append(Write(r, gg, x, (), "st", I.line, I.file))
        st(8, vadd(fin, L(rc(sz))))
        if I.ty != "void":
            S.seti(I, fin)
        return True
    if meth == "resize" and not isb:
        old = vsub(S.read1(radd(this, rc(8)), g), S.read1(this, g))
        if any(not (r.is_const() and r.const() == 0) for pg, r in leaves(old) if not isF(vand(g, pg))):
            return False      # only an empty vector
        S.log.append(Write(buf, g, S.read(args[2], g) if len(args) > 2 else L(ZERO), (), "fill", I.line, I.file, (None, 0)))
        setup(vmul(args[1], L(rc(sz))))
        return True
    if meth == "clear":
        st(8, S.read1(this, g))
        return True
    return False


# ---------------------------------------------------------------- strings: the text is an immutable value, kept where the object keeps its pointer
_S1 = re.compile(r"std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>")
_CP = "char const*"


def lit(text):
    return leaf(mk("glob", ("str:" + text,)))


def text_of(r):
    """text of a literal, or None"""
    if len(r.t) == 1:
        (m, c), = r.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.kind == "glob" and a.args[0].startswith("str:"):
                return a.args[0][4:]
    return None


def _parts(r):
    if len(r.t) == 1:
        (m, c), = r.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "strcat":
            return list(ATOMS[m[0][0]].args)
    return [r]


def concat(a, b):
    out = []
    for p in _parts(a) + _parts(b):
        t = text_of(p)
        if t == "":
            continue
        if t is not None and out and text_of(out[-1]) is not None:
            out[-1] = lit(text_of(out[-1]) + t).r
        else:
            out.append(p)
    if not out:
        return lit("").r
    return out[0] if len(out) == 1 else mk("strcat", tuple(out))


def compare(a, b):
    if a.key() == b.key():
        return ZERO
    ta, tb = text_of(a), text_of(b)
    if ta is not None and tb is not None:
        return rc((ta > tb) - (ta < tb))
    if tb is None and ta is not None:
        return rneg(mk("strcmp", (b, a), True))
    return mk("strcmp", (a, b), True)


def split_args(a):
    out, d, cur = [], 0, ""
    for ch in a:
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
            continue
        d += ch in "<(" 
        d -= ch in ">)"
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def arg_types(dem, n):
    """{argument index: type text} for the vector arguments of a call"""
    if "std::vector<" not in dem or not dem.endswith(")"):
        return {}
    d, i = 0, len(dem)
    while i:
        i -= 1
        d += dem[i] == ")"
        d -= dem[i] == "("
        if d == 0:
            break
    ts = split_args(dem[i + 1:-1])
    out = {}
    for j, t in enumerate(ts):
        t = re.sub(r"( const)?&{0,2}$", "", t)
        if t.startswith("std::vector<"):
            out[n - len(ts) + j] = t
    return out


def str_call(S, dem, args, g, I):
    """returns True when the call was modelled"""
    from .summ import Write, base_split
    h = _S1.sub("STR", dem)
    if "STR" not in h and "to_string" not in h and h not in ("strlen", "strcmp"):
        return False
    m = re.match(r"(?:STR& |STR )?(STR::~?\w+(?:\[\]|[=+]*)(?:<[^()]*>)?|std::(?:__cxx11::)?to_string|(?:bool |STR )?std::operator(?:\+|==|!=)<[^()]*>)\((.*)\)( const)?$", h)
    if not m:
        return False
    name, a = m.group(1), split_args(m.group(2))
    name = re.sub(r"<.*>", "", name)

    def val(x, t):
        """value of an argument of type t"""
        if t.startswith("STR"):
            return S.read(x, g)
        if t == _CP:
            for pg, r in leaves(x):
                b, off = base_split(r)
                if b is not None and ATOMS[b].kind in ("alloca", "new", "vbuf"):
                    return None
            return x
        if t == "char":
            if x.atom is None and x.r.is_const():
                return lit(chr(int(x.r.const()) & 255))
            return apply("chr", lambda r: mk("strchar", (r,)), x)
        return None

    def put(dst, v):
        n = apply("slen", slen, v)
        for pg, r in leaves(dst):
            gg = vand(g, pg)
            if not isF(gg):
                S.log.append(Write(r, gg, v, (), "st", I.line, I.file))
                S.log.append(Write(radd(r, rc(8)), gg, n, (), "st", I.line, I.file))
        return True

    def slen(r):
        n = 0
        out = None
        for p in _parts(r):
            t = text_of(p)
            if t is not None:
                n += len(t)
            else:
                x = mk("slen", (p,), True)
                out = x if out is None else radd(out, x)
        return radd(out, rc(n)) if out is not None else rc(n)

    cat = lambda x, y: apply("strcat", concat, x, y)
    short = name.split("STR::")[-1]
    if name.startswith("STR::"):
        if short.startswith("~"):
            return True
        if short == "basic_string":
            if not a or a == ["std::allocator<char> const&"]:
                return put(args[0], lit(""))
            if len(a) == 1 or (len(a) == 2 and a[1] == "std::allocator<char> const&"):
                v = val(args[1], a[0])
                return put(args[0], v) if v is not None else False
            return False
        if short in ("operator=", "assign") and len(a) == 1:
            v = val(args[1], a[0])
            if v is None:
                return False
            put(args[0], v)
            if I.ty != "void":
                S.seti(I, args[0])
            return True
        if short in ("operator+=", "append") and len(a) == 1:
            v = val(args[1], a[0])
            if v is None:
                return False
            put(args[0], cat(S.read(args[0], g), v))
            if I.ty != "void":
                S.seti(I, args[0])
            return True
        if short == "clear" and not a:
            return put(args[0], lit(""))
        if short == "compare" and len(a) == 1:
            v = val(args[1], a[0])
            if v is None:
                return False
            S.seti(I, apply("strcmp", compare, S.read(args[0], g), v))
            return True
        if short in ("c_str", "data") and not a:
            S.seti(I, S.read(args[0], g))
            return True
        if short in ("size", "length") and not a:
            S.seti(I, apply("slen", slen, S.read(args[0], g)))
            return True
        if short == "empty" and not a:
            S.seti(I, apply("sempty", lambda r: cmp_eq0(slen(r), True), S.read(args[0], g)))
            return True
        return False
    if name.endswith("to_string") and len(a) == 1:
        return put(args[0], apply("tostr", lambda r: lit(str(int(r.const()))).r if r.is_const() and "double" not in a[0] and "float" not in a[0] else mk("tostr", (r,)), args[1]))
    if name.endswith("operator+") and len(a) == 2:
        x, y = val(args[1], a[0]), val(args[2], a[1])
        if x is None or y is None:
            return False
        return put(args[0], cat(x, y))
    if ("operator==" in name or "operator!=" in name) and len(a) == 2:
        x, y = val(args[0], a[0]), val(args[1], a[1])
        if x is None or y is None:
            return False
        e = apply("streq", lambda p, q: cmp_eq0(compare(p, q), True), x, y)
        S.seti(I, e if "operator==" in name else vnot(e))
        return True
    return False
