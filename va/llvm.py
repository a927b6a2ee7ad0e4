"""ctypes view of LLVM bitcode (libLLVM-18 C API): parse, link, normalise, extract."""
import ctypes as C
import ctypes.util
import os
import subprocess
from fractions import Fraction

_paths = ["/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so.1", "libLLVM.so.18.1"]
L = None
for _p in _paths:
    try:
        L = C.CDLL(_p)
        break
    except OSError:
        pass
if L is None:
    raise SystemExit("libLLVM 18 not found")

VP = C.c_void_p
CP = C.c_char_p


def _d(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = _d("LLVMContextCreate", VP)
ContextDispose = _d("LLVMContextDispose", None, VP)
MemBuf = _d("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, CP, C.POINTER(VP), C.POINTER(CP))
ParseIR = _d("LLVMParseIRInContext", C.c_int, VP, VP, C.POINTER(VP), C.POINTER(CP))
Link = _d("LLVMLinkModules2", C.c_int, VP, VP)
DisposeModule = _d("LLVMDisposeModule", None, VP)
FirstFn = _d("LLVMGetFirstFunction", VP, VP)
NextFn = _d("LLVMGetNextFunction", VP, VP)
FirstGV = _d("LLVMGetFirstGlobal", VP, VP)
NextGV = _d("LLVMGetNextGlobal", VP, VP)
Name = _d("LLVMGetValueName2", VP, VP, C.POINTER(C.c_size_t))
IsDecl = _d("LLVMIsDeclaration", C.c_int, VP)
SetComdat = _d("LLVMSetComdat", None, VP, VP)
WriteBC = _d("LLVMWriteBitcodeToFile", C.c_int, VP, CP)
SetLinkage = _d("LLVMSetLinkage", None, VP, C.c_int)
AttrKind = _d("LLVMGetEnumAttributeKindForName", C.c_uint, CP, C.c_size_t)
MkAttr = _d("LLVMCreateEnumAttribute", VP, VP, C.c_uint, C.c_uint64)
AddAttr = _d("LLVMAddAttributeAtIndex", None, VP, C.c_uint, VP)
RmAttr = _d("LLVMRemoveEnumAttributeAtIndex", None, VP, C.c_uint, C.c_uint)
PBO = _d("LLVMCreatePassBuilderOptions", VP)
PBOd = _d("LLVMDisposePassBuilderOptions", None, VP)
RunPasses = _d("LLVMRunPasses", VP, VP, CP, VP, VP)
ErrMsg = _d("LLVMGetErrorMessage", VP, VP)
FirstBB = _d("LLVMGetFirstBasicBlock", VP, VP)
NextBB = _d("LLVMGetNextBasicBlock", VP, VP)
CountBB = _d("LLVMCountBasicBlocks", C.c_uint, VP)
FirstI = _d("LLVMGetFirstInstruction", VP, VP)
NextI = _d("LLVMGetNextInstruction", VP, VP)
Opc = _d("LLVMGetInstructionOpcode", C.c_int, VP)
NumOp = _d("LLVMGetNumOperands", C.c_int, VP)
Operand = _d("LLVMGetOperand", VP, VP, C.c_uint)
TypeOf = _d("LLVMTypeOf", VP, VP)
TypeKind = _d("LLVMGetTypeKind", C.c_int, VP)
IntWidth = _d("LLVMGetIntTypeWidth", C.c_uint, VP)
GepTy = _d("LLVMGetGEPSourceElementType", VP, VP)
AllocTy = _d("LLVMGetAllocatedType", VP, VP)
ElemTy = _d("LLVMGetElementType", VP, VP)
StructElem = _d("LLVMStructGetTypeAtIndex", VP, VP, C.c_uint)
ArrLen = _d("LLVMGetArrayLength2", C.c_uint64, VP)
IsTLS = _d("LLVMIsThreadLocal", C.c_int, VP)
StructName = _d("LLVMGetStructName", CP, VP)
DataLayout = _d("LLVMGetModuleDataLayout", VP, VP)
OffsetOf = _d("LLVMOffsetOfElement", C.c_ulonglong, VP, VP, C.c_uint)
SizeOf = _d("LLVMABISizeOfType", C.c_ulonglong, VP, VP)
ValKind = _d("LLVMGetValueKind", C.c_int, VP)
CInt = _d("LLVMConstIntGetSExtValue", C.c_longlong, VP)
CIntZ = _d("LLVMConstIntGetZExtValue", C.c_ulonglong, VP)
CFP = _d("LLVMConstRealGetDouble", C.c_double, VP, C.POINTER(C.c_int))
CEOpc = _d("LLVMGetConstOpcode", C.c_int, VP)
ICmpP = _d("LLVMGetICmpPredicate", C.c_int, VP)
GetExact = _d("LLVMGetExact", C.c_int, VP)
FCmpP = _d("LLVMGetFCmpPredicate", C.c_int, VP)
CalledV = _d("LLVMGetCalledValue", VP, VP)
NumArgs = _d("LLVMGetNumArgOperands", C.c_uint, VP)
CountInc = _d("LLVMCountIncoming", C.c_uint, VP)
IncV = _d("LLVMGetIncomingValue", VP, VP, C.c_uint)
IncB = _d("LLVMGetIncomingBlock", VP, VP, C.c_uint)
NumSucc = _d("LLVMGetNumSuccessors", C.c_uint, VP)
Succ = _d("LLVMGetSuccessor", VP, VP, C.c_uint)
IsCond = _d("LLVMIsConditional", C.c_int, VP)
Cond = _d("LLVMGetCondition", VP, VP)
NormalDest = _d("LLVMGetNormalDest", VP, VP)
UnwindDest = _d("LLVMGetUnwindDest", VP, VP)
SwDef = _d("LLVMGetSwitchDefaultDest", VP, VP)
CountParams = _d("LLVMCountParams", C.c_uint, VP)
Param = _d("LLVMGetParam", VP, VP, C.c_uint)
DbgLine = _d("LLVMGetDebugLocLine", C.c_uint, VP)
DbgFile = _d("LLVMGetDebugLocFilename", VP, VP, C.POINTER(C.c_uint))
GlobInit = _d("LLVMGetInitializer", VP, VP)
IsGlobConst = _d("LLVMIsGlobalConstant", C.c_int, VP)
Visibility = None
PrintV = _d("LLVMPrintValueToString", VP, VP)
PrintT = _d("LLVMPrintTypeToString", VP, VP)
DisposeMsg = _d("LLVMDisposeMessage", None, VP)
NumIdx = _d("LLVMGetNumIndices", C.c_uint, VP)
Idxs = _d("LLVMGetIndices", C.POINTER(C.c_uint), VP)
GetFnTypeOfCall = _d("LLVMGetCalledFunctionType", VP, VP)
GetAsString = _d("LLVMGetAsString", VP, VP, C.POINTER(C.c_size_t))
IsCString = _d("LLVMIsConstantString", C.c_int, VP)
PrintFile = _d("LLVMPrintModuleToFile", C.c_int, VP, CP, C.POINTER(CP))
NamedFn = _d("LLVMGetNamedFunction", VP, VP, CP)
GetNextParam = None
AggElem = _d("LLVMGetAggregateElement", VP, VP, C.c_uint)
Personality = _d("LLVMHasPersonalityFn", C.c_int, VP)

OPN = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul",
       14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       47: "userop1", 48: "userop2", 49: "vaarg", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue",
       55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 60: "addrspacecast", 61: "cleanupret", 62: "catchret",
       63: "catchpad", 64: "cleanuppad", 65: "catchswitch", 66: "fneg", 67: "callbr", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
# value kinds
VK_ARG, VK_BB, VK_FN, VK_GALIAS, VK_GVAR, VK_CE, VK_UNDEF, VK_POISON, VK_NULL, VK_INT, VK_FP, VK_MD, VK_INST = 0, 1, 5, 6, 8, 10, 19, 25, 15 + 0, 0, 0, 0, 0
VKN = ["arg", "bb", "memuse", "memdef", "memphi", "fn", "galias", "gifunc", "gvar", "blockaddr", "ce", "carray", "cstruct", "cvector", "undef", "caggzero",
       "cdarray", "cdvector", "int", "fp", "null", "tokennone", "md", "asm", "inst", "poison", "targetnone"]
TYK = ["void", "half", "float", "double", "x86_fp80", "fp128", "ppc", "label", "int", "function", "struct", "array", "ptr", "vector", "metadata", "x86mmx", "token", "svec", "bfloat", "amx", "target"]


def name_of(v):
    n = C.c_size_t()
    p = Name(v, C.byref(n))
    return C.string_at(p, n.value).decode()


class Operand_:
    pass


class Inst:
    __slots__ = ("id", "op", "ops", "ty", "x", "line", "file", "bb", "pos", "ptr", "src")

    def __repr__(self):
        return "%%%d=%s %r %r" % (self.id, self.op, self.ops, self.x)


class Block:
    __slots__ = ("id", "insts", "succs", "preds")


class Function:
    pass


class Module:
    def __init__(self, bcs):
        self.ctx = ContextCreate()
        self.mod = None
        for p in bcs:
            buf = VP()
            err = CP()
            if MemBuf(p.encode(), C.byref(buf), C.byref(err)):
                raise RuntimeError("read %s" % p)
            m = VP()
            if ParseIR(self.ctx, buf, C.byref(m), C.byref(err)):
                raise RuntimeError("parse %s: %s" % (p, err.value))
            if self.mod is None:
                self.mod = m
            elif Link(self.mod, m):
                raise RuntimeError("link %s" % p)
        self.dl = DataLayout(self.mod)
        self._kinds = {k: AttrKind(k.encode(), len(k)) for k in ("alwaysinline", "noinline", "optnone")}
        self.reindex()

    def reindex(self):
        self.fns = {}
        f = FirstFn(self.mod)
        while f:
            self.fns[name_of(f)] = f
            f = NextFn(f)
        self.demangled = demangle(list(self.fns))

    def write(self, path):
        if WriteBC(self.mod, path.encode()):
            raise RuntimeError("write %s" % path)

    def defined(self):
        return [n for n, f in self.fns.items() if not IsDecl(f)]

    def run(self, passes):
        o = PBO()
        e = RunPasses(self.mod, passes.encode(), None, o)
        PBOd(o)
        if e:
            raise RuntimeError(C.string_at(ErrMsg(e)).decode())

    def set_inline(self, names_inline, names_no):
        ai, ni, on = self._kinds["alwaysinline"], self._kinds["noinline"], self._kinds["optnone"]
        FN = C.c_uint(0xFFFFFFFF).value
        for n in names_inline:
            f = self.fns[n]
            RmAttr(f, FN, ni)
            RmAttr(f, FN, on)
            AddAttr(f, FN, MkAttr(self.ctx, ai, 0))
        for n in names_no:
            f = self.fns[n]
            RmAttr(f, FN, ai)
            AddAttr(f, FN, MkAttr(self.ctx, ni, 0))

    def find(self, pat):
        """demangled-name regex (full match) -> list of mangled names with a body"""
        import re
        r = re.compile(pat)
        return [n for n, f in self.fns.items() if not IsDecl(f) and r.fullmatch(self.demangled[n])]

    def calls_in(self, fname):
        f = self.fns[fname]
        out = []
        b = FirstBB(f)
        while b:
            i = FirstI(b)
            while i:
                if OPN.get(Opc(i)) in ("call", "invoke"):
                    c = CalledV(i)
                    if VKN[ValKind(c)] == "fn":
                        out.append(name_of(c))
                    else:
                        out.append(None)
                i = NextI(i)
            b = NextBB(b)
        return out

    def fn_size(self, fname):
        n = 0
        b = FirstBB(self.fns[fname])
        while b:
            i = FirstI(b)
            while i:
                n += 1
                i = NextI(i)
            b = NextBB(b)
        return n

    # ---- extraction
    def tyname(self, t):
        k = TYK[TypeKind(t)]
        if k == "int":
            return "i%d" % IntWidth(t)
        return k

    def opnd(self, v, ids):
        k = VKN[ValKind(v)]
        if k == "inst":
            return ("i", ids[v]) if v in ids else ("?",)
        if k == "arg":
            return ("a", ids[v])
        if k == "int":
            if IntWidth(TypeOf(v)) == 1:
                return ("c", CIntZ(v))
            return ("c", CInt(v))
        if k == "fp":
            lo = C.c_int()
            return ("f", CFP(v, C.byref(lo)))
        if k == "fn":
            return ("fn", name_of(v))
        if k == "gvar":
            return ("g", name_of(v))
        if k in ("null", "caggzero"):
            return ("c", 0)
        if k in ("undef", "poison"):
            return ("u",)
        if k == "bb":
            return ("b", ids[v])
        if k == "ce":
            op = OPN.get(CEOpc(v))
            if op == "gep":
                return ("gepc", self.gepinfo(v, ids))
            ops = [self.opnd(Operand(v, i), ids) for i in range(NumOp(v))]
            return ("ce", op, ops)
        if k == "galias":
            return ("g", name_of(v))
        if k in ("cstruct", "carray", "cdarray", "cvector", "cdvector"):
            return ("agg", [self.opnd(AggElem(v, i), ids) for i in range(64) if AggElem(v, i)])
        return ("?", k)

    def gepinfo(self, v, ids):
        """base operand, [(const bytes)], [(operand, scale)]"""
        base = self.opnd(Operand(v, 0), ids)
        t = GepTy(v)
        off = 0
        terms = []
        n = NumOp(v)
        for i in range(1, n):
            o = Operand(v, i)
            ck = VKN[ValKind(o)] == "int"
            if i == 1:
                sz = SizeOf(self.dl, t)
                if ck:
                    off += CInt(o) * sz
                else:
                    terms.append((self.opnd(o, ids), sz))
            else:
                k = TYK[TypeKind(t)]
                if k == "struct":
                    ix = CInt(o)
                    off += OffsetOf(self.dl, t, ix)
                    t = StructElem(t, ix)
                else:
                    t = ElemTy(t)
                    sz = SizeOf(self.dl, t)
                    if ck:
                        off += CInt(o) * sz
                    else:
                        terms.append((self.opnd(o, ids), sz))
        return (base, off, terms)

    def extract(self, fname):
        f = self.fns[fname]
        F = Function()
        F.name = fname
        F.dem = self.demangled.get(fname, fname)
        ids = {}
        F.nparams = CountParams(f)
        for i in range(F.nparams):
            ids[Param(f, i)] = i
        F.param_types = [self.tyname(TypeOf(Param(f, i))) for i in range(F.nparams)]
        blocks = []
        b = FirstBB(f)
        nb = 0
        while b:
            ids[b] = nb
            nb += 1
            blocks.append(b)
            b = NextBB(b)
        iid = 0
        for b in blocks:
            i = FirstI(b)
            while i:
                ids[i] = iid
                iid += 1
                i = NextI(i)
        F.blocks = []
        F.insts = []
        for bi, b in enumerate(blocks):
            B = Block()
            B.id = bi
            B.insts = []
            B.succs = []
            B.preds = []
            i = FirstI(b)
            while i:
                I = Inst()
                I.id = ids[i]
                I.op = OPN.get(Opc(i), "op%d" % Opc(i))
                I.ty = self.tyname(TypeOf(i))
                I.x = None
                I.bb = bi
                I.line = DbgLine(i)
                n = C.c_uint()
                p = DbgFile(i, C.byref(n))
                I.file = C.string_at(p, n.value).decode() if p and n.value else ""
                if I.op == "gep":
                    I.ops = []
                    I.x = self.gepinfo(i, ids)
                    t = GepTy(i)
                    I.src = (StructName(t) or b"").decode() if TYK[TypeKind(t)] == "struct" else ""
                elif I.op == "phi":
                    I.ops = [(self.opnd(IncV(i, j), ids), ids[IncB(i, j)]) for j in range(CountInc(i))]
                elif I.op in ("call", "invoke"):
                    na = NumArgs(i)
                    I.ops = [self.opnd(Operand(i, j), ids) for j in range(na)]
                    c = CalledV(i)
                    I.x = self.opnd(c, ids)
                elif I.op == "icmp":
                    I.ops = [self.opnd(Operand(i, j), ids) for j in range(2)]
                    I.x = ICMP[ICmpP(i)]
                elif I.op == "fcmp":
                    I.ops = [self.opnd(Operand(i, j), ids) for j in range(2)]
                    I.x = FCMP[FCmpP(i)]
                elif I.op == "alloca":
                    I.ops = []
                    t = AllocTy(i)
                    I.x = (SizeOf(self.dl, t), self.tyname(t), (StructName(t) or b"").decode() if TYK[TypeKind(t)] == "struct" else "")
                elif I.op in ("extractvalue", "insertvalue"):
                    I.ops = [self.opnd(Operand(i, j), ids) for j in range(NumOp(i))]
                    I.x = [Idxs(i)[j] for j in range(NumIdx(i))]
                elif I.op == "br":
                    I.ops = [self.opnd(Cond(i), ids)] if IsCond(i) else []
                    I.x = [ids[Succ(i, j)] for j in range(NumSucc(i))]
                elif I.op == "switch":
                    # operands: cond, default, (val, bb)*
                    n = NumOp(i)
                    I.ops = [self.opnd(Operand(i, 0), ids)]
                    cases = []
                    for j in range(2, n, 2):
                        cases.append((CInt(Operand(i, j)), ids[Operand(i, j + 1)]))
                    I.x = (ids[SwDef(i)], cases)
                else:
                    I.ops = [self.opnd(Operand(i, j), ids) for j in range(NumOp(i))]
                if I.op in ("sdiv", "udiv", "ashr", "lshr"):
                    I.x = bool(GetExact(i))
                if I.op in ("load",):
                    I.x = SizeOf(self.dl, TypeOf(i))
                if I.op == "store":
                    I.x = SizeOf(self.dl, TypeOf(Operand(i, 0)))
                if I.op in ("zext", "sext", "trunc", "fptosi", "fptoui", "and", "or", "xor", "lshr", "shl"):
                    I.x = self.tyname(TypeOf(Operand(i, 0)))
                if I.op == "invoke":
                    B.succs = [ids[NormalDest(i)]]
                    B_un = ids[UnwindDest(i)]
                    I.x = (I.x, ids[NormalDest(i)], B_un)
                elif I.op == "br":
                    B.succs = list(dict.fromkeys(I.x))
                elif I.op == "switch":
                    B.succs = list(dict.fromkeys([I.x[0]] + [c[1] for c in I.x[1]]))
                B.insts.append(I)
                F.insts.append(I)
                i = NextI(i)
            F.blocks.append(B)
        for B in F.blocks:
            for s in B.succs:
                F.blocks[s].preds.append(B.id)
        return F

    def global_string(self, gname):
        """constant string of a private global, or None"""
        g = FirstGV(self.mod)
        if not hasattr(self, "_gs"):
            self._gs = {}
            self._gc = {}
            self._ga = {}
            while g:
                n = name_of(g)
                if not IsDecl(g):
                    init = GlobInit(g)
                    kd = VKN[ValKind(init)] if init else ""
                    if kd == "caggzero" and IsGlobConst(g) and n.startswith(".str"):
                        self._gs[n] = ""
                    elif kd == "cdarray" and IsGlobConst(g) and IsCString(init):
                        sz = C.c_size_t()
                        p = GetAsString(init, C.byref(sz))
                        self._gs[n] = C.string_at(p, sz.value).rstrip(b"\0").decode("latin1")
                    if init and IsGlobConst(g):
                        k = VKN[ValKind(init)]
                        if k == "fp":
                            lo = C.c_int()
                            self._gc[n] = ("f", CFP(init, C.byref(lo)))
                        elif k == "int":
                            self._gc[n] = ("c", CInt(init))
                        elif k in ("caggzero", "cdarray", "carray") and not n.startswith(".str") and n not in self._gs:
                            t = TypeOf(init)
                            if TYK[TypeKind(t)] == "array" and 0 < ArrLen(t) <= 16:
                                els = [AggElem(init, i) for i in range(ArrLen(t))]
                                if all(e and VKN[ValKind(e)] in ("int", "fp") for e in els):
                                    lo = C.c_int()
                                    self._ga[n] = (SizeOf(self.dl, t) // ArrLen(t), [("c", CInt(e)) if VKN[ValKind(e)] == "int" else ("f", CFP(e, C.byref(lo))) for e in els])
                g = NextGV(g)
        return self._gs.get(gname)

    def globals(self):
        """{name: (value, thread local, constant)} of all global variables"""
        out = {}
        g = FirstGV(self.mod)
        while g:
            out[name_of(g)] = (g, bool(IsTLS(g)), bool(IsGlobConst(g)))
            g = NextGV(g)
        return out

    def functions_in_initialiser(self, g):
        """names of the functions a global's initialiser refers to (virtual tables)"""
        out = []
        if IsDecl(g):
            return out
        st = [GlobInit(g)]
        while st:
            v = st.pop()
            if not v:
                continue
            k = VKN[ValKind(v)]
            if k == "fn":
                out.append(name_of(v))
            elif k in ("cstruct", "carray", "ce"):
                st += [Operand(v, i) for i in range(NumOp(v))]
        return out

    def vtable_slot(self, gname, k):
        """name of the function at position k of a virtual table"""
        g = self.globals().get(gname)
        if g is None or IsDecl(g[0]):
            return None
        v = GlobInit(g[0])
        while v and VKN[ValKind(v)] == "cstruct" and NumOp(v) == 1:
            v = Operand(v, 0)
        if v and VKN[ValKind(v)] == "carray" and 0 <= k < NumOp(v):
            f = Operand(v, k)
            if VKN[ValKind(f)] == "fn":
                return name_of(f)
        return None

    def global_array(self, gname):
        """(element size, elements) of a constant array of numbers, or None"""
        self.global_string(gname)
        return self._ga.get(gname)

    def global_const(self, gname):
        self.global_string("")
        return self._gc.get(gname)


def demangle(names):
    ns = [n for n in names if n.startswith("_Z")]
    out = {n: n for n in names}
    if ns:
        for tool in ("llvm-cxxfilt-18", "/usr/lib/llvm-18/bin/llvm-cxxfilt", "c++filt"):
            try:
                r = subprocess.run([tool], input="\n".join(ns), capture_output=True, text=True, check=True).stdout.split("\n")
                for a, b in zip(ns, r):
                    out[a] = b
                break
            except (OSError, subprocess.CalledProcessError):
                continue
    return out
