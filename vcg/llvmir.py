"""Loads LLVM IR (bitcode or text, clang 18) through the LLVM-18 C API into plain Python objects.

The IR is produced by clang from /repo's real sources on every run, so what is
verified is what the compiler front end says the code does.
"""
import ctypes as C
import glob

_paths = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1"]
L = None
for _p in _paths:
    try:
        L = C.CDLL(_p)
        break
    except OSError:
        pass
if L is None:
    raise RuntimeError("libLLVM-18 not found")

P = C.c_void_p
U = C.c_uint


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFunction = _f("LLVMGetFirstFunction", P, P)
NextFunction = _f("LLVMGetNextFunction", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
NextAlias = _f("LLVMGetNextGlobalAlias", P, P)
Aliasee = _f("LLVMAliasGetAliasee", P, P)
Ordering = _f("LLVMGetOrdering", C.c_int, P)
RMWBinOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
ValueName = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInstr = _f("LLVMGetFirstInstruction", P, P)
NextInstr = _f("LLVMGetNextInstruction", P, P)
InstrOpcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOperands = _f("LLVMGetNumOperands", C.c_int, P)
Operand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", U, P)
NumIndices = _f("LLVMGetNumIndices", U, P)
Indices = _f("LLVMGetIndices", C.POINTER(U), P)
GEPSrcType = _f("LLVMGetGEPSourceElementType", P, P)
AllocatedType = _f("LLVMGetAllocatedType", P, P)
DataLayout = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
CountStructElems = _f("LLVMCountStructElementTypes", U, P)
StructElem = _f("LLVMStructGetTypeAtIndex", P, P, U)
StructName = _f("LLVMGetStructName", C.c_char_p, P)
ElemType = _f("LLVMGetElementType", P, P)
ArrayLen = _f("LLVMGetArrayLength2", C.c_ulonglong, P)
VecSize = _f("LLVMGetVectorSize", U, P)
CountIncoming = _f("LLVMCountIncoming", U, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, U)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, U)
NumSucc = _f("LLVMGetNumSuccessors", U, P)
Succ = _f("LLVMGetSuccessor", P, P, U)
IsConditional = _f("LLVMIsConditional", C.c_int, P)
ConstIntZ = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
ConstReal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
ElementAsConst = _f("LLVMGetElementAsConstant", P, P, U)
Initializer = _f("LLVMGetInitializer", P, P)
IsGlobalConst = _f("LLVMIsGlobalConstant", C.c_int, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
CountParams = _f("LLVMCountParams", U, P)
Param = _f("LLVMGetParam", P, P, U)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
IsDeclaration = _f("LLVMIsDeclaration", C.c_int, P)
PrintValue = _f("LLVMPrintValueToString", C.c_void_p, P)
PrintType = _f("LLVMPrintTypeToString", C.c_void_p, P)
DisposeMessage = _f("LLVMDisposeMessage", None, P)
BBAsValue = _f("LLVMBasicBlockAsValue", P, P)
BBParent = _f("LLVMGetBasicBlockParent", P, P)
GetNSW = _f("LLVMGetNSW", C.c_int, P)
GetNUW = _f("LLVMGetNUW", C.c_int, P)
MaskElt = _f("LLVMGetMaskValue", C.c_int, P, U)
NumMask = _f("LLVMGetNumMaskElements", U, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem',
       19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
       28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp',
       36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast',
       42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad', 66: 'fneg', 68: 'freeze'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
# LLVMValueKind
VK_ARG, VK_BB, VK_FUNC, VK_GALIAS, VK_IFUNC, VK_GVAR, VK_BADDR, VK_CEXPR, VK_CARR, VK_CSTRUCT, VK_CVEC, VK_UNDEF, \
    VK_CAZ, VK_CDA, VK_CDV, VK_CINT, VK_CFP, VK_CPN = 0, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20


class Ty:
    __slots__ = ("kind", "width", "elems", "offs", "elem", "n", "size", "name", "stride")
    # kind: void float int ptr struct array vector label other

    def __repr__(self):
        return f"{self.kind}{self.width or ''}"


def int_type(w):
    r = Ty()
    r.kind, r.width, r.size = 'int', w, (w + 7) // 8
    r.elems = r.offs = r.elem = r.n = r.name = r.stride = None
    return r


class Instr:
    __slots__ = ("op", "ty", "ops", "id", "name", "x", "text", "fn")


class Block:
    __slots__ = ("name", "instrs", "succs", "idx", "ptr")


class Func:
    def __init__(self):
        self.blocks = []
        self.params = []
        self._loops = None


class Module:
    def __init__(self, path):
        ctx = ContextCreate()
        buf, msg = P(), C.c_char_p()
        if MemBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        m = P()
        if ParseIR(ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.dl = DataLayout(m)
        self._ty = {}
        self.fptr = {}
        self.functions = {}
        self.globals = {}
        self._gptr = {}
        f = FirstFunction(m)
        while f:
            self.fptr[f] = self.vname(f)
            self.functions[self.vname(f)] = None
            f = NextFunction(f)
        self._fbyname = {n: p for p, n in self.fptr.items()}
        g = FirstGlobal(m)
        while g:
            self._gptr[g] = self.vname(g)
            self.globals[self.vname(g)] = g
            g = NextGlobal(g)
        self._gbyname = dict(self.globals)
        a = FirstAlias(m)
        while a:
            t = self.fptr.get(Aliasee(a))
            if t:
                self._fbyname.setdefault(self.vname(a), self._fbyname[t])
            a = NextAlias(a)

    # ------------------------------------------------------------------ util
    @staticmethod
    def vname(v):
        n = C.c_size_t()
        p = ValueName(v, C.byref(n))
        return C.string_at(p, n.value).decode() if p else ""

    @staticmethod
    def vtext(v):
        p = PrintValue(v)
        s = C.string_at(p).decode(errors="replace")
        DisposeMessage(p)
        return s

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        r = Ty()
        self._ty[t] = r
        k = TypeKind(t)
        r.width = r.elems = r.offs = r.elem = r.n = r.name = r.stride = None
        r.size = 0
        if k == 0:
            r.kind = 'void'
        elif k in (1, 2, 3, 4, 5, 6, 18):
            r.kind = 'float'
            r.size = StoreSize(self.dl, t)
            if k == 4:
                r.size = 16
            r.width = r.size * 8
        elif k == 7:
            r.kind = 'label'
        elif k == 8:
            r.kind = 'int'
            r.width = IntWidth(t)
            r.size = StoreSize(self.dl, t)
        elif k == 9:
            r.kind = 'func'
        elif k == 10:
            r.kind = 'struct'
            n = CountStructElems(t)
            r.elems = [self.ty(StructElem(t, i)) for i in range(n)]
            r.name = (StructName(t) or b'').decode()
            try:
                r.offs = [OffsetOf(self.dl, t, i) for i in range(n)]
                r.size = ABISize(self.dl, t)
            except Exception:
                pass
        elif k == 11:
            r.kind = 'array'
            r.n = ArrayLen(t)
            r.elem = self.ty(ElemType(t))
            r.stride = ABISize(self.dl, ElemType(t))
            r.size = ABISize(self.dl, t)
        elif k == 12:
            r.kind = 'ptr'
            r.width = 64
            r.size = 8
        elif k in (13, 17):
            r.kind = 'vector'
            r.n = VecSize(t)
            r.elem = self.ty(ElemType(t))
            r.stride = r.elem.size
            r.size = ABISize(self.dl, t)
        else:
            r.kind = 'other'
        return r

    def func(self, name):
        f = self.functions.get(name)
        if f is None:
            if name not in self._fbyname:
                return None
            p = self._fbyname[name]
            f = self._load(p, name)
            self.functions[name] = f
        return f

    def function_names(self):
        return list(self._fbyname)

    def has_body(self, name):
        p = self._fbyname.get(name)
        return bool(p) and not IsDeclaration(p)

    # --------------------------------------------------------------- loading
    def _load(self, p, name):
        F = Func()
        F.name = name
        F.decl = bool(IsDeclaration(p))
        ids = {}
        for i in range(CountParams(p)):
            a = Param(p, i)
            ids[a] = ('L', 'a%d' % i)
            F.params.append(('a%d' % i, self.ty(TypeOf(a)), self.vname(a)))
        if F.decl:
            return F
        bbs = []
        b = FirstBB(p)
        while b:
            bbs.append(b)
            b = NextBB(b)
        bbidx = {b: i for i, b in enumerate(bbs)}
        bbval = {BBAsValue(b): i for b, i in bbidx.items()}
        raw = []
        n = 0
        for b in bbs:
            cur = []
            i = FirstInstr(b)
            while i:
                ids[i] = ('L', n)
                n += 1
                cur.append(i)
                i = NextInstr(i)
            raw.append(cur)
        self._ids, self._bbval = ids, bbval
        for bi, b in enumerate(bbs):
            B = Block()
            B.idx = bi
            B.name = self.vname(BBAsValue(b))
            B.instrs = []
            B.succs = []
            for i in raw[bi]:
                B.instrs.append(self._instr(i, ids, bbidx, bbval))
            t = B.instrs[-1]
            if t.op == 'br':
                B.succs = list(t.x)
            elif t.op == 'switch':
                B.succs = [t.x[0]] + [c[1] for c in t.x[1]]
            F.blocks.append(B)
        return F

    def _instr(self, i, ids, bbidx, bbval):
        I = Instr()
        opc = InstrOpcode(i)
        I.op = OPC.get(opc, 'op%d' % opc)
        I.ty = self.ty(TypeOf(i))
        I.id = ids[i][1]
        I.name = self.vname(i)
        I.x = None
        I.text = i
        I.fn = None
        op = I.op
        no = NumOperands(i)
        if op == 'br':
            if IsConditional(i):
                I.ops = [self.val(Operand(i, 0))]
            else:
                I.ops = []
            I.x = [bbidx[Succ(i, k)] for k in range(NumSucc(i))]
            return I
        if op == 'switch':
            I.ops = [self.val(Operand(i, 0))]
            cases = []
            for k in range(2, no, 2):
                cases.append((ConstIntZ(Operand(i, k)), bbval[Operand(i, k + 1)]))
            I.x = (bbval[Operand(i, 1)], cases)
            return I
        if op == 'phi':
            I.ops = []
            I.x = [(bbidx[IncomingBlock(i, k)], self.val(IncomingValue(i, k))) for k in range(CountIncoming(i))]
            return I
        if op in ('call', 'invoke'):
            na = NumArgOps(i)
            cv = CalledValue(i)
            I.ops = [self.val(Operand(i, k)) for k in range(na)]
            I.fn = self.fptr.get(cv)
            if I.fn is None:
                I.x = self.val(cv)
            return I
        if op == 'icmp':
            I.x = ICMP[ICmpPred(i)]
        elif op == 'fcmp':
            I.x = FCMP[FCmpPred(i)]
        elif op == 'gep':
            I.x = self.ty(GEPSrcType(i))
        elif op == 'alloca':
            I.x = self.ty(AllocatedType(i))
        elif op in ('load', 'store'):
            I.x = Ordering(i) or None
        elif op == 'atomicrmw':
            I.x = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 5: 'or', 6: 'xor'}.get(RMWBinOp(i))
        elif op in ('extractvalue', 'insertvalue'):
            idx = Indices(i)
            I.x = [idx[k] for k in range(NumIndices(i))]
        elif op == 'shufflevector':
            I.x = [MaskElt(i, k) for k in range(NumMask(i))]
        elif op == 'add' or op == 'sub' or op == 'mul' or op == 'shl':
            I.x = (bool(GetNSW(i)), bool(GetNUW(i)))
        I.ops = [self.val(Operand(i, k)) for k in range(no)]
        return I

    # values: ('L', id) local; ('i', w, n) ; ('f', Fraction-able float); ('null',); ('G', name); ('F', fname);
    # ('undef', ty); ('agg', [vals], ty); ('zero', ty); ('cgep', srcty, base, idx); ('ccast', op, val, ty); ('meta',)
    def val(self, v):
        loc = self._ids.get(v)
        if loc is not None:
            return loc
        k = ValueKind(v)
        if k == VK_CINT:
            t = self.ty(TypeOf(v))
            if t.width > 64:
                s = self.vtext(v).split()[-1]
                n = int(s) % (1 << t.width)
            else:
                n = ConstIntZ(v)
            return ('i', t.width, n)
        if k == VK_CFP:
            lossy = C.c_int()
            return ('f', ConstReal(v, C.byref(lossy)))
        if k == VK_CPN:
            return ('null',)
        if k == VK_FUNC:
            return ('F', self.fptr[v])
        if k == VK_GVAR:
            return ('G', self._gptr[v])
        if k == VK_UNDEF or k == 25 or 'poison' in self.vtext(v)[-8:] or self.vtext(v).endswith('undef'):
            return ('undef', self.ty(TypeOf(v)))
        if k == VK_CAZ:
            return ('zero', self.ty(TypeOf(v)))
        if k in (VK_CDA, VK_CDV):
            t = self.ty(TypeOf(v))
            return ('agg', [self.val(ElementAsConst(v, j)) for j in range(t.n)], t)
        if k in (VK_CARR, VK_CSTRUCT, VK_CVEC):
            t = self.ty(TypeOf(v))
            return ('agg', [self.val(Operand(v, j)) for j in range(NumOperands(v))], t)
        if k == VK_CEXPR:
            op = OPC[ConstOpcode(v)]
            if op == 'gep':
                return ('cgep', self.ty(GEPSrcType(v)), self.val(Operand(v, 0)),
                        [self.val(Operand(v, j)) for j in range(1, NumOperands(v))])
            return ('ccast', op, [self.val(Operand(v, j)) for j in range(NumOperands(v))], self.ty(TypeOf(v)))
        if k == VK_GALIAS:
            return ('alias', self.vname(v))
        return ('meta', k)

    def global_init(self, name):
        g = self._gbyname[name]
        t = self.ty(GlobalValueType(g))
        init = Initializer(g)
        self._ids = {}
        return t, (self.val(init) if init else None), bool(IsGlobalConst(g))


def text_of(I):
    return Module.vtext(I.text)
