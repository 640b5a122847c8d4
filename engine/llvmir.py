"""Reads LLVM bitcode through the LLVM-C API (ctypes) and turns every function
into plain Python tuples that symex.py interprets.  Nothing about the code under
test is written down here: the encoding is whatever clang emits for /repo's
current working tree."""
import ctypes as C
import os

_CANDIDATES = ["/usr/lib/llvm-18/lib/libLLVM-18.so",
               "/usr/lib/llvm-18/lib/libLLVM.so.1",
               "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"]


def _load():
    for p in _CANDIDATES:
        if os.path.exists(p):
            return C.CDLL(p)
    raise RuntimeError("libLLVM-18 not found")


L = _load()
P = C.c_void_p
U = C.c_uint


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", P)
MBFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p,
            C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
GetDL = _f("LLVMGetModuleDataLayout", P, P)
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGV = _f("LLVMGetFirstGlobal", P, P)
NextGV = _f("LLVMGetNextGlobal", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
NextAlias = _f("LLVMGetNextGlobalAlias", P, P)
Aliasee = _f("LLVMAliasGetAliasee", P, P)
ValName = _f("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
ConstOp = _f("LLVMGetConstOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
Op = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntW = _f("LLVMGetIntTypeWidth", U, P)
ElTy = _f("LLVMGetElementType", P, P)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
VecLen = _f("LLVMGetVectorSize", U, P)
NStruct = _f("LLVMCountStructElementTypes", U, P)
StructEl = _f("LLVMStructGetTypeAtIndex", P, P, U)
OffOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
ABIAlign = _f("LLVMABIAlignmentOfType", U, P, P)
VKind = _f("LLVMGetValueKind", C.c_int, P)
Ordering = _f("LLVMGetOrdering", C.c_int, P)
CXSucc = _f("LLVMGetCmpXchgSuccessOrdering", C.c_int, P)
CXFail = _f("LLVMGetCmpXchgFailureOrdering", C.c_int, P)
IsWeak = _f("LLVMGetWeak", C.c_int, P)
ZExtVal = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
RealVal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
PrintV = _f("LLVMPrintValueToString", P, P)
DispMsg = _f("LLVMDisposeMessage", None, P)
AggEl = _f("LLVMGetAggregateElement", P, P, U)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
NSW = _f("LLVMGetNSW", C.c_int, P)
NUW = _f("LLVMGetNUW", C.c_int, P)
Exact = _f("LLVMGetExact", C.c_int, P)
GEPSrc = _f("LLVMGetGEPSourceElementType", P, P)
InBounds = _f("LLVMIsInBounds", C.c_int, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
NSucc = _f("LLVMGetNumSuccessors", U, P)
Succ = _f("LLVMGetSuccessor", P, P, U)
IsCond = _f("LLVMIsConditional", C.c_int, P)
CondOf = _f("LLVMGetCondition", P, P)
CountInc = _f("LLVMCountIncoming", U, P)
IncVal = _f("LLVMGetIncomingValue", P, P, U)
IncBlk = _f("LLVMGetIncomingBlock", P, P, U)
NumIdx = _f("LLVMGetNumIndices", U, P)
Idx = _f("LLVMGetIndices", C.POINTER(U), P)
CalledV = _f("LLVMGetCalledValue", P, P)
NArg = _f("LLVMGetNumArgOperands", U, P)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
NormalDest = _f("LLVMGetNormalDest", P, P)
BBOfV = _f("LLVMValueAsBasicBlock", P, P)
BBAsV = _f("LLVMBasicBlockAsValue", P, P)
Align = _f("LLVMGetAlignment", U, P)
GVInit = _f("LLVMGetInitializer", P, P)
IsConstG = _f("LLVMIsGlobalConstant", C.c_int, P)
GVValTy = _f("LLVMGlobalGetValueType", P, P)

OPS = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke',
       7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub',
       11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr',
       23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast',
       42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       49: 'vaarg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule',
        38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor',
       7: 'max', 8: 'min', 9: 'umax', 10: 'umin'}

# LLVMValueKind
K_ARG, K_BB = 0, 1
K_FUNC, K_ALIAS, K_GV = 5, 6, 8
K_CEXPR, K_CARRAY, K_CSTRUCT, K_CVEC = 10, 11, 12, 13
K_UNDEF, K_CAZ, K_CDARRAY, K_CDVEC, K_CINT, K_CFP, K_NULL = \
    14, 15, 16, 17, 18, 19, 20
K_META, K_ASM, K_INST, K_POISON = 22, 23, 24, 25


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Unsupported(Exception):
    pass


class Func:
    __slots__ = ("name", "ptr", "addr", "decl", "nparams", "nregs", "blocks",
                 "ptypes", "rtype", "decoded", "ninstr")


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        mb = P()
        err = C.c_char_p()
        if MBFile(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        m = P()
        if ParseBC(self.ctx, mb, C.byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m = m
        self.dl = GetDL(m)
        self._types = {}
        self.funcs = {}
        self.by_addr = {}
        self.gaddr = {}      # value pointer -> address
        self.globals = []    # (name, addr, size, ptr, const)
        a = 0x10000
        f = FirstFn(m)
        while f:
            fn = Func()
            fn.name = self.name(f)
            fn.ptr = f
            fn.addr = a
            fn.decl = bool(IsDecl(f))
            fn.decoded = False
            fn.nparams = CountParams(f)
            self.funcs[fn.name] = fn
            self.by_addr[a] = fn
            self.gaddr[f] = a
            a += 16
            f = NextFn(f)
        a = 0x1000000
        g = FirstGV(m)
        while g:
            nm = self.name(g)
            ty = self.type(GVValTy(g))
            if not nm.startswith("llvm."):
                size = ty_size(ty)
                al = max(16, Align(g) or 1)
                a = (a + al - 1) // al * al
                self.gaddr[g] = a
                self.globals.append((nm, a, size, g, bool(IsConstG(g))))
                a += size + 64
            g = NextGV(g)
        al = FirstAlias(m)
        while al:
            t = Aliasee(al)
            if t in self.gaddr:
                self.gaddr[al] = self.gaddr[t]
                fn = self.by_addr.get(self.gaddr[t])
                if fn:
                    self.funcs[self.name(al)] = fn
            al = NextAlias(al)

    def name(self, v):
        n = C.c_size_t()
        p = ValName(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def text(self, v):
        p = PrintV(v)
        s = C.string_at(p).decode(errors="replace")
        DispMsg(p)
        return s

    def type(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        k = TypeKind(t)
        if k == 0:
            r = ('void',)
        elif k == 8:
            r = ('i', IntW(t))
        elif k == 12:
            r = ('p',)
        elif k == 2:
            r = ('f', 32)
        elif k == 3:
            r = ('f', 64)
        elif k == 4:
            r = ('f', 80)
        elif k == 11:
            e = self.type(ElTy(t))
            n = ArrLen(t)
            st = ABISize(self.dl, ElTy(t))
            r = ('a', n, e, st, st * n)
        elif k == 10:
            n = NStruct(t)
            els = tuple(self.type(StructEl(t, i)) for i in range(n))
            offs = tuple(OffOf(self.dl, t, i) for i in range(n))
            r = ('s', els, offs, ABISize(self.dl, t))
        elif k == 13:
            e = self.type(ElTy(t))
            n = VecLen(t)
            r = ('v', n, e, ABISize(self.dl, t))
        else:
            r = ('?', k)
        self._types[t] = r
        return r

    # ---- constants -------------------------------------------------------
    def const(self, v):
        k = VKind(v)
        if k == K_CINT:
            ty = self.type(TypeOf(v))
            if ty[1] <= 64:
                return ZExtVal(v) & ((1 << ty[1]) - 1)
            s = self.text(v).split()[-1]
            if s in ("true", "false"):
                return int(s == "true")
            return int(s) & ((1 << ty[1]) - 1)
        if k == K_NULL:
            return 0
        if k in (K_UNDEF, K_POISON):
            return UNDEF
        if k == K_CFP:
            import struct
            li = C.c_int()
            d = RealVal(v, C.byref(li))
            ty = self.type(TypeOf(v))
            if ty[1] == 64:
                return struct.unpack("<Q", struct.pack("<d", d))[0]
            if ty[1] == 32:
                return struct.unpack("<I", struct.pack("<f", d))[0]
            raise Unsupported("fp80 constant")
        if k in (K_FUNC, K_GV, K_ALIAS):
            if v in self.gaddr:
                return self.gaddr[v]
            raise Unsupported("global " + self.name(v))
        if k == K_CAZ:
            return self.zero(self.type(TypeOf(v)))
        if k in (K_CARRAY, K_CSTRUCT, K_CVEC, K_CDARRAY, K_CDVEC):
            ty = self.type(TypeOf(v))
            n = ty[1] if ty[0] in 'av' else len(ty[1])
            return tuple(self.const(AggEl(v, i)) for i in range(n))
        if k == K_CEXPR:
            return self.cexpr(v)
        raise Unsupported("constant kind %d: %s" % (k, self.text(v)[:100]))

    def zero(self, ty):
        if ty[0] in ('a', 'v'):
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        if ty[0] == 's':
            return tuple(self.zero(e) for e in ty[1])
        return 0

    def cexpr(self, v):
        op = OPS.get(ConstOp(v))
        M = (1 << 64) - 1
        if op == 'gep':
            base = self.const(Op(v, 0))
            idx = [self.const(Op(v, i)) for i in range(1, NumOps(v))]
            widths = [self.type(TypeOf(Op(v, i)))[1]
                      for i in range(1, NumOps(v))]
            ty = self.type(GEPSrc(v))
            off = 0
            for n, (i, w) in enumerate(zip(idx, widths)):
                if i >> (w - 1):
                    i -= 1 << w
                if n == 0:
                    off += i * ty_size(ty)
                elif ty[0] == 's':
                    off += ty[2][i]
                    ty = ty[1][i]
                else:
                    off += i * ty[3] if ty[0] == 'a' else i * ty_size(ty[2])
                    ty = ty[2]
            return (base + off) & M
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast',
                  'trunc', 'zext'):
            x = self.const(Op(v, 0))
            ty = self.type(TypeOf(v))
            if ty[0] == 'i':
                x &= (1 << ty[1]) - 1
            return x
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            a, b = self.const(Op(v, 0)), self.const(Op(v, 1))
            w = self.type(TypeOf(v))[1]
            r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b,
                 'or': a | b, 'xor': a ^ b, 'shl': a << (b % 64)}[op]
            return r & ((1 << w) - 1)
        if op == 'icmp':
            a, b = self.const(Op(v, 0)), self.const(Op(v, 1))
            p = PRED[ICmpPred(v)]
            if p == 'eq':
                return int(a == b)
            if p == 'ne':
                return int(a != b)
        if op == 'select':
            return self.const(Op(v, 1)) if self.const(Op(v, 0)) \
                else self.const(Op(v, 2))
        raise Unsupported("constant expression " + self.text(v)[:200])

    # ---- functions -------------------------------------------------------
    def decode(self, fn):
        if fn.decoded:
            return
        regs = {}
        for i in range(fn.nparams):
            regs[GetParam(fn.ptr, i)] = i
        n = fn.nparams
        blocks = {}
        order = []
        bb = FirstBB(fn.ptr)
        while bb:
            blocks[bb] = len(order)
            order.append(bb)
            ins = FirstI(bb)
            while ins:
                regs[ins] = n
                n += 1
                ins = NextI(ins)
            bb = NextBB(bb)
        fn.nregs = n
        fn.ptypes = [self.type(TypeOf(GetParam(fn.ptr, i)))
                     for i in range(fn.nparams)]
        fn.blocks = []
        cnt = 0

        def opnd(v):
            r = regs.get(v)
            if r is not None:
                return (True, r)
            if VKind(v) == K_META:
                return (False, None)
            if VKind(v) == K_ASM:
                return (False, ('asm',))
            return (False, self.const(v))

        for bb in order:
            phis = []
            code = []
            ins = FirstI(bb)
            while ins:
                cnt += 1
                op = OPS.get(Opcode(ins), '?%d' % Opcode(ins))
                d = regs[ins]
                if op == 'phi':
                    inc = {}
                    for i in range(CountInc(ins)):
                        inc[blocks[IncBlk(ins, i)]] = opnd(IncVal(ins, i))
                    phis.append((d, inc, self.type(TypeOf(ins))))
                else:
                    code.append(self._ins(ins, op, d, opnd, blocks))
                ins = NextI(ins)
            fn.blocks.append((phis, code))
        fn.ninstr = cnt
        fn.decoded = True

    def _ins(self, ins, op, d, opnd, blocks):
        T = lambda v: self.type(TypeOf(v))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl',
                  'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = 0
            if op in ('add', 'sub', 'mul', 'shl'):
                fl = (1 if NSW(ins) else 0) | (2 if NUW(ins) else 0)
            return ('bin', d, op, T(ins), opnd(Op(ins, 0)),
                    opnd(Op(ins, 1)), fl)
        if op == 'icmp':
            return ('icmp', d, PRED[ICmpPred(ins)], T(Op(ins, 0)),
                    opnd(Op(ins, 0)), opnd(Op(ins, 1)))
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'):
            return ('cast', d, op, T(Op(ins, 0)), T(ins), opnd(Op(ins, 0)))
        if op == 'load':
            return ('load', d, T(ins), opnd(Op(ins, 0)), Align(ins),
                    Ordering(ins))
        if op == 'store':
            return ('store', d, T(Op(ins, 0)), opnd(Op(ins, 0)),
                    opnd(Op(ins, 1)), Align(ins), Ordering(ins))
        if op == 'alloca':
            ty = self.type(AllocTy(ins))
            return ('alloca', d, ty_size(ty), opnd(Op(ins, 0)),
                    Align(ins) or 16)
        if op == 'gep':
            ty = self.type(GEPSrc(ins))
            steps = []
            const = 0
            n = NumOps(ins)
            for i in range(1, n):
                iv = opnd(Op(ins, i))
                w = T(Op(ins, i))[1]
                if i == 1:
                    st, lim = ty_size(ty), None
                elif ty[0] == 's':
                    const += ty[2][iv[1]]
                    ty = ty[1][iv[1]]
                    continue
                elif ty[0] == 'a':
                    st, lim = ty[3], ty[1]
                    ty = ty[2]
                else:
                    st, lim = ty_size(ty[2]), ty[1]
                    ty = ty[2]
                if not iv[0]:
                    x = iv[1]
                    if x >> (w - 1):
                        x -= 1 << w
                    if lim is not None and lim > 0 and not 0 <= x <= lim:
                        steps.append((iv, st, lim, w))
                        continue
                    const += x * st
                else:
                    steps.append((iv, st, lim, w))
            return ('gep', d, opnd(Op(ins, 0)), const, tuple(steps),
                    bool(InBounds(ins)))
        if op == 'br':
            if IsCond(ins):
                return ('condbr', d, opnd(CondOf(ins)), blocks[Succ(ins, 0)],
                        blocks[Succ(ins, 1)])
            return ('br', d, blocks[Succ(ins, 0)])
        if op == 'switch':
            cases = []
            for i in range(2, NumOps(ins), 2):
                cases.append((opnd(Op(ins, i))[1],
                              blocks[BBOfV(Op(ins, i + 1))]))
            return ('switch', d, opnd(Op(ins, 0)), T(Op(ins, 0))[1],
                    blocks[BBOfV(Op(ins, 1))], tuple(cases))
        if op == 'ret':
            if NumOps(ins):
                return ('ret', d, opnd(Op(ins, 0)))
            return ('ret', d, None)
        if op in ('call', 'invoke'):
            callee = CalledV(ins)
            args = tuple(opnd(Op(ins, i)) for i in range(NArg(ins)))
            atys = tuple(T(Op(ins, i)) for i in range(NArg(ins)))
            kk = VKind(callee)
            nm = self.name(callee) if kk in (K_FUNC, K_ALIAS) else None
            nd = blocks[NormalDest(ins)] if op == 'invoke' else None
            return ('call', d, nm, opnd(callee), args, atys, T(ins), nd)
        if op == 'select':
            return ('select', d, T(ins), opnd(Op(ins, 0)), opnd(Op(ins, 1)),
                    opnd(Op(ins, 2)))
        if op == 'unreachable':
            return ('unreachable', d)
        if op == 'extractvalue':
            ix = Idx(ins)
            return ('extractvalue', d, opnd(Op(ins, 0)),
                    tuple(ix[i] for i in range(NumIdx(ins))))
        if op == 'insertvalue':
            ix = Idx(ins)
            return ('insertvalue', d, T(ins), opnd(Op(ins, 0)),
                    opnd(Op(ins, 1)),
                    tuple(ix[i] for i in range(NumIdx(ins))))
        if op == 'freeze':
            return ('freeze', d, T(ins), opnd(Op(ins, 0)))
        if op == 'fence':
            return ('fence', d, Ordering(ins))
        if op == 'atomicrmw':
            return ('atomicrmw', d, RMW.get(RMWOp(ins), '?'), T(ins),
                    opnd(Op(ins, 0)), opnd(Op(ins, 1)), Ordering(ins))
        if op == 'cmpxchg':
            return ('cmpxchg', d, T(Op(ins, 1)), opnd(Op(ins, 0)),
                    opnd(Op(ins, 1)), opnd(Op(ins, 2)), CXSucc(ins),
                    CXFail(ins), IsWeak(ins))
        return ('unsupported', d, op, self.text(ins))

    def global_ctors(self):
        g = FirstGV(self.m)
        while g:
            if self.name(g) == "llvm.global_ctors":
                init = GVInit(g)
                n = self.type(TypeOf(init))[1]
                out = []
                for i in range(n):
                    el = AggEl(init, i)
                    pr = ZExtVal(AggEl(el, 0))
                    fp = AggEl(el, 1)
                    out.append((pr, i, self.gaddr[fp]))
                out.sort()
                return [a for _, _, a in out]
            g = NextGV(g)
        return []


def ty_size(ty):
    k = ty[0]
    if k == 'i':
        w = ty[1]
        b = (w + 7) // 8
        if b <= 1:
            return 1
        if b <= 2:
            return 2
        if b <= 4:
            return 4
        if b <= 8:
            return 8
        return (b + 15) // 16 * 16
    if k == 'p':
        return 8
    if k == 'f':
        return {32: 4, 64: 8, 80: 16}[ty[1]]
    if k == 'a':
        return ty[4]
    if k == 's':
        return ty[3]
    if k == 'v':
        return ty[3]
    if k == 'void':
        return 0
    raise Unsupported("size of " + repr(ty))


def store_size(ty):
    if ty[0] == 'i':
        return (ty[1] + 7) // 8
    return ty_size(ty)
