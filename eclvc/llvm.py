"""Minimal ctypes binding to libLLVM-18's C API: load bitcode and expose functions / instructions lazily."""
import ctypes as C

_L = None
P = C.c_void_p


def lib():
    global _L
    if _L is None:
        for n in ('libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so'):
            try:
                _L = C.CDLL(n)
                break
            except OSError:
                continue
        if _L is None:
            raise RuntimeError('libLLVM-18 not found')
        _declare(_L)
    return _L


def _declare(L):
    def d(n, r, *a):
        f = getattr(L, n)
        f.restype = r
        f.argtypes = list(a)
    U = C.c_uint
    d('LLVMContextCreate', P)
    d('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
    d('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
    d('LLVMGetModuleDataLayout', P, P)
    for n in ('LLVMGetFirstFunction', 'LLVMGetNextFunction', 'LLVMGetFirstGlobal', 'LLVMGetNextGlobal',
              'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock', 'LLVMGetFirstInstruction',
              'LLVMGetNextInstruction', 'LLVMGetFirstParam', 'LLVMGetNextParam', 'LLVMTypeOf',
              'LLVMGetElementType', 'LLVMGetBasicBlockTerminator', 'LLVMGetInitializer',
              'LLVMGlobalGetValueType', 'LLVMGetAllocatedType', 'LLVMGetGEPSourceElementType',
              'LLVMGetCalledValue', 'LLVMGetCalledFunctionType', 'LLVMGetReturnType', 'LLVMValueAsBasicBlock',
              'LLVMGetCondition', 'LLVMAliasGetAliasee'):
        d(n, P, P)
    for n in ('LLVMCountBasicBlocks', 'LLVMGetInstructionOpcode', 'LLVMGetICmpPredicate', 'LLVMGetFCmpPredicate',
              'LLVMGetTypeKind', 'LLVMGetIntTypeWidth', 'LLVMCountStructElementTypes', 'LLVMGetArrayLength',
              'LLVMGetVectorSize', 'LLVMGetNumOperands', 'LLVMGetNumArgOperands', 'LLVMCountIncoming',
              'LLVMIsDeclaration', 'LLVMGetValueKind', 'LLVMIsConstant', 'LLVMGetNumIndices', 'LLVMIsPackedStruct',
              'LLVMIsConditional', 'LLVMGetNumSuccessors', 'LLVMGetConstOpcode', 'LLVMIsGlobalConstant',
              'LLVMGetDebugLocLine', 'LLVMIsNull', 'LLVMIsConstantString', 'LLVMGetNumMaskElements',
              'LLVMCountParams', 'LLVMIsFunctionVarArg'):
        d(n, U, P)
    d('LLVMGetOperand', P, P, U)
    d('LLVMGetSuccessor', P, P, U)
    d('LLVMGetIncomingValue', P, P, U)
    d('LLVMGetIncomingBlock', P, P, U)
    d('LLVMGetArgOperand', P, P, U)
    d('LLVMStructGetTypeAtIndex', P, P, U)
    d('LLVMGetIndices', C.POINTER(U), P)
    d('LLVMGetMaskValue', C.c_int, P, U)
    d('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
    d('LLVMConstIntGetZExtValue', C.c_uint64, P)
    d('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
    d('LLVMABISizeOfType', C.c_uint64, P, P)
    d('LLVMOffsetOfElement', C.c_uint64, P, P, U)
    d('LLVMGetAggregateElement', P, P, U)
    d('LLVMGetAsString', C.c_char_p, P, C.POINTER(C.c_size_t))
    d('LLVMGetMDKindIDInContext', U, P, C.c_char_p, U)
    d('LLVMGetMetadata', P, P, U)
    d('LLVMPrintValueToString', P, P)
    d('LLVMPrintTypeToString', P, P)
    d('LLVMGetDebugLocFilename', C.c_char_p, P, C.POINTER(U))
    d('LLVMGetInlineAsmAsmString', C.c_char_p, P, C.POINTER(C.c_size_t)) if hasattr(L, 'LLVMGetInlineAsmAsmString') else None


# LLVMTypeKind
VOID, HALF, FLOAT, DOUBLE, X86FP80, FP128, PPC, LABEL, INT, FUNC, STRUCT, ARRAY, POINTER, VECTOR = range(14)
# LLVMValueKind
VK = ['Argument', 'BasicBlock', 'MemoryUse', 'MemoryDef', 'MemoryPhi', 'Function', 'GlobalAlias', 'GlobalIFunc',
      'GlobalVariable', 'BlockAddress', 'ConstantExpr', 'ConstantArray', 'ConstantStruct', 'ConstantVector',
      'Undef', 'AggregateZero', 'DataArray', 'DataVector', 'ConstantInt', 'ConstantFP', 'NullPtr', 'TokenNone',
      'Metadata', 'InlineAsm', 'Instruction', 'Poison', 'TargetNone']

OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub',
       12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl',
       21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep',
       30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc',
       38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 60: 'addrspacecast', 66: 'fneg', 68: 'freeze',
       58: 'resume', 59: 'landingpad', 64: 'catchpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Ty:
    """decoded LLVM type"""
    __slots__ = ('kind', 'w', 'elems', 'offs', 'elem', 'n', 'size', 'ref', 'isbool')


class Module:
    def __init__(self, path):
        L = lib()
        self.L = L
        ctx = L.LLVMContextCreate()
        buf = P()
        err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError('read %s: %s' % (path, err.value))
        m = P()
        if L.LLVMParseIRInContext(ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError('parse %s: %s' % (path, err.value))
        self.m = m
        self.td = L.LLVMGetModuleDataLayout(m)
        self.types = {}
        self._bool = None
        self.md_range = L.LLVMGetMDKindIDInContext(ctx, b'range', 5)
        self.functions = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            self.functions[self.name(f)] = f
            f = L.LLVMGetNextFunction(f)
        self.globals = {}
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globals[self.name(g)] = g
            g = L.LLVMGetNextGlobal(g)

    def boolty(self, t):
        if self._bool is None:
            r = Ty()
            for k in Ty.__slots__:
                setattr(r, k, getattr(t, k))
            r.isbool = True
            self._bool = r
        return self._bool

    def name(self, v):
        n = C.c_size_t()
        return self.L.LLVMGetValueName2(v, C.byref(n)).decode()

    def str(self, v):
        p = self.L.LLVMPrintValueToString(v)
        return C.cast(p, C.c_char_p).value.decode()

    def ty(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        L = self.L
        r = Ty()
        r.ref = t
        r.isbool = False
        r.elems = r.offs = r.elem = None
        r.n = r.w = 0
        k = L.LLVMGetTypeKind(t)
        r.kind = k
        self.types[t] = r
        if k not in (VOID, LABEL, FUNC, 14, 15, 16):
            try:
                r.size = L.LLVMABISizeOfType(self.td, t)
            except Exception:
                r.size = 0
        else:
            r.size = 0
        if k == INT:
            r.w = L.LLVMGetIntTypeWidth(t)
        elif k == STRUCT:
            n = L.LLVMCountStructElementTypes(t)
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
            r.n = n
        elif k == ARRAY:
            r.elem = self.ty(L.LLVMGetElementType(t))
            r.n = L.LLVMGetArrayLength(t)
        elif k == VECTOR:
            r.elem = self.ty(L.LLVMGetElementType(t))
            r.n = L.LLVMGetVectorSize(t)
        return r
