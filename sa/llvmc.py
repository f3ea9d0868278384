"""Loader: LLVM bitcode/IR text -> plain Python object model, through the
LLVM-C API of the installed libLLVM-18 (ctypes, nothing to compile)."""
import ctypes as C
import os

_CANDS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so",
          "libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"]
_lib = None


def lib():
    global _lib
    if _lib is not None:
        return _lib
    err = None
    for c in _CANDS:
        try:
            L = C.CDLL(c)
            break
        except OSError as e:
            err = e
    else:
        raise RuntimeError("libLLVM-18 not found: %s" % err)
    P, U, S, I = C.c_void_p, C.c_uint, C.c_char_p, C.c_int

    def d(name, res, *args):
        f = getattr(L, name)
        f.restype = res
        f.argtypes = list(args)
    SZ = C.POINTER(C.c_size_t)
    UP = C.POINTER(C.c_uint)
    d("LLVMContextCreate", P)
    d("LLVMGetBasicBlockName", S, P)
    d("LLVMContextSetDiagnosticHandler", None, P, P, P)
    d("LLVMContextDispose", None, P)
    d("LLVMCreateMemoryBufferWithContentsOfFile", I, S, C.POINTER(P), C.POINTER(S))
    d("LLVMParseIRInContext", I, P, P, C.POINTER(P), C.POINTER(S))
    d("LLVMDisposeModule", None, P)
    for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstBasicBlock",
              "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction", "LLVMGetNextInstruction",
              "LLVMGetFirstGlobal", "LLVMGetNextGlobal", "LLVMGetInitializer", "LLVMTypeOf",
              "LLVMGlobalGetValueType", "LLVMGetAllocatedType", "LLVMGetGEPSourceElementType",
              "LLVMGetCalledValue", "LLVMGetFirstParam", "LLVMGetNextParam",
              "LLVMInstructionGetDebugLoc", "LLVMDILocationGetScope", "LLVMDILocationGetInlinedAt",
              "LLVMDIScopeGetFile", "LLVMGetReturnType", "LLVMGetElementType", "LLVMValueAsBasicBlock",
              "LLVMGetSubprogram", "LLVMGetSwitchDefaultDest", "LLVMGetCondition", "LLVMGetCalledFunctionType",
              "LLVMGetModuleDataLayout"):
        d(n, P, P)
    d("LLVMGetParam", P, P, U)
    d("LLVMCountParams", U, P)
    d("LLVMGetNumOperands", I, P)
    d("LLVMGetOperand", P, P, U)
    d("LLVMGetInstructionOpcode", U, P)
    d("LLVMGetValueKind", U, P)
    d("LLVMGetValueName2", S, P, SZ)
    d("LLVMPrintTypeToString", P, P)
    d("LLVMPrintValueToString", P, P)
    d("LLVMDisposeMessage", None, P)
    d("LLVMGetTypeKind", U, P)
    d("LLVMGetStructName", S, P)
    d("LLVMCountStructElementTypes", U, P)
    d("LLVMStructGetTypeAtIndex", P, P, U)
    d("LLVMGetArrayLength", U, P)
    d("LLVMGetIntTypeWidth", U, P)
    d("LLVMConstIntGetSExtValue", C.c_longlong, P)
    d("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
    d("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(I))
    d("LLVMGetICmpPredicate", U, P)
    d("LLVMGetFCmpPredicate", U, P)
    d("LLVMCountIncoming", U, P)
    d("LLVMGetIncomingValue", P, P, U)
    d("LLVMGetIncomingBlock", P, P, U)
    d("LLVMGetNumSuccessors", U, P)
    d("LLVMGetSuccessor", P, P, U)
    d("LLVMIsGlobalConstant", I, P)
    d("LLVMIsThreadLocal", I, P)
    d("LLVMIsDeclaration", I, P)
    d("LLVMGetLinkage", U, P)
    d("LLVMDILocationGetLine", U, P)
    d("LLVMDILocationGetColumn", U, P)
    d("LLVMDISubprogramGetLine", U, P)
    d("LLVMDIFileGetFilename", P, P, UP)
    d("LLVMDIFileGetDirectory", P, P, UP)
    d("LLVMGetMetadataKind", U, P)
    d("LLVMGetConstOpcode", U, P)
    d("LLVMIsConditional", I, P)
    d("LLVMGetVolatile", I, P)
    d("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
    d("LLVMABISizeOfType", C.c_ulonglong, P, P)
    _lib = L
    return L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr',
       66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv',
       15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr',
       23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc',
       31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc',
       38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'va_arg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze',
       55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge',
        40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno',
        9: 'ueq', 10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
TERM = {'ret', 'br', 'switch', 'unreachable', 'indirectbr'}


class Ty:
    """type: kind in int/ptr/double/float/struct/array/void/func/other"""
    __slots__ = ('kind', 'name', 'elems', 'n', 'width', 's', 'size', 'offs')

    def __init__(s):
        s.kind = 'other'; s.name = None; s.elems = None; s.n = 0; s.width = 0; s.s = ''; s.size = 0
        s.offs = None

    def __repr__(s):
        return s.s


class Value:
    __slots__ = ('ty', 'name', 'users')
    op = None

    def __init__(s, ty=None, name=None):
        s.ty = ty; s.name = name; s.users = []


class Const(Value):
    """integer/float/null/undef constant or constant expression"""
    __slots__ = ('kind', 'val', 'ops', 'cop', 'idx')
    op = 'const'

    def __init__(s, ty, kind, val=None):
        Value.__init__(s, ty, None)
        s.kind = kind; s.val = val; s.ops = (); s.cop = None; s.idx = None

    def __repr__(s):
        return '%s' % (s.val if s.val is not None else s.kind)


class Arg(Value):
    __slots__ = ('fn', 'idx')
    op = 'arg'

    def __repr__(s):
        return '%%%s' % (s.name or ('arg%d' % s.idx))


class Global(Value):
    __slots__ = ('init', 'is_const', 'tls', 'is_decl', 'vty', 'linkage', 'text')
    op = 'global'

    def __repr__(s):
        return '@' + s.name


class Loc:
    __slots__ = ('file', 'line', 'col', 'fn', 'inl')

    def __init__(s, file, line, col, fn, inl):
        s.file = file; s.line = line; s.col = col; s.fn = fn; s.inl = inl

    def key(s):
        return (s.file, s.line, s.col)

    def __str__(s):
        t = '%s:%d' % (s.file, s.line)
        if s.fn:
            t += ' (%s)' % s.fn
        return t

    def full(s):
        out, x = [], s
        while x is not None:
            out.append(str(x)); x = x.inl
        return ' <- '.join(out)


class Instr(Value):
    __slots__ = ('op', 'ops', 'bb', 'loc', 'pred', 'inc', 'succ', 'cases', 'aty', 'callee', 'idx', 'id', 'extra')

    def __init__(s, op):
        s.op = op; s.ops = (); s.bb = None; s.loc = None; s.pred = None; s.inc = None; s.succ = ()
        s.cases = None; s.aty = None; s.callee = None; s.users = []; s.idx = -1; s.id = -1; s.extra = None
        s.ty = None; s.name = None

    @property
    def fn(s):
        return s.bb.fn

    def __repr__(s):
        return '%%%s=%s' % (s.name or s.id, s.op)


class Block:
    __slots__ = ('fn', 'name', 'ins', 'preds', 'succs', 'id')

    def __init__(s, fn, name, i):
        s.fn = fn; s.name = name; s.ins = []; s.preds = []; s.succs = []; s.id = i

    @property
    def term(s):
        return s.ins[-1]

    def __repr__(s):
        return 'bb%d' % s.id


class Function(Value):
    __slots__ = ('args', 'blocks', 'is_decl', 'rty', 'linkage', 'file', 'line', 'module', '_instrs', 'varargs')
    op = 'function'

    def __repr__(s):
        return '@' + s.name

    def instrs(s):
        for b in s.blocks:
            for i in b.ins:
                yield i


class Module:
    def __init__(s):
        s.functions = {}; s.globals = {}; s.structs = {}; s.types = {}

    def defined(s):
        return [f for f in s.functions.values() if not f.is_decl]


def _str(L, p):
    r = C.cast(p, C.c_char_p).value.decode('utf8', 'replace')
    L.LLVMDisposeMessage(p)
    return r


def load(path, want_dbg=True, repo_root=None):
    L = lib()
    ctx = L.LLVMContextCreate()
    buf = C.c_void_p(); err = C.c_char_p()
    if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
        raise RuntimeError("cannot read %s: %s" % (path, err.value))
    mod = C.c_void_p()
    if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(err)):
        raise RuntimeError("cannot parse %s: %s" % (path, err.value))
    dl = L.LLVMGetModuleDataLayout(mod)
    M = Module()
    tcache = {}
    KIND = {0: 'void', 2: 'float', 3: 'double', 4: 'fp80', 8: 'int', 9: 'func', 10: 'struct', 11: 'array',
            12: 'ptr', 7: 'label', 13: 'vector', 14: 'metadata'}
    # enum LLVMTypeKind in 18: Void0 Half1 Float2 Double3 X86FP80 4 FP128 5 PPC 6 Label7 Integer8 Function9
    # Struct10 Array11 Pointer12 Vector13 Metadata14

    def ty(p):
        t = tcache.get(p)
        if t is not None:
            return t
        t = Ty(); tcache[p] = t
        k = KIND.get(L.LLVMGetTypeKind(p), 'other')
        t.kind = k
        if k == 'int':
            t.width = L.LLVMGetIntTypeWidth(p); t.s = 'i%d' % t.width; t.size = (t.width + 7) // 8
        elif k == 'struct':
            n = L.LLVMGetStructName(p)
            t.name = n.decode() if n else None
            t.elems = [ty(L.LLVMStructGetTypeAtIndex(p, i)) for i in range(L.LLVMCountStructElementTypes(p))]
            t.s = '%' + t.name if t.name else '{%s}' % ','.join(e.s for e in t.elems)
            try:
                if t.elems or not t.name or True:
                    if t.elems:
                        t.size = L.LLVMABISizeOfType(dl, p)
                        t.offs = [L.LLVMOffsetOfElement(dl, p, i) for i in range(len(t.elems))]
            except Exception:
                pass
            if t.name:
                M.structs[t.name] = t
        elif k == 'array':
            t.elems = [ty(L.LLVMGetElementType(p))]; t.n = L.LLVMGetArrayLength(p)
            t.s = '[%d x %s]' % (t.n, t.elems[0].s); t.size = t.n * t.elems[0].size
        elif k == 'ptr':
            t.s = 'ptr'; t.size = 8
        elif k == 'double':
            t.s = 'double'; t.size = 8
        elif k == 'float':
            t.s = 'float'; t.size = 4
        else:
            t.s = k
        return t

    vals = {}
    szt = C.c_size_t()

    def nm(p):
        r = L.LLVMGetValueName2(p, C.byref(szt))
        return r.decode() if r else None

    # value kinds (LLVMValueKind)
    # 0 Argument 1 BasicBlock 2 MemoryUse 3 MemDef 4 MemPhi 5 Function 6 GlobalAlias 7 GlobalIFunc
    # 8 GlobalVariable 9 BlockAddress 10 ConstantExpr 11 ConstantArray 12 ConstantStruct 13 ConstantVector
    # 14 Undef 15 AggregateZero 16 DataArray 17 DataVector 18 ConstantInt 19 ConstantFP 20 PointerNull
    # 21 TokenNone 22 MetadataAsValue 23 InlineAsm 24 Instruction 25 Poison 26 TargetNone
    def cval(p):
        v = vals.get(p)
        if v is not None:
            return v
        k = L.LLVMGetValueKind(p)
        t = ty(L.LLVMTypeOf(p)) if k not in (1, 22) else None
        if k == 18:
            v = Const(t, 'int', L.LLVMConstIntGetSExtValue(p) if t.width <= 64 else 0)
            if t.width == 1:
                v.val = 1 if v.val else 0
        elif k == 19:
            lo = C.c_int()
            v = Const(t, 'fp', L.LLVMConstRealGetDouble(p, C.byref(lo)))
        elif k == 20:
            v = Const(t, 'null', 0)
        elif k in (14, 25):
            v = Const(t, 'undef')
        elif k == 15:
            v = Const(t, 'zero')
        elif k == 10:
            v = Const(t, 'expr')
            vals[p] = v
            v.cop = OPC.get(L.LLVMGetConstOpcode(p), '?')
            v.ops = tuple(cval(L.LLVMGetOperand(p, i)) for i in range(L.LLVMGetNumOperands(p)))
            if v.cop == 'gep':
                v.idx = ty(L.LLVMGetGEPSourceElementType(p))
            return v
        elif k in (11, 12, 13):
            v = Const(t, 'agg')
            vals[p] = v
            v.ops = tuple(cval(L.LLVMGetOperand(p, i)) for i in range(L.LLVMGetNumOperands(p)))
            return v
        elif k == 22:
            v = Const(None, 'md')
        elif k == 16:
            v = Const(t, 'data')
        else:
            v = Const(t, 'other%d' % k)
        vals[p] = v
        return v

    filecache = {}

    def fname(scope):
        r = filecache.get(scope)
        if r is None:
            f = L.LLVMDIScopeGetFile(scope)
            if not f:
                r = '?'
            else:
                n = C.c_uint()
                q = L.LLVMDIFileGetFilename(f, C.byref(n))
                r = C.string_at(q, n.value).decode() if q else '?'
                q = L.LLVMDIFileGetDirectory(f, C.byref(n))
                dn = C.string_at(q, n.value).decode() if q else ''
                if not r.startswith('/'):
                    r = os.path.normpath(os.path.join(dn, r))
                if repo_root and r.startswith(repo_root):
                    r = r[len(repo_root):].lstrip('/')
            filecache[scope] = r
        return r

    loccache = {}

    def loc(p):
        if not p:
            return None
        r = loccache.get(p)
        if r is None:
            sc = L.LLVMDILocationGetScope(p)
            ia = L.LLVMDILocationGetInlinedAt(p)
            r = Loc(fname(sc), L.LLVMDILocationGetLine(p), L.LLVMDILocationGetColumn(p), None,
                    loc(ia) if ia else None)
            loccache[p] = r
        return r

    g = L.LLVMGetFirstGlobal(mod)
    gl = []
    while g:
        v = Global(ty(L.LLVMTypeOf(g)), nm(g))
        v.init = None; v.is_const = bool(L.LLVMIsGlobalConstant(g)); v.tls = bool(L.LLVMIsThreadLocal(g))
        v.is_decl = bool(L.LLVMIsDeclaration(g)); v.vty = ty(L.LLVMGlobalGetValueType(g))
        v.linkage = L.LLVMGetLinkage(g); v.text = None
        vals[g] = v
        M.globals[v.name] = v
        gl.append((g, v))
        g = L.LLVMGetNextGlobal(g)
    f = L.LLVMGetFirstFunction(mod)
    fl = []
    while f:
        v = Function(ty(L.LLVMTypeOf(f)), nm(f))
        ft = L.LLVMGlobalGetValueType(f)
        v.rty = ty(L.LLVMGetReturnType(ft))
        v.is_decl = bool(L.LLVMIsDeclaration(f)); v.linkage = L.LLVMGetLinkage(f)
        v.blocks = []; v.args = []; v.module = M; v.file = None; v.line = 0
        for i in range(L.LLVMCountParams(f)):
            a = L.LLVMGetParam(f, i)
            av = Arg(ty(L.LLVMTypeOf(a)), nm(a)); av.fn = v; av.idx = i
            v.args.append(av); vals[a] = av
        sp = L.LLVMGetSubprogram(f)
        if sp:
            v.line = L.LLVMDISubprogramGetLine(sp); v.file = fname(sp)
        vals[f] = v
        M.functions[v.name] = v
        fl.append((f, v))
        f = L.LLVMGetNextFunction(f)
    for g, v in gl:
        if not v.is_decl:
            v.init = cval(L.LLVMGetInitializer(g))
            if v.init.kind == 'data':
                v.text = _str(L, L.LLVMPrintValueToString(L.LLVMGetInitializer(g)))
    for f, v in fl:
        if v.is_decl:
            continue
        bmap = {}
        bl = []
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            bn = L.LLVMGetBasicBlockName(b)
            B = Block(v, bn.decode() if bn else None, len(bl))
            bmap[b] = B; bl.append((b, B)); v.blocks.append(B)
            b = L.LLVMGetNextBasicBlock(b)
        todo = []
        n = 0
        for b, B in bl:
            i = L.LLVMGetFirstInstruction(b)
            while i:
                op = OPC.get(L.LLVMGetInstructionOpcode(i), '?')
                skip = False
                if op == 'call':
                    cv = L.LLVMGetCalledValue(i)
                    if L.LLVMGetValueKind(cv) == 5:
                        cn = vals[cv].name
                        if cn.startswith('llvm.dbg.') or cn.startswith('llvm.lifetime') or \
                           cn.startswith('llvm.experimental.noalias'):
                            skip = True
                if not skip:
                    I = Instr(op)
                    I.ty = ty(L.LLVMTypeOf(i)); I.name = nm(i) if I.ty.kind != 'void' else None
                    I.bb = B; I.id = n; n += 1
                    if want_dbg:
                        I.loc = loc(L.LLVMInstructionGetDebugLoc(i))
                    vals[i] = I
                    B.ins.append(I)
                    todo.append((i, I))
                i = L.LLVMGetNextInstruction(i)
        for i, I in todo:
            op = I.op
            if op == 'phi':
                inc = []
                for k in range(L.LLVMCountIncoming(i)):
                    q = L.LLVMGetIncomingValue(i, k)
                    inc.append((vals.get(q) or cval(q), bmap[L.LLVMGetIncomingBlock(i, k)]))
                I.inc = inc
                I.ops = tuple(a for a, _ in inc)
            elif op in ('br', 'switch'):
                ns = L.LLVMGetNumSuccessors(i)
                I.succ = tuple(bmap[L.LLVMGetSuccessor(i, k)] for k in range(ns))
                if op == 'br':
                    if L.LLVMIsConditional(i):
                        q = L.LLVMGetCondition(i)
                        I.ops = (vals.get(q) or cval(q),)
                else:
                    q = L.LLVMGetOperand(i, 0)
                    I.ops = (vals.get(q) or cval(q),)
                    # successors: [default, case...]; operands: cond, default, (val, bb)*
                    I.cases = []
                    for k in range(1, ns):
                        cvp = L.LLVMGetOperand(i, 2 * k)
                        I.cases.append((cval(cvp).val, I.succ[k]))
            elif op == 'call':
                nop = L.LLVMGetNumOperands(i)
                o = []
                for k in range(nop):
                    q = L.LLVMGetOperand(i, k)
                    o.append(vals.get(q) or cval(q))
                I.callee = o[-1]
                I.ops = tuple(o[:-1])
            else:
                o = []
                for k in range(L.LLVMGetNumOperands(i)):
                    q = L.LLVMGetOperand(i, k)
                    o.append(vals.get(q) or cval(q))
                I.ops = tuple(o)
                if op == 'icmp':
                    I.pred = ICMP[L.LLVMGetICmpPredicate(i)]
                elif op == 'fcmp':
                    I.pred = FCMP[L.LLVMGetFCmpPredicate(i)]
                elif op == 'gep':
                    I.aty = ty(L.LLVMGetGEPSourceElementType(i))
                elif op == 'alloca':
                    I.aty = ty(L.LLVMGetAllocatedType(i))
                elif op in ('extractvalue', 'insertvalue'):
                    I.extra = _str(L, L.LLVMPrintValueToString(i))
            for o in I.ops:
                if o is not None:
                    o.users.append(I)
            if op == 'call' and I.callee is not None:
                I.callee.users.append(I)
        for b, B in bl:
            t = B.ins[-1]
            B.succs = list(t.succ)
            for s in B.succs:
                if B not in s.preds:
                    s.preds.append(B)
    # function names for locations: smallest enclosing subprogram by scope is costly to ask
    # through the C API; resolved by (file,line) in build.annotate()
    L.LLVMDisposeModule(mod)
    L.LLVMContextDispose(ctx)
    return M
