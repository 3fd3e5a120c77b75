"""Reads an LLVM module through the LLVM C API into plain Python objects."""
import ctypes as C
import subprocess

_L = None


def _lib():
    global _L
    if _L is not None:
        return _L
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so",
              "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
        try:
            L = C.CDLL(p)
            break
        except OSError:
            L = None
    if L is None:
        raise RuntimeError("libLLVM-18 not found")
    V = C.c_void_p
    U = C.c_uint
    ptr_fns = """LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstGlobal
    LLVMGetNextGlobal LLVMGetInitializer LLVMTypeOf LLVMGlobalGetValueType
    LLVMGetFirstBasicBlock LLVMGetNextBasicBlock LLVMGetFirstInstruction
    LLVMGetNextInstruction LLVMGetReturnType LLVMGetElementType
    LLVMGetAllocatedType LLVMGetGEPSourceElementType LLVMGetCalledValue
    LLVMGetCalledFunctionType LLVMGetNormalDest LLVMGetUnwindDest
    LLVMBasicBlockAsValue LLVMValueAsBasicBlock LLVMGetModuleDataLayout
    LLVMGetBasicBlockTerminator LLVMContextCreate LLVMGetInstructionParent
    LLVMGetFirstParam LLVMGetNextParam LLVMGetCondition
    LLVMGetFirstGlobalAlias LLVMGetNextGlobalAlias LLVMAliasGetAliasee
    """.split()
    for n in ptr_fns:
        getattr(L, n).restype = V
    for n in ("LLVMGetOperand", "LLVMGetSuccessor", "LLVMGetIncomingValue",
              "LLVMGetIncomingBlock", "LLVMStructGetTypeAtIndex",
              "LLVMGetAggregateElement", "LLVMGetClause"):
        f = getattr(L, n)
        f.restype = V
        f.argtypes = [V, U]
    for n in ("LLVMGetNumOperands", "LLVMGetNumSuccessors", "LLVMCountIncoming",
              "LLVMGetIntTypeWidth", "LLVMCountStructElementTypes",
              "LLVMGetArrayLength", "LLVMGetNumArgOperands",
              "LLVMGetDebugLocLine", "LLVMGetDebugLocColumn", "LLVMGetNumIndices",
              "LLVMGetNumClauses", "LLVMCountParams"):
        f = getattr(L, n)
        f.restype = U
        f.argtypes = [V]
    L.LLVMGetArrayLength2.restype = C.c_uint64
    L.LLVMGetArrayLength2.argtypes = [V]
    L.LLVMGetNumOperands.restype = C.c_int
    for n in ("LLVMGetInstructionOpcode", "LLVMGetTypeKind", "LLVMGetICmpPredicate",
              "LLVMIsDeclaration", "LLVMGetValueKind", "LLVMIsGlobalConstant",
              "LLVMIsPackedStruct", "LLVMIsConditional", "LLVMIsNull",
              "LLVMIsConstant", "LLVMGetLinkage", "LLVMIsCleanup",
              "LLVMIsFunctionVarArg", "LLVMGetConstOpcode", "LLVMIsConstantString",
              "LLVMIsThreadLocal"):
        f = getattr(L, n)
        f.restype = C.c_int
        f.argtypes = [V]
    L.LLVMGetValueName2.restype = C.c_char_p
    L.LLVMGetValueName2.argtypes = [V, C.POINTER(C.c_size_t)]
    L.LLVMGetAsString.restype = C.c_void_p
    L.LLVMGetAsString.argtypes = [V, C.POINTER(C.c_size_t)]
    L.LLVMConstIntGetZExtValue.restype = C.c_uint64
    L.LLVMConstIntGetZExtValue.argtypes = [V]
    L.LLVMGetDebugLocFilename.restype = C.c_void_p
    L.LLVMGetDebugLocFilename.argtypes = [V, C.POINTER(U)]
    L.LLVMOffsetOfElement.restype = C.c_uint64
    L.LLVMOffsetOfElement.argtypes = [V, V, U]
    L.LLVMABISizeOfType.restype = C.c_uint64
    L.LLVMABISizeOfType.argtypes = [V, V]
    L.LLVMStoreSizeOfType.restype = C.c_uint64
    L.LLVMStoreSizeOfType.argtypes = [V, V]
    L.LLVMGetIndices.restype = C.POINTER(U)
    L.LLVMGetIndices.argtypes = [V]
    L.LLVMPrintValueToString.restype = C.c_void_p
    L.LLVMPrintValueToString.argtypes = [V]
    for n in ptr_fns:
        if n != "LLVMContextCreate":
            getattr(L, n).argtypes = [V]
    _L = L
    return L


OPC = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable",
       8: "add", 9: "fadd", 10: "sub", 12: "mul", 14: "udiv", 15: "sdiv",
       17: "urem", 18: "srem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and",
       24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "getelementptr", 30: "trunc", 31: "zext", 32: "sext",
       39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 44: "phi",
       45: "call", 46: "select", 49: "va_arg", 53: "extractvalue",
       54: "insertvalue", 58: "resume", 59: "landingpad", 66: "fneg",
       68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule",
        38: "sgt", 39: "sge", 40: "slt", 41: "sle"}


class Ty:
    __slots__ = ("kind", "w", "size", "elem", "n", "fields", "offs", "name")

    def __init__(self, kind):
        self.kind = kind
        self.w = self.size = self.n = 0
        self.elem = None
        self.fields = None
        self.offs = None
        self.name = None

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.w
        return self.kind


class Instr:
    __slots__ = ("op", "ty", "ops", "name", "x", "line", "file", "fn", "blk",
                 "idx", "col")

    def loc(self):
        f = self.file or "?"
        return "%s:%d" % (f, self.line)

    def __repr__(self):
        return "<%s %s %s>" % (self.name, self.op, self.loc())


class Block:
    __slots__ = ("idx", "name", "instrs", "succs", "preds", "fn", "phis")

    def __repr__(self):
        return "<bb %s#%d>" % (self.fn.name, self.idx)


class Fn:
    def __init__(self, name):
        self.name = name
        self.dem = name
        self.params = []
        self.blocks = None
        self.decl = True
        self._ref = None
        self.retty = None
        self.internal = False

    def __repr__(self):
        return "<fn %s>" % self.dem


class Global:
    __slots__ = ("name", "ty", "const", "init", "ref", "dem", "tls", "decl")

    def __repr__(self):
        return "<global %s>" % self.name


class Module:
    def __init__(self, path):
        L = _lib()
        self.L = L
        ctx = C.c_void_p(L.LLVMContextCreate())
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(
                path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        mod = C.c_void_p()
        L.LLVMParseBitcodeInContext2.argtypes = [C.c_void_p, C.c_void_p, C.c_void_p]
        if L.LLVMParseBitcodeInContext2(ctx, buf, C.byref(mod)):
            raise RuntimeError("cannot parse " + path)
        self.mod = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self._ty = {}
        self._val = {}
        self.fns = {}
        self.globals = {}
        self.by_dem = {}
        self._fnref = {}
        self._gref = {}
        f = L.LLVMGetFirstFunction(mod)
        while f:
            name = self._name(f)
            fn = Fn(name)
            fn._ref = f
            fn.decl = bool(L.LLVMIsDeclaration(f))
            fn.internal = L.LLVMGetLinkage(f) in (8, 9)
            fty = L.LLVMGlobalGetValueType(f)
            fn.retty = self.ty(L.LLVMGetReturnType(fty))
            self.fns[name] = fn
            self._fnref[f] = fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            go = Global()
            go.name = self._name(g)
            go.dem = go.name
            go.ref = g
            go.ty = self.ty(L.LLVMGlobalGetValueType(g))
            go.const = bool(L.LLVMIsGlobalConstant(g))
            go.tls = bool(L.LLVMIsThreadLocal(g))
            go.decl = bool(L.LLVMIsDeclaration(g))
            go.init = None
            self.globals[go.name] = go
            self._gref[g] = go
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(mod)
        while a:
            tgt = L.LLVMAliasGetAliasee(a)
            if tgt in self._fnref:
                self.fns[self._name(a)] = self._fnref[tgt]
                self._fnref[a] = self._fnref[tgt]
            a = L.LLVMGetNextGlobalAlias(a)
        names = list(self.fns) + list(self.globals)
        dem = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names),
                             stdout=subprocess.PIPE, text=True,
                             check=True).stdout.split("\n")
        for n, d in zip(names, dem):
            if n in self.fns:
                self.fns[n].dem = d
                self.by_dem.setdefault(d, []).append(self.fns[n])
            else:
                self.globals[n].dem = d

    def _name(self, v):
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(v, C.byref(n))
        return (s or b"").decode("utf8", "replace")

    # ---- types
    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetTypeKind(t)
        if k == 0:
            r = Ty("void")
        elif k == 8:
            r = Ty("int")
            r.w = L.LLVMGetIntTypeWidth(t)
        elif k == 12:
            r = Ty("ptr")
            r.w = 64
        elif k == 10:
            r = Ty("struct")
            n = L.LLVMCountStructElementTypes(t)
            self._ty[t] = r
            r.fields = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                r.offs = None
        elif k == 11:
            r = Ty("array")
            r.elem = self.ty(L.LLVMGetElementType(t))
            r.n = L.LLVMGetArrayLength2(t)
        elif k in (2, 3):
            r = Ty("float")
        else:
            r = Ty("other%d" % k)
        if r.kind in ("int", "ptr", "struct", "array"):
            r.size = L.LLVMABISizeOfType(self.dl, t)
        self._ty[t] = r
        return r

    # ---- values
    def val(self, v):
        r = self._val.get(v)
        if r is not None:
            return r
        r = self._mkval(v)
        self._val[v] = r
        return r

    def _mkval(self, v):
        """('ci',w,n) ('null',) ('undef',ty) ('fn',Fn) ('gv',Global)
        ('gep',base,byteoff) ('agg',[...]) ('zero',ty) ('cstr',bytes)..."""
        L = self.L
        if v in self._fnref:
            return ("fn", self._fnref[v])
        if v in self._gref:
            return ("gv", self._gref[v])
        k = L.LLVMGetValueKind(v)
        t = self.ty(L.LLVMTypeOf(v))
        # LLVM 18 value kinds: 10 ConstantExpr 11 ConstantArray
        # 12 ConstantStruct 14 Undef 15 AggregateZero 16 DataArray
        # 18 ConstantInt 20 PointerNull 22 Metadata 25 Poison
        if k == 18:
            return ("ci", t.w, L.LLVMConstIntGetZExtValue(v))
        if k == 20:
            return ("null",)
        if k in (14, 25):
            return ("undef", t)
        if k == 15:
            return ("zero", t)
        if k == 16:
            n = C.c_size_t()
            if L.LLVMIsConstantString(v):
                p = L.LLVMGetAsString(v, C.byref(n))
                return ("agg", t, [("ci", 8, b) for b in C.string_at(p, n.value)])
            return ("agg", t, [self.val(L.LLVMGetAggregateElement(v, i))
                               for i in range(t.n)])
        if k in (11, 12):
            n = L.LLVMGetNumOperands(v)
            return ("agg", t, [self.val(L.LLVMGetOperand(v, i)) for i in range(n)])
        if k == 10:
            return self._constexpr(v)
        if k == 22:
            return ("meta",)
        return ("local", v)

    def _constexpr(self, v):
        L = self.L
        op = OPC.get(L.LLVMGetConstOpcode(v), "?")
        n = L.LLVMGetNumOperands(v)
        ops = [self.val(L.LLVMGetOperand(v, i)) for i in range(n)]
        if op == "getelementptr":
            st = self.ty(L.LLVMGetGEPSourceElementType(v))
            off = 0
            cur = st
            first = True
            for o in ops[1:]:
                if o[0] != "ci":
                    return ("unknown",)
                i = o[2]
                if i >= 1 << (o[1] - 1):
                    i -= 1 << o[1]
                if first:
                    off += i * st.size
                    first = False
                elif cur.kind == "struct":
                    off += cur.offs[i]
                    cur = cur.fields[i]
                else:
                    cur = cur.elem
                    off += i * cur.size
            return ("gep", ops[0], off)
        if op in ("bitcast", "ptrtoint", "inttoptr"):
            return ops[0]
        return ("unknown",)

    def init(self, g):
        if g.init is None and not g.decl:
            i = self.L.LLVMGetInitializer(g.ref)
            if i:
                g.init = self.val(i)
        return g.init

    # ---- function bodies
    def body(self, fn):
        if fn.blocks is not None or fn.decl:
            return fn
        L = self.L
        local = {}
        p = L.LLVMGetFirstParam(fn._ref)
        fn.params = []
        while p:
            i = len(fn.params)
            nm = self._name(p) or "arg%d" % i
            fn.params.append((("L", "a%d" % i), nm, self.ty(L.LLVMTypeOf(p))))
            local[p] = ("L", "a%d" % i)
            p = L.LLVMGetNextParam(p)
        blocks = []
        bmap = {}
        b = L.LLVMGetFirstBasicBlock(fn._ref)
        raw = []
        k = 0
        while b:
            bo = Block()
            bo.idx = len(blocks)
            bo.fn = fn
            bo.instrs = []
            bo.phis = []
            bo.preds = []
            bo.succs = []
            bmap[b] = bo
            blocks.append(bo)
            ins = L.LLVMGetFirstInstruction(b)
            lst = []
            while ins:
                local[ins] = ("L", k)
                k += 1
                lst.append(ins)
                ins = L.LLVMGetNextInstruction(ins)
            raw.append(lst)
            b = L.LLVMGetNextBasicBlock(b)

        def val(v):
            if v in local:
                return local[v]
            return self.val(v)
        for bo, lst in zip(blocks, raw):
            for ins in lst:
                o = Instr()
                code = L.LLVMGetInstructionOpcode(ins)
                o.op = OPC.get(code, "op%d" % code)
                o.ty = self.ty(L.LLVMTypeOf(ins))
                o.name = local[ins]
                o.fn = fn
                o.blk = bo
                o.line = L.LLVMGetDebugLocLine(ins)
                o.col = L.LLVMGetDebugLocColumn(ins)
                n = C.c_uint()
                fnm = L.LLVMGetDebugLocFilename(ins, C.byref(n))
                o.file = C.string_at(fnm, n.value).decode() if fnm else None
                o.x = None
                op = o.op
                if op == "phi":
                    o.ops = None
                    o.x = {}
                    for i in range(L.LLVMCountIncoming(ins)):
                        o.x[bmap[L.LLVMGetIncomingBlock(ins, i)].idx] = val(
                            L.LLVMGetIncomingValue(ins, i))
                    bo.phis.append(o)
                    continue
                nops = L.LLVMGetNumOperands(ins)
                opv = [L.LLVMGetOperand(ins, i) for i in range(nops)]
                if op == "br":
                    if L.LLVMIsConditional(ins):
                        o.ops = [val(L.LLVMGetCondition(ins))]
                    else:
                        o.ops = []
                    o.x = [bmap[L.LLVMGetSuccessor(ins, i)]
                           for i in range(L.LLVMGetNumSuccessors(ins))]
                elif op == "switch":
                    o.ops = [val(opv[0])]
                    n = L.LLVMGetNumSuccessors(ins)
                    dflt = bmap[L.LLVMGetSuccessor(ins, 0)]
                    cases = []
                    for i in range(1, n):
                        c = self.val(opv[2 * i])
                        cases.append((c[2], bmap[L.LLVMGetSuccessor(ins, i)]))
                    o.x = (dflt, cases)
                elif op in ("call", "invoke"):
                    na = L.LLVMGetNumArgOperands(ins)
                    o.ops = [val(x) for x in opv[:na]]
                    callee = val(L.LLVMGetCalledValue(ins))
                    tys = [self.ty(L.LLVMTypeOf(x)) for x in opv[:na]]
                    if op == "invoke":
                        o.x = (callee, tys, bmap[L.LLVMGetNormalDest(ins)],
                               bmap[L.LLVMGetUnwindDest(ins)])
                    else:
                        o.x = (callee, tys, None, None)
                elif op == "getelementptr":
                    o.ops = [val(x) for x in opv]
                    o.x = self.ty(L.LLVMGetGEPSourceElementType(ins))
                elif op == "alloca":
                    o.ops = [val(x) for x in opv]
                    o.x = self.ty(L.LLVMGetAllocatedType(ins))
                elif op == "icmp":
                    o.ops = [val(x) for x in opv]
                    o.x = PRED[L.LLVMGetICmpPredicate(ins)]
                elif op in ("extractvalue", "insertvalue"):
                    o.ops = [val(x) for x in opv]
                    idx = L.LLVMGetIndices(ins)
                    o.x = [idx[i] for i in range(L.LLVMGetNumIndices(ins))]
                elif op == "landingpad":
                    o.ops = [val(L.LLVMGetClause(ins, i))
                             for i in range(L.LLVMGetNumClauses(ins))]
                    o.x = bool(L.LLVMIsCleanup(ins))
                elif op in ("load",):
                    o.ops = [val(x) for x in opv]
                elif op == "store":
                    o.ops = [val(x) for x in opv]
                    o.x = self.ty(L.LLVMTypeOf(opv[0]))
                elif op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast"):
                    o.ops = [val(x) for x in opv]
                    o.x = self.ty(L.LLVMTypeOf(opv[0]))
                else:
                    o.ops = [val(x) for x in opv]
                bo.instrs.append(o)
            for i, o in enumerate(bo.instrs):
                o.idx = i
            t = bo.instrs[-1]
            if t.op == "br":
                bo.succs = list(t.x)
            elif t.op == "switch":
                bo.succs = [t.x[0]] + [b for _, b in t.x[1]]
            elif t.op == "invoke":
                bo.succs = [t.x[2], t.x[3]]
        for bo in blocks:
            for s in bo.succs:
                if bo not in s.preds:
                    s.preds.append(bo)
        fn.blocks = blocks
        return fn
