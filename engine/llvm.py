"""Loads LLVM IR (from clang, run on /repo's current sources) into Python objects via the LLVM-C API."""
import ctypes, ctypes.util, re, subprocess, os
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_longlong, byref, POINTER, c_size_t

_L = None


def L():
    global _L
    if _L is None:
        for n in ('libLLVM-18.so', 'libLLVM-18.so.1', '/usr/lib/llvm-18/lib/libLLVM.so', '/usr/lib/llvm-18/lib/libLLVM-18.so'):
            try:
                _L = ctypes.CDLL(n)
                break
            except OSError:
                pass
        if _L is None:
            raise RuntimeError('libLLVM-18 not found')
        _sigs(_L)
    return _L


def _sigs(l):
    V, S, U, I = c_void_p, c_char_p, c_uint, c_int
    def sig(n, r, *a):
        f = getattr(l, n)
        f.restype = r
        f.argtypes = list(a)
    sig('LLVMContextCreate', V)
    sig('LLVMContextDispose', None, V)
    sig('LLVMCreateMemoryBufferWithContentsOfFile', I, S, POINTER(V), POINTER(c_char_p))
    sig('LLVMParseBitcodeInContext2', I, V, V, POINTER(V))
    sig('LLVMParseIRInContext', I, V, V, POINTER(V), POINTER(c_char_p))
    sig('LLVMDisposeModule', None, V)
    for n in ('LLVMGetFirstFunction', 'LLVMGetNextFunction', 'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock',
              'LLVMGetFirstInstruction', 'LLVMGetNextInstruction', 'LLVMTypeOf', 'LLVMGetElementType',
              'LLVMGetCalledValue', 'LLVMGetCalledFunctionType', 'LLVMGetAllocatedType', 'LLVMGetGEPSourceElementType',
              'LLVMGetBasicBlockTerminator', 'LLVMGlobalGetValueType', 'LLVMGetInitializer', 'LLVMGetEntryBasicBlock',
              'LLVMGetFirstGlobal', 'LLVMGetNextGlobal', 'LLVMGetReturnType'):
        sig(n, V, V)
    sig('LLVMGetParam', V, V, U)
    sig('LLVMGetBasicBlockParent', V, V)
    sig('LLVMGetOperand', V, V, U)
    sig('LLVMGetNumOperands', I, V)
    sig('LLVMGetIncomingValue', V, V, U)
    sig('LLVMGetIncomingBlock', V, V, U)
    sig('LLVMGetSuccessor', V, V, U)
    sig('LLVMStructGetTypeAtIndex', V, V, U)
    for n in ('LLVMCountParams', 'LLVMCountIncoming', 'LLVMGetNumSuccessors', 'LLVMGetIntTypeWidth',
              'LLVMCountStructElementTypes', 'LLVMGetNumArgOperands', 'LLVMGetArrayLength', 'LLVMGetNumIndices',
              'LLVMGetDebugLocLine', 'LLVMGetAlignment', 'LLVMGetVectorSize'):
        sig(n, U, V)
    for n in ('LLVMIsDeclaration', 'LLVMGetInstructionOpcode', 'LLVMGetICmpPredicate', 'LLVMGetFCmpPredicate',
              'LLVMGetTypeKind', 'LLVMGetNSW', 'LLVMGetNUW', 'LLVMGetExact', 'LLVMIsConditional', 'LLVMGetValueKind',
              'LLVMIsNull', 'LLVMIsUndef', 'LLVMIsPoison', 'LLVMGetConstOpcode', 'LLVMIsGlobalConstant', 'LLVMIsInBounds',
              'LLVMIsConstantString', 'LLVMIsFunctionVarArg'):
        sig(n, I, V)
    sig('LLVMGetValueName2', c_void_p, V, POINTER(c_size_t))
    sig('LLVMGetIndices', POINTER(U), V)
    sig('LLVMConstIntGetSExtValue', c_longlong, V)
    sig('LLVMConstIntGetZExtValue', c_ulonglong, V)
    sig('LLVMGetModuleDataLayout', V, V)
    sig('LLVMOffsetOfElement', c_ulonglong, V, V, U)
    sig('LLVMABISizeOfType', c_ulonglong, V, V)
    sig('LLVMStoreSizeOfType', c_ulonglong, V, V)
    sig('LLVMRunPasses', V, V, S, V, V)
    sig('LLVMCreatePassBuilderOptions', V)
    sig('LLVMDisposePassBuilderOptions', None, V)
    sig('LLVMGetErrorMessage', c_void_p, V)
    sig('LLVMGetEnumAttributeKindForName', U, S, c_size_t)
    sig('LLVMCreateEnumAttribute', V, V, U, c_ulonglong)
    sig('LLVMAddAttributeAtIndex', None, V, U, V)
    sig('LLVMRemoveEnumAttributeAtIndex', None, V, U, U)
    sig('LLVMGetDebugLocFilename', c_void_p, V, POINTER(U))
    sig('LLVMPrintValueToString', c_void_p, V)
    sig('LLVMGetModuleContext', V, V)
    sig('LLVMGetElementAsConstant', V, V, U)
    sig('LLVMGetAsString', c_void_p, V, POINTER(c_size_t))
    sig('LLVMSetLinkage', None, V, I)
    sig('LLVMGetAggregateElement', V, V, U)


OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul',
       13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc',
       31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       53: 'extractvalue', 54: 'insertvalue', 66: 'fneg', 68: 'freeze', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}


class Ty:
    __slots__ = ('k', 'w', 'size', 'store', 'elems', 'offs', 'n')

    def __init__(self, k):
        self.k = k
        self.w = self.size = self.store = self.n = 0
        self.elems = self.offs = None


class Ins:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'line', 'file', 'nsw')


class Block:
    __slots__ = ('i', 'ins', 'succ', 'pred', 'fn')


class Fn:
    __slots__ = ('name', 'dem', 'args', 'blocks', 'retty', 'loops', 'rpo', 'idom', 'names')


class Global:
    __slots__ = ('name', 'size', 'init', 'const', 'ty')


class Module:
    pass


def cstr(p, n=None):
    return ctypes.string_at(p, n).decode('utf-8', 'replace') if n is not None else ctypes.string_at(p).decode('utf-8', 'replace')


class Loader:
    def __init__(self, path):
        l = self.l = L()
        self.ctx = l.LLVMContextCreate()
        buf, msg = c_void_p(), c_char_p()
        if l.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(buf), byref(msg)):
            raise RuntimeError(msg.value)
        m = c_void_p()
        if l.LLVMParseBitcodeInContext2(self.ctx, buf, byref(m)):
            raise RuntimeError('cannot parse bitcode')
        self.m = m
        self.dl = l.LLVMGetModuleDataLayout(m)
        self.tys = {}

    def name(self, v):
        n = c_size_t()
        p = self.l.LLVMGetValueName2(v, byref(n))
        return cstr(p, n.value)

    def functions(self):
        f = self.l.LLVMGetFirstFunction(self.m)
        while f:
            yield f
            f = self.l.LLVMGetNextFunction(f)

    def blocks(self, f):
        b = self.l.LLVMGetFirstBasicBlock(f)
        while b:
            yield b
            b = self.l.LLVMGetNextBasicBlock(b)

    def instrs(self, b):
        i = self.l.LLVMGetFirstInstruction(b)
        while i:
            yield i
            i = self.l.LLVMGetNextInstruction(i)

    def callgraph(self):
        l = self.l
        names = {f: self.name(f) for f in self.functions()}
        g = {}
        for f in names:
            if l.LLVMIsDeclaration(f):
                continue
            s = set()
            for b in self.blocks(f):
                for i in self.instrs(b):
                    if l.LLVMGetInstructionOpcode(i) in (45, 5):
                        c = l.LLVMGetCalledValue(i)
                        if c in names:
                            s.add(c)
            g[f] = s
        self.fnames = names
        return g

    def prepare(self, is_root, no_inline):
        """Mark everything alwaysinline except recursive functions, roots and no_inline; run passes."""
        l = self.l
        g = self.callgraph()
        # strongly connected components (iterative Tarjan)
        rec = set()
        index, low, onst, st, cnt = {}, {}, set(), [], [0]
        for root in g:
            if root in index:
                continue
            work = [(root, iter(g[root]))]
            index[root] = low[root] = cnt[0]; cnt[0] += 1; st.append(root); onst.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in g:
                        continue
                    if w not in index:
                        index[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); onst.add(w)
                        work.append((w, iter(g[w])))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = st.pop(); onst.discard(w); comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in g[v]:
                        rec.update(comp)
        self.graph = {self.fnames[f]: {self.fnames[x] for x in s} for f, s in g.items()}
        self.recursive = {self.fnames[f] for f in rec}
        kinds = {n: l.LLVMGetEnumAttributeKindForName(n.encode(), len(n)) for n in ('alwaysinline', 'noinline', 'optnone', 'nounwind', 'mustprogress')}
        FNIDX = 0xFFFFFFFF
        for f in g:
            n = self.fnames[f]
            for k in ('noinline', 'optnone', 'alwaysinline', 'mustprogress'):
                l.LLVMRemoveEnumAttributeAtIndex(f, FNIDX, kinds[k])
            if is_root(n) or f in rec or no_inline(n):
                a = l.LLVMCreateEnumAttribute(self.ctx, kinds['noinline'], 0)
            else:
                a = l.LLVMCreateEnumAttribute(self.ctx, kinds['alwaysinline'], 0)
            l.LLVMAddAttributeAtIndex(f, FNIDX, a)
        self.run('always-inline,function(sroa),always-inline,function(sroa)')

    def run(self, passes):
        l = self.l
        o = l.LLVMCreatePassBuilderOptions()
        e = l.LLVMRunPasses(self.m, passes.encode(), None, o)
        if e:
            raise RuntimeError('opt passes failed: ' + cstr(l.LLVMGetErrorMessage(e)))
        l.LLVMDisposePassBuilderOptions(o)

    # ---- types
    def ty(self, t):
        r = self.tys.get(t)
        if r is not None:
            return r
        l = self.l
        k = l.LLVMGetTypeKind(t)
        if k == 8:
            r = Ty('i'); r.w = l.LLVMGetIntTypeWidth(t)
        elif k == 12:
            r = Ty('p')
        elif k in (1, 2, 3, 4, 5, 6, 18):
            r = Ty('f')
        elif k == 0:
            r = Ty('void'); self.tys[t] = r; return r
        elif k == 10:
            r = Ty('s')
            n = l.LLVMCountStructElementTypes(t)
            r.elems = [self.ty(l.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            r.offs = [l.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
        elif k == 11:
            r = Ty('a'); r.elems = [self.ty(l.LLVMGetElementType(t))]; r.n = l.LLVMGetArrayLength(t)
        elif k == 13:
            r = Ty('vec'); r.elems = [self.ty(l.LLVMGetElementType(t))]; r.n = l.LLVMGetVectorSize(t)
        else:
            r = Ty('?%d' % k); self.tys[t] = r; return r
        r.size = l.LLVMABISizeOfType(self.dl, t)
        r.store = l.LLVMStoreSizeOfType(self.dl, t)
        self.tys[t] = r
        return r

    # ---- values
    def const(self, v):
        """('int',w,val) ('null',) ('undef',) ('global',name,off) ('fn',name) ('agg',[..]) ('zero',ty) ('fp',)"""
        l = self.l
        k = l.LLVMGetValueKind(v)
        # kinds: 0 Argument 1 BasicBlock 5 Function 6 GlobalAlias 8 GlobalVariable 9 BlockAddress 10 ConstantExpr
        # 11 ConstantArray 12 ConstantStruct 13 ConstantVector 14 Undef 15 AggregateZero 16 DataArray 17 DataVector
        # 18 Int 19 FP 20 PointerNull 21 TokenNone 22 Metadata 24 Instruction 25 Poison
        if k == 18:
            t = self.ty(l.LLVMTypeOf(v))
            val = l.LLVMConstIntGetSExtValue(v) if t.w <= 64 else self.bigint(v)
            return ('int', t.w, val)
        if k == 20:
            return ('null',)
        if k in (14, 25):
            return ('undef', self.ty(l.LLVMTypeOf(v)))
        if k == 5:
            return ('fn', self.name(v))
        if k == 8:
            return ('global', self.name(v), 0)
        if k == 15:
            return ('zero', self.ty(l.LLVMTypeOf(v)))
        if k in (11, 12, 13):
            n = l.LLVMGetNumOperands(v)
            return ('agg', [self.const(l.LLVMGetOperand(v, i)) for i in range(n)], self.ty(l.LLVMTypeOf(v)))
        if k in (16, 17):
            t = self.ty(l.LLVMTypeOf(v))
            return ('agg', [self.const(l.LLVMGetElementAsConstant(v, i)) for i in range(t.n)], t)
        if k == 19:
            return ('fp', cstr(l.LLVMPrintValueToString(v)))
        if k == 10:
            op = OPC.get(l.LLVMGetConstOpcode(v))
            if op == 'gep':
                base = self.const(l.LLVMGetOperand(v, 0))
                off = self.constgep(v)
                if base[0] == 'global' and off is not None:
                    return ('global', base[1], base[2] + off)
            return ('cexpr', cstr(l.LLVMPrintValueToString(v)))
        return ('other', k)

    def bigint(self, v):
        s = cstr(self.l.LLVMPrintValueToString(v))
        return int(s.split()[-1])

    def constgep(self, v):
        l = self.l
        t = l.LLVMGetGEPSourceElementType(v)
        n = l.LLVMGetNumOperands(v)
        off = 0
        cur = self.ty(t)
        for i in range(1, n):
            c = self.const(l.LLVMGetOperand(v, i))
            if c[0] != 'int':
                return None
            if i == 1:
                off += c[2] * cur.size
            elif cur.k == 's':
                off += cur.offs[c[2]]
                cur = cur.elems[c[2]]
            else:
                cur = cur.elems[0]
                off += c[2] * cur.size
        return off

    def load(self, want):
        l = self.l
        mod = Module()
        mod.fns = {}
        mod.globals = {}
        mod.graph = self.graph
        mod.recursive = self.recursive
        g = l.LLVMGetFirstGlobal(self.m)
        while g:
            G = Global()
            G.name = self.name(g)
            t = self.ty(l.LLVMGlobalGetValueType(g))
            G.ty = t
            G.size = t.size
            G.const = bool(l.LLVMIsGlobalConstant(g))
            ini = None if l.LLVMIsDeclaration(g) else l.LLVMGetInitializer(g)
            G.init = self.const(ini) if ini else None
            mod.globals[G.name] = G
            g = l.LLVMGetNextGlobal(g)
        for f in self.functions():
            if l.LLVMIsDeclaration(f):
                continue
            n = self.name(f)
            if want(n):
                mod.fns[n] = self.fn(f)
        return mod

    def fn(self, f):
        l = self.l
        F = Fn()
        F.name = self.name(f)
        ids = {}
        F.args = []
        F.names = {}
        for i in range(l.LLVMCountParams(f)):
            a = l.LLVMGetParam(f, i)
            ids[a] = len(ids)
            F.args.append((ids[a], self.ty(l.LLVMTypeOf(a))))
        bl = list(self.blocks(f))
        bi = {b: i for i, b in enumerate(bl)}
        raw = []
        for b in bl:
            ii = list(self.instrs(b))
            raw.append(ii)
            for i in ii:
                ids[i] = len(ids)

        def opnd(v):
            if v in ids:
                return ('v', ids[v])
            return ('c', self.const(v), self.ty(l.LLVMTypeOf(v)))
        F.blocks = []
        n = c_uint()
        for bidx, (b, ii) in enumerate(zip(bl, raw)):
            B = Block()
            B.i = bidx
            B.fn = F
            B.ins = []
            B.pred = []
            B.succ = []
            for i in ii:
                I = Ins()
                oc = l.LLVMGetInstructionOpcode(i)
                I.op = OPC.get(oc, 'op%d' % oc)
                I.id = ids[i]
                I.ty = self.ty(l.LLVMTypeOf(i))
                I.x = None
                I.nsw = False
                I.line = l.LLVMGetDebugLocLine(i)
                p = l.LLVMGetDebugLocFilename(i, byref(n))
                I.file = cstr(p, n.value) if p else ''
                nops = l.LLVMGetNumOperands(i)
                if I.op == 'phi':
                    k = l.LLVMCountIncoming(i)
                    I.ops = [opnd(l.LLVMGetIncomingValue(i, j)) for j in range(k)]
                    I.x = [bi[l.LLVMGetIncomingBlock(i, j)] for j in range(k)]
                elif I.op == 'br':
                    ns = l.LLVMGetNumSuccessors(i)
                    I.x = [bi[l.LLVMGetSuccessor(i, j)] for j in range(ns)]
                    I.ops = [opnd(l.LLVMGetOperand(i, 0))] if l.LLVMIsConditional(i) else []
                    B.succ = list(dict.fromkeys(I.x))
                elif I.op == 'switch':
                    ns = l.LLVMGetNumSuccessors(i)
                    dest = [bi[l.LLVMGetSuccessor(i, j)] for j in range(ns)]
                    vals = [self.const(l.LLVMGetOperand(i, 2 * j)) for j in range(1, ns)]
                    I.ops = [opnd(l.LLVMGetOperand(i, 0))]
                    I.x = (dest[0], list(zip([v[2] for v in vals], dest[1:])))
                    B.succ = list(dict.fromkeys(dest))
                elif I.op in ('call', 'invoke'):
                    k = l.LLVMGetNumArgOperands(i)
                    I.ops = [opnd(l.LLVMGetOperand(i, j)) for j in range(k)]
                    cv = l.LLVMGetCalledValue(i)
                    I.x = self.name(cv) if l.LLVMGetValueKind(cv) == 5 else None
                    if I.x is not None and I.x.startswith('llvm.dbg'):
                        continue
                elif I.op == 'alloca':
                    I.ops = []
                    I.x = self.ty(l.LLVMGetAllocatedType(i))
                elif I.op == 'gep':
                    I.ops = [opnd(l.LLVMGetOperand(i, j)) for j in range(nops)]
                    cur = self.ty(l.LLVMGetGEPSourceElementType(i))
                    plan = []
                    coff = 0
                    for j in range(1, nops):
                        o = I.ops[j]
                        if j == 1:
                            sz = cur.size
                        elif cur.k == 's':
                            idx = o[1][2]
                            coff += cur.offs[idx]
                            cur = cur.elems[idx]
                            continue
                        else:
                            cur = cur.elems[0]
                            sz = cur.size
                        if o[0] == 'c' and o[1][0] == 'int':
                            coff += o[1][2] * sz
                        else:
                            plan.append((o, sz))
                    I.x = (coff, plan, bool(l.LLVMIsInBounds(i)))
                else:
                    I.ops = [opnd(l.LLVMGetOperand(i, j)) for j in range(nops)]
                    if I.op == 'icmp':
                        I.x = PRED[l.LLVMGetICmpPredicate(i)]
                    elif I.op == 'fcmp':
                        I.x = l.LLVMGetFCmpPredicate(i)
                    elif I.op in ('add', 'sub', 'mul', 'shl'):
                        I.nsw = bool(l.LLVMGetNSW(i))
                        I.x = bool(l.LLVMGetNUW(i))
                    elif I.op in ('extractvalue', 'insertvalue'):
                        k = l.LLVMGetNumIndices(i)
                        ip = l.LLVMGetIndices(i)
                        I.x = [ip[j] for j in range(k)]
                    elif I.op in ('sdiv', 'udiv', 'ashr', 'lshr'):
                        I.x = bool(l.LLVMGetExact(i))
                B.ins.append(I)
            F.blocks.append(B)
        for B in F.blocks:
            for s in B.succ:
                F.blocks[s].pred.append(B.i)
        F.retty = None
        analyse(F)
        return F


def analyse(F):
    """Reverse postorder, dominators, natural loops (header -> set of blocks)."""
    n = len(F.blocks)
    order, seen = [], set()
    st = [(0, iter(F.blocks[0].succ))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(F.blocks[s].succ)))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in F.blocks[b].pred:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    irreducible = False
    for b in rpo:
        for s in F.blocks[b].succ:
            if num[s] <= num[b]:
                if not dom(s, b):
                    irreducible = True
                    continue
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(p for p in F.blocks[x].pred if p in num)
    F.rpo = num
    F.idom = idom
    F.loops = loops


def demangle(names):
    names = list(names)
    if not names:
        return {}
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


def compile_bc(src, out, include, defs=()):
    cmd = ['clang++', '-std=c++14', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-gline-tables-only',
           '-fno-access-control', '-w', '-emit-llvm', '-c', src, '-o', out] + ['-I' + i for i in include] + ['-D' + d for d in defs]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('compile failed: %s\n%s' % (' '.join(cmd), r.stderr[:4000]))
