"""Verification condition generation by symbolic execution of LLVM IR: every path, loops by inductive summaries."""
import heapq, time
import terms as t
from terms import P, K, V, ZERO, ONE, Ptr, NULL, Unknown, R
import solve
from llvm import Ty


class Giveup(Exception):
    """The engine cannot handle a construct (reported as an undischarged obligation)."""


class LoopFail(Exception):
    pass


class Obj:
    __slots__ = ('name', 'size', 'kind', 'base', 'n', 'tag')
    cnt = 0

    def __init__(self, name, size, kind):
        Obj.cnt += 1
        self.n = Obj.cnt
        self.name, self.size, self.kind = name, size, kind
        self.base = None
        self.tag = None

    def __repr__(self):
        return self.name


class State:
    __slots__ = ('env', 'mem', 'own', 'ghost', 'pc', 'sub', 'bnd', 'dead', 'heap', 'abort', 'inputs', 'mode', 'npc')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.own = set()
        self.ghost = {}
        self.pc = ()
        self.sub = {}
        self.bnd = {}
        self.dead = False
        self.heap = {}
        self.abort = t.F
        self.inputs = ()
        self.mode = 0
        self.npc = None

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.ghost = dict(self.ghost)
        s.pc = self.pc
        s.sub = dict(self.sub)
        s.bnd = dict(self.bnd)
        s.dead = self.dead
        s.heap = dict(self.heap)
        s.abort = self.abort
        s.inputs = self.inputs
        s.mode = self.mode
        s.npc = self.npc
        return s

    def cells(self, o):
        """Writable cells of an object."""
        if o not in self.own:
            self.mem[o] = dict(self.mem.get(o, ()))
            self.own.add(o)
        return self.mem[o]

    def norm(self, p):
        if not self.sub:
            return p
        for _ in range(20):
            q = t.psubst(p, self.sub)
            if q == p:
                return p
            p = q
        return p

    def nb(self, b):
        if b[0] == 'c':
            return b
        for _ in range(20):
            q = t.bsubst(b, self.sub, self.bnd) if self.sub else self.rebound(b)
            if q == b:
                return b
            b = q
        return b

    def rebound(self, b):
        k = b[0]
        if k == 'le':
            return t.le0(b[1], self.bnd)
        if k == 'eq':
            return t.eq0(b[1], self.bnd)
        if k == 'not':
            return t.Not(self.rebound(b[1]))
        if k == 'and':
            return t.And(*[self.rebound(x) for x in b[1]])
        if k == 'or':
            return t.Or(*[self.rebound(x) for x in b[1]])
        return b

    def nval(self, v):
        if isinstance(v, P):
            return self.norm(v)
        if isinstance(v, tuple):
            return self.nb(v)
        if isinstance(v, Ptr):
            return Ptr(v.obj, self.norm(v.off))
        if isinstance(v, R):
            return v.map(self.norm) if self.sub else v
        if isinstance(v, list):
            return [self.nval(x) for x in v]
        return v


def typerange(w):
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


class Ob:
    """A proof obligation and its outcome."""
    __slots__ = ('name', 'kind', 'loc', 'status', 'by', 'goal', 'pc', 'model', 'contract')

    def __init__(self, name, kind, loc, status, by, goal='', pc='', model=None):
        self.name, self.kind, self.loc, self.status, self.by = name, kind, loc, status, by
        self.goal, self.pc, self.model = goal, pc, model


MAXPATH = 6000


class Exec:
    def __init__(self, mod, dem, log=None):
        self.mod = mod
        self.dem = dem
        self.obs = []
        self.quiet = 0
        self.sol = solve.Solver()
        self.globals = {}
        self.loopM = {}
        self.live = {}
        self.steps = 0
        self.paths = 0
        self.stack = []
        self.deadline = None
        self.loops_done = {}
        self.assumed = set()
        self.called = set()
        self.intr = {}
        self.reached = 0
        self.depth = 0
        self.triv = {}
        self.tycache = {}
        self.failed = set()
        self.contracts = {}
        self.posts = set()
        self.i64 = Ty('i')
        self.i64.w, self.i64.size, self.i64.store = 64, 8, 8
        import intrinsics
        intrinsics.register(self)

    # ------------------------------------------------------------ assumptions and obligations
    def pcs(self, st):
        """Normalised path condition list."""
        if st.npc is None or st.npc[0] != len(st.pc) or st.npc[1] != len(st.sub):
            out = []
            for b in st.pc:
                if st.sub:
                    x = b
                    for _ in range(20):
                        y = t.bsubst(x, st.sub)
                        if y == x:
                            break
                        x = y
                    b = x
                if b == t.T:
                    continue
                out.append(b)
            for bt, v in st.sub.items():
                if isinstance(bt, tuple):
                    out.append(bt if v == t.T else t.Not(bt))
            st.npc = (len(st.pc), len(st.sub), out)
        return st.npc[2]

    def assume(self, st, b):
        b = st.nb(b)
        if b == t.T:
            return
        if b == t.F:
            st.dead = True
            return
        if b[0] == 'and':
            for x in sorted(b[1], key=repr):
                self.assume(st, x)
                if st.dead:
                    return
            return
        if b[0] == 'bv':
            st.sub[b] = t.T
            self.resub(st)
            return
        if b[0] == 'not' and b[1][0] == 'bv':
            st.sub[b[1]] = t.F
            self.resub(st)
            return
        st.pc = st.pc + (b,)
        if b[0] == 'le':
            self.learn(st, b[1])
        elif b[0] == 'eq':
            self.orient(st, b[1])

    def resub(self, st):
        for a, q in list(st.sub.items()):
            if isinstance(q, P):
                st.sub[a] = t.psubst(q, st.sub)

    def learn(self, st, p):
        """Record interval facts of p <= 0 with a single monomial."""
        ms = [m for m in p.t if m]
        if len(ms) == 1:
            m = ms[0]
            c = p.t[m]
            k = p.t.get((), 0)
            lo, hi = t.mono_interval(m, st.bnd)
            if c > 0:
                hi = min(hi, (-k) // c)
            else:
                lo = max(lo, -((-k) // (-c)))
            st.bnd[m] = (lo, hi)
            if lo > hi:
                st.dead = True
                return
            if lo == hi and len(m) == 1 and m[0] not in st.sub and t.C.atoms[m[0]].kind == 'var':
                st.sub[m[0]] = K(lo)
                self.resub(st)
        elif 2 <= len(ms) <= 3:
            # propagate bounds to single atoms of linear constraints
            for m in ms:
                if len(m) != 1:
                    continue
                c = p.t[m]
                if abs(c) != 1:
                    continue
                rest = P({x: v for x, v in p.t.items() if x != m})
                l, h = t.interval(rest, st.bnd)
                lo, hi = t.mono_interval(m, st.bnd)
                if c == 1 and l != -t.INF and -l < hi:
                    st.bnd[m] = (lo, -l)
                elif c == -1 and l != -t.INF and l > lo:
                    st.bnd[m] = (l, hi)
                lo, hi = t.mono_interval(m, st.bnd)
                if lo > hi:
                    st.dead = True
                    return

    def orient(self, st, p):
        """Use p == 0 as a rewrite rule when some atom is determined by the others."""
        at = t.C.atoms
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and abs(c) == 1 and at[m[0]].kind == 'var':
                a = m[0]
                rest = P({x: v for x, v in p.t.items() if x != m})
                if a in t.pdeps(rest):
                    continue
                if best is None or a > best[0]:
                    best = (a, rest * (-c))
        if best is None and len([m for m in p.t if m]) == 1:
            (m, c), = [(m, c) for m, c in p.t.items() if m]
            if len(m) == 1 and at[m[0]].kind == 'var' and p.t.get((), 0) % c == 0:
                best = (m[0], K(-p.t.get((), 0) // c))
        if best is None:
            # several atoms, none isolated: are some of them forced to constants?
            ats = [a for a in p.atoms() if at[a].kind == 'var']
            if len(ats) <= 3 and any(len(m) > 1 for m in p.t):
                r, mdl, defs = self.sol.check(list(self.pcs(st)), st.bnd, False, 500, True)
                if r == 'unsat':
                    st.dead = True
                    return
                if r == 'sat':
                    vals = self.sol.values(mdl, defs)
                    for a in ats:
                        if a in st.sub or a not in vals:
                            continue
                        e = t.eq0(V(at[a]) - vals[a])
                        if self.sol.check(list(self.pcs(st)) + [t.Not(e)], st.bnd, False, 500) == 'unsat':
                            st.sub[a] = K(vals[a])
                            st.npc = None
                            self.resub(st)
            return
        a, q = best
        q = st.norm(q)
        lo, hi = t.mono_interval((a,), st.bnd)
        st.sub[a] = q
        self.resub(st)
        if lo != -t.INF:
            self.assume(st, t.le0(K(lo) - q))
        if hi != t.INF and not st.dead:
            self.assume(st, t.le0(q - hi))
        if len(q.t) == 1 and not st.dead:
            (m, c), = q.t.items()
            if m:
                # bounds of the monomial
                l0, h0 = t.mono_interval(m, st.bnd)
                if c > 0:
                    if lo != -t.INF:
                        l0 = max(l0, -((-lo) // c))
                    if hi != t.INF:
                        h0 = min(h0, hi // c)
                else:
                    if hi != t.INF:
                        l0 = max(l0, -(hi // (-c)))
                    if lo != -t.INF:
                        h0 = min(h0, (-lo) // (-c))
                st.bnd[m] = (l0, h0)

    def feasible(self, st):
        if st.dead:
            return False
        if not self.sol.sat(self.pcs(st), st.bnd):
            st.dead = True
            return False
        return True

    def entails(self, st, b, deep=False):
        b = st.nb(b)
        if b == t.T:
            return True
        if b == t.F and not deep:
            return not self.feasible(st)
        s, by, _ = self.sol.prove(self.pcs(st), b, st.bnd, deep)
        return s == 'proved'

    def ob(self, st, b, name, kind, ins=None):
        """Generate and discharge the obligation pc |= b."""
        loc = self.loc(ins)
        b0 = b
        b = st.nb(b)
        if self.quiet:
            if b == t.F:
                st.dead = True
            return
        if b == t.T:
            self.obs.append(Ob(name, kind, loc, 'proved', 'interval/normaliser'))
            return
        key = (name, kind, loc)
        if key in self.failed and kind != 'post':
            return
        pc = self.pcs(st)
        s, by, model = self.sol.prove(pc, b, st.bnd, True)
        if s == 'proved':
            self.obs.append(Ob(name, kind, loc, 'proved', by))
            return
        o = Ob(name, kind, loc, s, by, t.bstr(b0)[:2000], ' && '.join(t.bstr(x) for x in pc)[:4000])
        if model is not None:
            o.model = self.inputs_of(st, model)
        self.failed.add(key)
        self.obs.append(o)

    def inputs_of(self, st, model):
        out = {}
        for name, v in st.inputs:
            try:
                if isinstance(v, P):
                    out[name] = self.evalp(v, model, st)
                else:
                    v2 = st.sub.get(v, None)
                    out[name] = int(v2 == t.T) if v2 is not None else int(model.get(v, False))
            except Exception:
                pass
        return out

    def evalp(self, p, model, st):
        p = st.norm(p)
        r = 0
        for m, c in p.t.items():
            x = c
            for a in m:
                x *= model.get(a, t.C.atoms[a].lo if t.C.atoms[a].lo > -t.INF else 0)
            r += x
        return int(r)

    def loc(self, ins):
        if ins is None:
            return ''
        f = ins.file
        i = f.find('/include/array/')
        if i >= 0:
            f = f[i + 1:]
        return '%s:%d' % (f, ins.line) if f else ''

    # ------------------------------------------------------------ values
    def val(self, st, o):
        if o[0] == 'v':
            v = st.env.get(o[1])
            if v is None:
                raise Giveup('use of undefined value')
            return v
        return self.constv(st, o[1], o[2])

    def constv(self, st, c, ty=None):
        k = c[0]
        if k == 'int':
            if c[1] == 1:
                return t.T if c[2] & 1 else t.F
            return K(c[2])
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(c[1])
        if k == 'global':
            return Ptr(self.globobj(st, c[1]), K(c[2]))
        if k == 'agg':
            return [self.constv(st, x) for x in c[1]]
        if k == 'zero':
            return self.zero(c[1])
        if k == 'fp':
            return Unknown('fp')
        if k == 'fn':
            return Ptr(self.globobj(st, '@' + c[1]), ZERO)
        raise Giveup('constant %r' % (c,))

    def zero(self, ty):
        if ty.k == 'i':
            return t.F if ty.w == 1 else ZERO
        if ty.k == 'p':
            return NULL
        if ty.k == 's':
            return [self.zero(e) for e in ty.elems]
        if ty.k in ('a', 'vec'):
            return [self.zero(ty.elems[0]) for _ in range(ty.n)]
        return Unknown('fp0')

    def undef(self, ty):
        if ty.k == 's':
            return [self.undef(e) for e in ty.elems]
        if ty.k in ('a', 'vec'):
            return [self.undef(ty.elems[0]) for _ in range(ty.n)]
        return self.havoc_ty(ty, 'undef')

    def havoc_ty(self, ty, name):
        if ty.k == 'i':
            if ty.w == 1:
                return t.bvar(name)
            lo, hi = typerange(ty.w)
            return t.fresh(name, lo, hi)
        if ty.k == 'p':
            return Unknown(name)
        if ty.k == 's':
            return [self.havoc_ty(e, name) for e in ty.elems]
        if ty.k in ('a', 'vec'):
            return [self.havoc_ty(ty.elems[0], name) for _ in range(ty.n)]
        return Unknown(name)

    def globobj(self, st, name):
        o = self.globals.get(name)
        if o is None:
            g = self.mod.globals.get(name)
            o = Obj('@' + name, K(g.size) if g else ZERO, 'global')
            self.globals[name] = o
            o.tag = g
        if o not in st.mem:
            g = o.tag
            cells = {}
            if g is not None and g.init is not None:
                self.flatten(st, cells, 0, self.constv(st, g.init), g.ty)
            st.mem[o] = cells
        return o

    def flatten(self, st, cells, off, v, ty):
        if ty.k == 's':
            for e, o, x in zip(ty.elems, ty.offs, v):
                self.flatten(st, cells, off + o, x, e)
        elif ty.k in ('a', 'vec'):
            e = ty.elems[0]
            if ty.n > 4096:
                return
            for i in range(ty.n):
                self.flatten(st, cells, off + i * e.size, v[i], e)
        else:
            cells[off] = (v, ty.store)

    def toint(self, v):
        """An integer value as polynomial (booleans become 0/1)."""
        if isinstance(v, P):
            return v
        if isinstance(v, tuple):
            return t.iverson(v)
        raise Giveup('integer expected, got %r' % (v,))

    def inrange(self, st, p, lo, hi, solver=True):
        l, h = t.interval(p, st.bnd)
        if l >= lo and h <= hi:
            return True
        q = st.norm(p)
        l, h = t.interval(q, st.bnd)
        if l >= lo and h <= hi:
            return True
        if not solver:
            return False
        return self.entails(st, t.And(t.le0(K(lo) - q), t.le0(q - hi)))

    def signed(self, st, p, w):
        if w > 64:
            return p
        lo, hi = typerange(w)
        if self.inrange(st, p, lo, hi, False):
            return p
        m = 1 << w
        for q in (p - m, p + m):
            if self.inrange(st, q, lo, hi, False):
                return q
        w1 = t.wrap(p, w, True)
        if w1 == p or self.inrange(st, p, lo, hi):
            return p
        for q in (p - m, p + m):
            if self.inrange(st, q, lo, hi):
                return q
        return w1

    def unsigned(self, st, p, w):
        if w > 64:
            return p
        lo, hi = 0, (1 << w) - 1
        if self.inrange(st, p, lo, hi, False):
            return p
        m = 1 << w
        for q in (p + m, p - m):
            if self.inrange(st, q, lo, hi, False):
                return q
        if self.inrange(st, p, lo, hi):
            return p
        for q in (p + m, p - m):
            if self.inrange(st, q, lo, hi):
                return q
        return t.wrap(p, w, False)

    # ------------------------------------------------------------ memory
    def load(self, st, p, ty, ins):
        if isinstance(p, Unknown):
            self.ob(st, t.F, 'pointer is valid for load', 'safety', ins)
            return self.havoc_ty(ty, 'bad')
        if ty.k in ('s', 'a', 'vec'):
            if ty.k == 's':
                return [self.load(st, Ptr(p.obj, p.off + o), e, ins) for e, o in zip(ty.elems, ty.offs)]
            e = ty.elems[0]
            return [self.load(st, Ptr(p.obj, p.off + i * e.size), e, ins) for i in range(ty.n)]
        if p.obj is None:
            self.ob(st, t.F, 'null pointer is not dereferenced', 'safety', ins)
            st.dead = st.dead or not self.quiet
            return self.havoc_ty(ty, 'nullload')
        o = p.obj
        if st.heap.get(o) == 'freed':
            self.ob(st, t.F, 'no use after free', 'safety', ins)
        if o.kind == 'elems':
            h = self.intr.get('elemload')
            return h(self, st, p, ty, ins)
        off = st.norm(p.off).const()
        if off is None:
            raise Fork(self.concretise(st, p.off, ins))
        self.inbounds(st, o, off, ty.store, ins)
        cells = st.mem.get(o, {})
        c = cells.get(off)
        if c is not None and c[1] == ty.store:
            v = c[0]
            # reinterpretation between kinds
            if ty.k == 'i':
                if ty.w == 1 and isinstance(v, P):
                    return self.tobool(st, v)
                if isinstance(v, tuple):
                    return v if ty.w == 1 else t.iverson(v)
                if isinstance(v, Ptr):
                    return self.p2i(v)
                if isinstance(v, Unknown):
                    v = self.havoc_ty(ty, 'uninit')
                    st.cells(o)[off] = (v, ty.store)
                return v
            if ty.k == 'p' and isinstance(v, P):
                return self.i2p(st, v, ins)
            return v
        # constant cell split
        for k, (v, sz) in cells.items():
            if k <= off and off + ty.store <= k + sz:
                if isinstance(v, tuple) and v[0] == 'c':
                    v = t.iverson(v)
                if isinstance(v, Ptr) and v.obj is None and v.off == ZERO:
                    v = ZERO
                if isinstance(v, P) and v.const() is not None:
                    x = (v.const() >> (8 * (off - k))) & ((1 << (8 * ty.store)) - 1)
                    return self.intconst(ty, x)
        # join of smaller constant cells
        x, n, okc = 0, off, True
        while n < off + ty.store:
            c = cells.get(n)
            if c is None or n + c[1] > off + ty.store:
                okc = False
                break
            v = c[0]
            if isinstance(v, tuple):
                v = t.iverson(v)
            cv = v.const() if isinstance(v, P) else (0 if isinstance(v, Ptr) and v == NULL else None)
            if cv is None:
                okc = False
                break
            x |= (cv & ((1 << (8 * c[1])) - 1)) << (8 * (n - off))
            n += c[1]
        if okc:
            return self.intconst(ty, x)
        v = self.havoc_ty(ty, 'uninit')
        st.cells(o)[off] = (v, ty.store)
        return v

    def intconst(self, ty, x):
        if ty.k == 'p':
            return NULL if x == 0 else Unknown('intptr')
        if ty.k == 'f':
            return Unknown('fp')
        if ty.w == 1:
            return t.T if x & 1 else t.F
        if x >= 1 << (ty.w - 1):
            x -= 1 << ty.w
        return K(x)

    def concretise(self, st, off, ins):
        """All feasible constant values of a symbolic offset (small objects only)."""
        vals = []
        off = st.norm(off)
        s = st
        excl = []
        while len(vals) < 17:
            r, m, defs = self.sol.check(list(self.pcs(s)) + excl + [t.le0(off - (1 << 40)), t.le0(-off - (1 << 40))], s.bnd, False, 3000, True)
            if r != 'sat':
                if r != 'unsat':
                    raise Giveup('cannot enumerate offset')
                break
            mv = self.sol.values(m, defs)
            v = 0
            for mm, c in off.t.items():
                x = c
                for a in mm:
                    x *= mv.get(a, 0)
                v += x
            vals.append(v)
            excl.append(t.Not(t.eq0(off - v)))
        if len(vals) >= 17:
            raise Giveup('symbolic offset %r' % off)
        return [t.eq0(off - v) for v in vals]

    def inbounds(self, st, o, off, size, ins):
        if o.size is None:
            return
        c = o.size.const()
        if c is not None:
            if not (0 <= off and off + size <= c):
                self.ob(st, t.F, 'access within object %s' % o.name, 'safety', ins)
            return
        self.ob(st, t.And(t.le0(K(off + size) - o.size), t.T if off >= 0 else t.F), 'access within object %s' % o.name, 'safety', ins)

    def store(self, st, p, v, ty, ins):
        if isinstance(p, Unknown):
            self.ob(st, t.F, 'pointer is valid for store', 'safety', ins)
            return
        if ty.k == 's':
            for e, o, x in zip(ty.elems, ty.offs, v):
                self.store(st, Ptr(p.obj, p.off + o), x, e, ins)
            return
        if ty.k in ('a', 'vec'):
            e = ty.elems[0]
            for i in range(ty.n):
                self.store(st, Ptr(p.obj, p.off + i * e.size), v[i], e, ins)
            return
        if p.obj is None:
            self.ob(st, t.F, 'null pointer is not dereferenced', 'safety', ins)
            st.dead = st.dead or not self.quiet
            return
        o = p.obj
        if st.heap.get(o) == 'freed':
            self.ob(st, t.F, 'no use after free', 'safety', ins)
        self.writable(st, o, ins)
        if o.kind == 'elems':
            self.intr['elemstore'](self, st, p, v, ty, ins)
            return
        off = st.norm(p.off).const()
        if off is None:
            raise Fork(self.concretise(st, p.off, ins))
        self.inbounds(st, o, off, ty.store, ins)
        self.putcell(st, o, off, v, ty.store)

    def writable(self, st, o, ins):
        """vc_readonly: no memory that another thread may have access to is written."""
        ro = st.ghost.get('#ro')
        if ro is not None:
            self.ob(st, t.F if o in ro or o.kind == 'global' else t.T, 'only memory of this call is written', 'frame', ins)

    def putcell(self, st, o, off, v, size):
        cells = st.cells(o)
        old = cells.get(off)
        if old is None or old[1] != size:
            self.clear(cells, off, size)
        cells[off] = (v, size)

    def clear(self, cells, off, size):
        for k in [k for k, (v, s) in cells.items() if k < off + size and k + s > off]:
            v, s = cells.pop(k)
            if isinstance(v, tuple):
                v = t.iverson(v)
            if isinstance(v, Ptr) and v == NULL:
                v = ZERO
            cv = v.const() if isinstance(v, P) else None
            if cv is not None:
                # keep the remaining constant bytes
                for b in range(k, k + s):
                    if not (off <= b < off + size):
                        cells[b] = (K((cv >> (8 * (b - k))) & 255), 1)

    def memcpy(self, st, d, s, n, ins):
        n = st.norm(n).const()
        if n is None:
            raise Giveup('memcpy of symbolic size')
        if n == 0:
            return
        if isinstance(d, Unknown) or isinstance(s, Unknown) or d.obj is None or s.obj is None:
            self.ob(st, t.F, 'memcpy pointers are valid', 'safety', ins)
            return
        self.writable(st, d.obj, ins)
        if d.obj.kind == 'elems' or s.obj.kind == 'elems':
            raise Giveup('memcpy on element memory')
        do, so = st.norm(d.off).const(), st.norm(s.off).const()
        if do is None:
            raise Fork(self.concretise(st, d.off, ins))
        if so is None:
            raise Fork(self.concretise(st, s.off, ins))
        self.inbounds(st, d.obj, do, n, ins)
        self.inbounds(st, s.obj, so, n, ins)
        src = [(k, v) for k, v in st.mem.get(s.obj, {}).items() if so <= k and k + v[1] <= so + n]
        cells = st.cells(d.obj)
        self.clear(cells, do, n)
        for k, v in src:
            cells[do + k - so] = v

    def memset(self, st, d, v, n, ins):
        n = st.norm(n).const()
        c = v.const() if isinstance(v, P) else None
        if n is None or isinstance(d, Unknown) or d.obj is None:
            raise Giveup('memset')
        off = st.norm(d.off).const()
        if off is None:
            raise Giveup('memset offset')
        self.writable(st, d.obj, ins)
        self.inbounds(st, d.obj, off, n, ins)
        cells = st.cells(d.obj)
        self.clear(cells, off, n)
        if c is not None:
            c &= 255
            i = 0
            while i < n:
                sz = 8 if (off + i) % 8 == 0 and n - i >= 8 else 1
                x = int.from_bytes(bytes([c]) * sz, 'little', signed=True)
                cells[off + i] = (K(x), sz)
                i += sz

    def p2i(self, p):
        if p.obj is None:
            return p.off
        if p.obj.base is None:
            p.obj.base = t.new_atom('&' + p.obj.name, 1 << 20, 1 << 62)
        return V(p.obj.base) + p.off

    def i2p(self, st, v, ins):
        v = st.norm(v)
        if v == ZERO:
            return NULL
        for o in list(st.mem):
            if o.base is not None and (o.base.id,) in v.t and v.t[(o.base.id,)] == 1:
                return Ptr(o, v - V(o.base))
        return Unknown('inttoptr')

    def tobool(self, st, v):
        """Lowest bit of an integer known to be 0/1 when possible."""
        c = v.const()
        if c is not None:
            return t.T if c & 1 else t.F
        if len(v.t) == 1:
            (m, k), = v.t.items()
            if len(m) == 1 and k == 1 and t.C.atoms[m[0]].kind == 'iv':
                return t.C.atoms[m[0]].dfn
        l, h = t.interval(v, st.bnd)
        if l >= 0 and h <= 1:
            return t.Not(t.eq0(v))
        q, r = t.divmod_atoms(v, K(2))
        return t.Not(t.eq0(r))

    # ------------------------------------------------------------ instructions
    def branch(self, st, cond, ins=None):
        """[(state, taken)] for both feasible outcomes."""
        c = st.nb(cond)
        if c == t.T:
            return [(st, True)]
        if c == t.F:
            return [(st, False)]
        s2 = st.copy()
        self.assume(st, c)
        self.assume(s2, t.Not(c))
        out = []
        if not st.dead and self.feasible(st):
            out.append((st, True))
        if not s2.dead and self.feasible(s2):
            out.append((s2, False))
        return out

    def cmp(self, st, pred, a, b, ty, ins):
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return t.bvar('cmp?')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                return t.bvar('cmp?')
            if a.obj is b.obj:
                d = st.norm(a.off - b.off)
                return self.cmp0(st, pred, d)
            if pred in ('eq', 'ne'):
                # distinct objects never share an address; null is not an object
                return t.F if pred == 'eq' else t.T
            d = st.norm(self.p2i(a) - self.p2i(b))
            return self.cmp0(st, pred, d)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if pred == 'eq':
                    return t.Iff(a, b)
                if pred == 'ne':
                    return t.Xor(a, b)
            a, b = self.toint(a), self.toint(b)
        w = ty.w
        if pred in ('eq', 'ne'):
            d = st.norm(a - b)
            if d.const() is None or True:
                if not self.inrange(st, a, -(1 << (w - 1)), (1 << w) - 1, False) or not self.inrange(st, b, -(1 << (w - 1)), (1 << w) - 1, False):
                    a, b = self.signed(st, a, w), self.signed(st, b, w)
                else:
                    l, h = t.interval(d, st.bnd)
                    if l <= -(1 << w) or h >= (1 << w):
                        pass
                    la, ha = t.interval(a, st.bnd)
                    lb, hb = t.interval(b, st.bnd)
                    if (la < 0 and hb >= (1 << (w - 1))) or (lb < 0 and ha >= (1 << (w - 1))):
                        a, b = self.signed(st, a, w), self.signed(st, b, w)
            d = st.norm(a - b)
            e = t.eq0(d, st.bnd)
            return e if pred == 'eq' else t.Not(e)
        if pred[0] == 's':
            a, b = self.signed(st, a, w), self.signed(st, b, w)
        else:
            a, b = self.unsigned(st, a, w), self.unsigned(st, b, w)
        return self.cmp0(st, 'u' + pred[1:], st.norm(a - b))

    def cmp0(self, st, pred, d):
        if pred == 'eq':
            return t.eq0(d, st.bnd)
        if pred == 'ne':
            return t.Not(t.eq0(d, st.bnd))
        p = pred[1:]
        if p == 'lt':
            return t.le0(d + 1, st.bnd)
        if p == 'le':
            return t.le0(d, st.bnd)
        if p == 'gt':
            return t.le0(ONE - d, st.bnd)
        return t.le0(-d, st.bnd)

    def arith(self, st, I, a, b):
        w = I.ty.w
        op = I.op
        if w == 1:
            if isinstance(a, P):
                a = self.tobool(st, a)
            if isinstance(b, P):
                b = self.tobool(st, b)
            if op == 'and':
                return t.And(a, b)
            if op == 'or':
                return t.Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return t.Xor(a, b)
            if op == 'mul':
                return t.And(a, b)
            raise Giveup('i1 ' + op)
        if isinstance(a, (Unknown, Ptr)) or isinstance(b, (Unknown, Ptr)):
            return self.havoc_ty(I.ty, 'arith?')
        a, b = self.toint(a), self.toint(b)
        if op in ('add', 'sub', 'mul'):
            if I.nsw and w <= 64:
                a, b = self.signed(st, a, w), self.signed(st, b, w)
            elif op == 'mul' and w <= 64:
                a, b = self.signed(st, a, w), self.signed(st, b, w)
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            r = st.norm(r)
            if I.nsw and w <= 64:
                lo, hi = typerange(w)
                if not self.inrange(st, r, lo, hi, False):
                    self.ob(st, t.And(t.le0(K(lo) - r), t.le0(r - hi)), 'no signed overflow in %s' % op, 'overflow', I)
                    self.assume(st, t.And(t.le0(K(lo) - r), t.le0(r - hi)))
                elif not self.quiet:
                    self.count_trivial(I, 'overflow')
            elif w <= 64 and max(map(abs, t.interval(r, st.bnd))) >= (1 << w):
                r = self.signed(st, r, w)
            return r
        if op in ('sdiv', 'srem'):
            a, b = self.signed(st, a, w), self.signed(st, b, w)
            self.ob(st, t.Not(t.eq0(st.norm(b))), 'division by zero', 'safety', I)
            self.assume(st, t.Not(t.eq0(st.norm(b))))
            if w <= 64 and not self.inrange(st, a, typerange(w)[0] + 1, typerange(w)[1], False):
                bad = t.And(t.eq0(a - typerange(w)[0]), t.eq0(b + 1))
                self.ob(st, t.Not(bad), 'no signed overflow in division', 'overflow', I)
            q, r = t.divmod_atoms(st.norm(a), st.norm(b))
            return q if op == 'sdiv' else r
        if op in ('udiv', 'urem'):
            a, b = self.unsigned(st, a, w), self.unsigned(st, b, w)
            self.ob(st, t.Not(t.eq0(st.norm(b))), 'division by zero', 'safety', I)
            self.assume(st, t.Not(t.eq0(st.norm(b))))
            q, r = t.divmod_atoms(st.norm(a), st.norm(b))
            return q if op == 'udiv' else r
        cb = st.norm(b).const()
        if op == 'shl' and cb is not None:
            if not (0 <= cb < w):
                self.ob(st, t.F, 'shift amount in range', 'safety', I)
                return self.havoc_ty(I.ty, 'shift')
            if I.nsw:
                a = self.signed(st, a, w)
                r = a * (1 << cb)
                lo, hi = typerange(w)
                if not self.inrange(st, r, lo, hi, False):
                    self.ob(st, t.And(t.le0(K(lo) - r), t.le0(r - hi)), 'no signed overflow in shl', 'overflow', I)
                return r
            return self.signed(st, a * (1 << cb), w)
        if op in ('ashr', 'lshr') and cb is not None:
            if not (0 <= cb < w):
                self.ob(st, t.F, 'shift amount in range', 'safety', I)
                return self.havoc_ty(I.ty, 'shift')
            a = self.signed(st, a, w) if op == 'ashr' else self.unsigned(st, a, w)
            a = st.norm(a)
            if a.const() is not None:
                return K(a.const() >> cb)
            if op == 'ashr' and cb == w - 1:
                return -t.iverson(t.le0(a + 1, st.bnd))
            if self.inrange(st, a, 0, t.INF):
                return t.divmod_atoms(a, K(1 << cb))[0]
            # floor division
            q, r = t.divmod_atoms(a, K(1 << cb))
            return q - t.iverson(t.le0(r + 1, st.bnd))
        if op == 'xor' and cb == -1:
            return -a - 1
        ca = st.norm(a).const()
        if ca is not None and cb is not None:
            m = (1 << w) - 1
            x = {'and': ca & cb, 'or': ca | cb, 'xor': ca ^ cb}.get(op)
            if x is not None:
                return t.wrap(K(x), w, True)
            if op == 'shl':
                return t.wrap(K(ca << cb), w, True)
        if op == 'and':
            for x, c in ((a, cb), (b, ca)):
                if c is None:
                    continue
                if c >= 0 and (c & (c + 1)) == 0:
                    return t.wrap(st.norm(x), c.bit_length(), False) if c else ZERO
                if c == -1:
                    return x
            # mask -[cond] & x
            for x, y in ((a, b), (b, a)):
                y = st.norm(y)
                if len(y.t) == 1:
                    (m, k), = y.t.items()
                    if k == -1 and len(m) == 1 and t.C.atoms[m[0]].kind == 'iv':
                        return x * V(t.C.atoms[m[0]])
        if op in ('and', 'or', 'xor'):
            la, ha = t.interval(a, st.bnd)
            lb, hb = t.interval(b, st.bnd)
            if la >= 0 and ha <= 1 and lb >= 0 and hb <= 1:
                x, y = self.tobool(st, a), self.tobool(st, b)
                return t.iverson(t.And(x, y) if op == 'and' else t.Or(x, y) if op == 'or' else t.Xor(x, y))
        return self.havoc_ty(I.ty, op)

    def count_trivial(self, I, kind):
        self.triv[kind] = self.triv.get(kind, 0) + 1

    def gep(self, st, I):
        p = self.val(st, I.ops[0])
        coff, plan, inb = I.x
        off = K(coff)
        for o, sz in plan:
            v = self.val(st, o)
            if isinstance(v, Unknown):
                return Unknown('gep')
            w = o[2].w if o[0] == 'c' else 64
            off = off + self.signed(st, self.toint(v), 64) * sz
        if isinstance(p, Unknown):
            return p
        if p.obj is None and inb:
            off2 = st.norm(off)
            if off2.t:
                self.ob(st, t.eq0(off2), 'no arithmetic on a null pointer', 'nullarith', I)
        return Ptr(p.obj, st.norm(p.off + off))

    def run_block(self, st, B, start=0):
        """Execute a block; returns [(kind, payload, state)]: ('goto', succ) / ('ret', val)."""
        work = [(st, start)]
        out = []
        while work:
            st, i = work.pop()
            ins = B.ins
            n = len(ins)
            while i < n:
                I = ins[i]
                self.steps += 1
                if self.steps % 2048 == 0 and self.deadline and time.time() > self.deadline:
                    raise Giveup('time limit of the contract reached')
                op = I.op
                try:
                    if op == 'phi':
                        i += 1
                        continue
                    if op == 'br':
                        if not I.ops:
                            out.append(('goto', I.x[0], st))
                        else:
                            c = self.val(st, I.ops[0])
                            if isinstance(c, P):
                                c = self.tobool(st, c)
                            if isinstance(c, Unknown):
                                c = t.bvar('br?')
                            for s, taken in self.branch(st, c, I):
                                out.append(('goto', I.x[0] if taken else I.x[1], s))
                        break
                    if op == 'ret':
                        out.append(('ret', self.val(st, I.ops[0]) if I.ops else None, st))
                        break
                    if op == 'switch':
                        v = self.val(st, I.ops[0])
                        cur = st
                        for cv, dest in I.x[1]:
                            c = t.eq0(st.norm(self.toint(v) - cv), cur.bnd)
                            nxt = None
                            for s, taken in self.branch(cur, c, I):
                                if taken:
                                    out.append(('goto', dest, s))
                                else:
                                    nxt = s
                            cur = nxt
                            if cur is None:
                                break
                        if cur is not None:
                            out.append(('goto', I.x[0], cur))
                        break
                    if op == 'unreachable':
                        self.ob(st, t.F, 'unreachable code is not reached', 'safety', I)
                        break
                    if op in ('call', 'invoke'):
                        rs = self.call(st, I)
                        if rs is None:      # plain return, same state
                            if st.dead:
                                break
                            i += 1
                            continue
                        for s, v in rs:
                            if s.dead:
                                continue
                            if v is not None:
                                s.env[I.id] = v
                            work.append((s, i + 1))
                        break
                    if op == 'select':
                        c = self.val(st, I.ops[0])
                        a, b = self.val(st, I.ops[1]), self.val(st, I.ops[2])
                        if isinstance(c, P):
                            c = self.tobool(st, c)
                        if isinstance(c, Unknown):
                            c = t.bvar('sel?')
                        c = st.nb(c)
                        if c[0] == 'c':
                            st.env[I.id] = a if c[1] else b
                        elif isinstance(a, tuple) and isinstance(b, tuple):
                            st.env[I.id] = t.bite(c, a, b)
                        elif isinstance(a, P) and isinstance(b, P) and (st.mode == 1 or (a.const() is not None and b.const() is not None)):
                            st.env[I.id] = t.ite(c, a, b)
                        elif self.same(a, b):
                            st.env[I.id] = a
                        else:
                            for s, taken in self.branch(st, c, I):
                                s.env[I.id] = a if taken else b
                                work.append((s, i + 1))
                            break
                        i += 1
                        continue
                    st.env[I.id] = self.simple(st, I)
                    if st.dead:
                        break
                    i += 1
                except Fork as f:
                    # case split on the given conditions, then redo the instruction
                    for c in f.conds:
                        s = st.copy()
                        self.assume(s, c)
                        if not s.dead and self.feasible(s):
                            work.append((s, i))
                    break
        return out

    def same(self, a, b):
        if isinstance(a, Ptr):
            return a == b
        if isinstance(a, (P, tuple, R)):
            return type(a) is type(b) and a == b
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a is b or (isinstance(a, dict) and a == b)

    def simple(self, st, I):
        op = I.op
        if op == 'alloca':
            o = Obj('%s.%d' % (self.stack[-1][:12] if self.stack else 's', I.id), K(I.x.size), 'stack')
            o.tag = (I.id,)
            st.mem[o] = {}
            st.own.add(o)
            return Ptr(o, ZERO)
        if op == 'load':
            return self.load(st, self.val(st, I.ops[0]), I.ty, I)
        if op == 'store':
            o = I.ops[0]
            v = self.val(st, o)
            ty = o[2] if o[0] == 'c' else self.optype(I, 0, v)
            self.store(st, self.val(st, I.ops[1]), v, ty, I)
            return None
        if op == 'gep':
            return self.gep(st, I)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.arith(st, I, self.val(st, I.ops[0]), self.val(st, I.ops[1]))
        if op == 'icmp':
            a, b = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            return self.cmp(st, I.x, a, b, self.optype(I, 0, a), I)
        if op in ('zext', 'sext', 'trunc'):
            v = self.val(st, I.ops[0])
            w0 = self.optype(I, 0, v).w
            if isinstance(v, Unknown):
                return self.havoc_ty(I.ty, 'cast?')
            if op == 'trunc':
                if I.ty.w == 1:
                    return v if isinstance(v, tuple) else self.tobool(st, st.norm(v))
                v = st.norm(self.toint(v))
                return self.signed(st, v, I.ty.w)
            if isinstance(v, tuple):
                b = t.iverson(v)
                return b if op == 'zext' else -b
            return self.unsigned(st, v, w0) if op == 'zext' else self.signed(st, v, w0)
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return self.val(st, I.ops[0])
        if op == 'ptrtoint':
            v = self.val(st, I.ops[0])
            return self.p2i(v) if isinstance(v, Ptr) else self.havoc_ty(I.ty, 'p2i')
        if op == 'inttoptr':
            v = self.val(st, I.ops[0])
            return self.i2p(st, self.toint(v), I)
        if op == 'extractvalue':
            v = self.val(st, I.ops[0])
            for x in I.x:
                v = v[x]
            return v
        if op == 'insertvalue':
            v = self.val(st, I.ops[0])
            x = self.val(st, I.ops[1])

            def ins(a, path):
                a = list(a)
                a[path[0]] = x if len(path) == 1 else ins(a[path[0]], path[1:])
                return a
            return ins(v, I.x)
        if op == 'extractelement':
            v = self.val(st, I.ops[0]); i = self.val(st, I.ops[1]).const()
            return v[i]
        if op == 'insertelement':
            v = list(self.val(st, I.ops[0])); i = self.val(st, I.ops[2]).const()
            v[i] = self.val(st, I.ops[1])
            return v
        if op[0] == 'f' or op in ('sitofp', 'uitofp', 'fcmp'):
            if op == 'fcmp':
                return t.bvar('fcmp')
            return self.havoc_ty(I.ty, 'fp')
        raise Giveup('instruction ' + op)

    def optype(self, I, k, v):
        o = I.ops[k]
        if o[0] == 'c':
            return o[2]
        return self.curty[o[1]]

    # ------------------------------------------------------------ calls
    def call(self, st, I):
        name = I.x
        if name is None:
            raise Giveup('indirect call')
        h = self.intr.get(name)
        if h is None:
            for pre, hh in self.intr_prefix:
                if name.startswith(pre):
                    h = hh
                    break
        if h is not None:
            args = [self.val(st, o) if not (o[0] == 'c' and o[1][0] == 'other') else None for o in I.ops]
            r = h(self, st, args, I)
            if isinstance(r, list) and r and isinstance(r[0], tuple) and len(r[0]) == 2 and isinstance(r[0][0], State):
                return r
            if r == 'end':
                st.dead = True
                return None
            if r is not None:
                st.env[I.id] = r
            return None
        f = self.mod.fns.get(name)
        if f is None:
            raise Giveup('call of external function %s' % name)
        args = [self.val(st, o) for o in I.ops]
        self.called.add(name)
        sub = self.contracts.get(name)
        if sub is not None:
            return sub(self, st, args, I)
        if self.stack.count(name) > 40:
            raise Giveup('recursion too deep: ' + name)
        return self.call_fn(f, args, st)

    def call_fn(self, f, args, st):
        env = st.env
        st.env = {a[0]: v for a, v in zip(f.args, args)}
        self.stack.append(f.name)
        oldty = getattr(self, 'curty', None)
        self.curty = self.types_of(f)
        try:
            ex = self.region(f, 0, None, [(st, None)])
        finally:
            self.stack.pop()
            self.curty = oldty
        out = []
        for s, v in ex.get('ret', []):
            s.env = dict(env)
            out.append((s, v))
        return out

    def types_of(self, f):
        r = self.tycache.get(f.name)
        if r is None:
            r = {a: ty for a, ty in f.args}
            for B in f.blocks:
                for I in B.ins:
                    r[I.id] = I.ty
            self.tycache[f.name] = r
        return r

    # ------------------------------------------------------------ control flow
    def phis(self, st, f, frm, to):
        B = f.blocks[to]
        vals = []
        for I in B.ins:
            if I.op != 'phi':
                break
            j = I.x.index(frm)
            vals.append((I.id, self.val(st, I.ops[j])))
        for i, v in vals:
            st.env[i] = v

    def liveness(self, f):
        r = self.live.get(f.name)
        if r is not None:
            return r
        use, dfn = [], []
        for B in f.blocks:
            u, d = set(), set()
            for I in B.ins:
                if I.op != 'phi':
                    for o in I.ops:
                        if o[0] == 'v' and o[1] not in d:
                            u.add(o[1])
                    if I.op == 'gep':
                        for o, _ in I.x[1]:
                            if o[0] == 'v' and o[1] not in d:
                                u.add(o[1])
                d.add(I.id)
            use.append(u)
            dfn.append(d)
        # phi uses belong to the predecessor edge; phi defs are live-in of the block after edge assignment
        livein = [set() for _ in f.blocks]
        ch = True
        while ch:
            ch = False
            for B in reversed(f.blocks):
                o = set()
                for s in B.succ:
                    S = f.blocks[s]
                    o |= livein[s] - {I.id for I in S.ins if I.op == 'phi'}
                    for I in S.ins:
                        if I.op != 'phi':
                            break
                        for op, fr in zip(I.ops, I.x):
                            if fr == B.i and op[0] == 'v':
                                o.add(op[1])
                n = use[B.i] | (o - dfn[B.i])
                ph = {I.id for I in B.ins if I.op == 'phi'}
                n2 = n | (ph & (use[B.i] | o | ph))
                if n2 != livein[B.i]:
                    livein[B.i] = n2
                    ch = True
        self.live[f.name] = livein
        return livein

    def region(self, f, entry, blocks, states, header=None):
        """Run the blocks of a region; returns exits {target or 'ret': [(state, from or value)]}."""
        pend = {}
        exits = {}
        heap = []
        num = f.rpo

        def push(b, s, frm):
            if s.dead:
                return
            if b == header and frm is not None and entry == header and frm in (blocks or ()):
                exits.setdefault(b, []).append((s, frm))
                return
            if blocks is not None and b not in blocks:
                exits.setdefault(b, []).append((s, frm))
                return
            if b not in pend:
                pend[b] = []
                heapq.heappush(heap, (num[b], b))
            pend[b].append(s)
        for s, frm in states:
            push(entry, s, None)
        while heap:
            _, b = heapq.heappop(heap)
            ss = pend.pop(b)
            if len(ss) > 1:
                ss = self.merge(f, b, ss)
            self.paths = max(self.paths, len(ss))
            if len(ss) > MAXPATH:
                raise Giveup('too many paths')
            for s in ss:
                if b in f.loops and b != header:
                    for tgt, s2, frm in self.loop(f, b, s):
                        if tgt == 'ret':
                            exits.setdefault('ret', []).append((s2, frm))
                        else:
                            push(tgt, s2, frm)
                    continue
                for kind, x, s2 in self.run_block(s, f.blocks[b]):
                    if s2.dead:
                        continue
                    if kind == 'ret':
                        exits.setdefault('ret', []).append((s2, x))
                    else:
                        self.phis(s2, f, b, x)
                        push(x, s2, b)
        return exits

    def merge(self, f, b, ss):
        """Join states whose differences can be expressed as conditional values."""
        livein = self.liveness(f)[b]
        for s in ss:
            s.env = {k: v for k, v in s.env.items() if k in livein}
        if ss[0].mode == 2:
            return ss
        res = []
        for s in ss:
            i = 0
            while i < len(res):
                m = self.try_merge(res[i], s)
                if m is not None:
                    del res[i]
                    s = m
                    i = 0
                else:
                    i += 1
            res.append(s)
        return res

    def mergeable(self, a, b):
        """Cheap test: every difference is expressible without conditional integers."""
        def ok(x, y):
            if x is y or self.same(x, y):
                return True
            if isinstance(x, tuple) and isinstance(y, tuple):
                return True
            if isinstance(x, P) and isinstance(y, P):
                return x.const() in (0, 1) and y.const() in (0, 1)
            if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                return all(ok(u, v) for u, v in zip(x, y))
            return isinstance(x, Unknown) and isinstance(y, Unknown)
        if a.heap != b.heap:
            return False
        for k, x in a.env.items():
            if k in b.env and not ok(x, b.env[k]):
                return False
        for o, ca in a.mem.items():
            cb = b.mem.get(o)
            if cb is None or cb is ca:
                continue
            for off, (v, sz) in ca.items():
                w = cb.get(off)
                if w is not None and w[1] == sz:
                    if not ok(v, w[0]):
                        return False
                elif not (w is None and o.kind == 'stack'):
                    return False
        for k, x in a.ghost.items():
            y = b.ghost.get(k)
            if y is None or not (x is y or (x == y if isinstance(x, R) else ok(x, y))):
                return False
        return True

    def try_merge(self, a, b):
        if a.mode != b.mode or a.abort != b.abort:
            return None
        full = a.mode == 1
        if not full and not self.mergeable(a, b):
            return None
        n = 0
        pa, pb = a.pc, b.pc
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        ca = [x for x in pa[n:]]
        cb = [x for x in pb[n:]]
        for k, v in a.sub.items():
            if isinstance(k, tuple) and b.sub.get(k) != v:
                ca.append(k if v == t.T else t.Not(k))
        for k, v in b.sub.items():
            if isinstance(k, tuple) and a.sub.get(k) != v:
                cb.append(k if v == t.T else t.Not(k))
        condA, condB = t.And(*ca), t.And(*cb)

        def mix(x, y):
            """merged value or raises"""
            if self.same(x, y):
                return x
            if isinstance(x, tuple) and isinstance(y, tuple):
                return t.bite(condA, x, y)
            if isinstance(x, P) and isinstance(y, P):
                if full or (x.const() in (0, 1) and y.const() in (0, 1)):
                    return t.ite(condA, x, y)
            if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                return [mix(u, v) for u, v in zip(x, y)]
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj and full:
                return Ptr(x.obj, t.ite(condA, x.off, y.off))
            if isinstance(x, Unknown) and isinstance(y, Unknown):
                return x
            raise LoopFail()
        try:
            env = {}
            for k in a.env:
                if k in b.env:
                    env[k] = mix(a.env[k], b.env[k])
            mem = {}
            if a.heap != b.heap:
                return None
            for o, ca_ in a.mem.items():
                cb_ = b.mem.get(o)
                if cb_ is ca_:
                    mem[o] = ca_
                    continue
                if cb_ is None:
                    mem[o] = ca_
                    continue
                cells = {}
                for off, (v, sz) in ca_.items():
                    w = cb_.get(off)
                    if w is not None and w[1] == sz:
                        cells[off] = (mix(v, w[0]), sz)
                    elif w is None and o.kind == 'stack':
                        pass        # undefined on one side: becomes undefined
                    else:
                        return None
                mem[o] = cells
            for o, c in b.mem.items():
                if o not in mem:
                    mem[o] = c
            gh = {}
            for k in set(a.ghost) | set(b.ghost):
                x, y = a.ghost.get(k), b.ghost.get(k)
                if x is None or y is None:
                    return None
                if isinstance(x, R):
                    if x != y:
                        if not full:
                            return None
                        iv = t.iverson(condA)
                        gh[k] = x.scale(iv) + y.scale(ONE - iv)
                    else:
                        gh[k] = x
                else:
                    gh[k] = mix(x, y)
        except LoopFail:
            return None
        m = State()
        m.env, m.mem, m.ghost = env, mem, gh
        m.pc = pa[:n]
        m.heap = dict(a.heap)
        m.abort = a.abort
        m.mode = a.mode
        m.inputs = a.inputs if len(a.inputs) >= len(b.inputs) else b.inputs
        m.sub = {k: v for k, v in a.sub.items() if b.sub.get(k) == v}
        for k, v in a.bnd.items():
            w = b.bnd.get(k)
            if w is not None:
                m.bnd[k] = (min(v[0], w[0]), max(v[1], w[1]))
        a.own = set()
        b.own = set()
        disj = t.Or(condA, condB)
        if disj != t.T:
            # keep the condition as stated: simplified by what both sides know, it would lose that on later merges
            pc = m.pc + (tuple(sorted(disj[1], key=repr)) if disj[0] == 'and' else (disj,))
            self.assume(m, disj)
            m.pc = pc
            m.npc = None
        return m

    # ------------------------------------------------------------ loops
    def loop(self, f, h, st):
        import loops
        return loops.run(self, f, h, st)


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds
