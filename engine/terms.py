"""Terms of the verifier: integer polynomials over atoms, booleans, pointers, and
the ghost ring of visit multisets (formal Laurent polynomials with geometric sums).

Every machine integer is kept as a mathematical integer polynomial with integer
coefficients; wrapping is made explicit by the executor (see exec.py)."""
from math import gcd

INF = float('inf')


class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'kind', 'dfn')

    def __init__(self, id, name, lo, hi, kind, dfn):
        self.id, self.name, self.lo, self.hi, self.kind, self.dfn = id, name, lo, hi, kind, dfn


class Ctx:
    """Atom tables; one per contract run."""

    def __init__(self):
        self.atoms = []
        self.bools = []
        self.memo = {}
        self.nots = {}
        self.nots2 = {}
        self.names = {}
        self.epoch = 0


C = Ctx()


def reset():
    global C
    C = Ctx()
    return C


def ctx():
    return C


def new_atom(name, lo=-INF, hi=INF, kind='var', dfn=None):
    a = Atom(len(C.atoms), name, lo, hi, kind, dfn)
    C.atoms.append(a)
    return a


class P:
    """Polynomial: {monomial: coef}; monomial = sorted tuple of atom ids."""
    __slots__ = ('t', 'h', '_ats')

    def __init__(self, t):
        self.t = t
        self.h = None
        self._ats = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.t.items()))
        return self.h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def const(self):
        """The constant value, or None."""
        t = self.t
        if not t:
            return 0
        if len(t) == 1 and () in t:
            return t[()]
        return None

    def atoms(self):
        if self._ats is None:
            s = set()
            for m in self.t:
                s.update(m)
            self._ats = frozenset(s)
        return self._ats

    def __add__(self, o):
        if not isinstance(o, P):
            o = K(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return P(r)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, P):
            o = K(o)
        return self + (-o)

    def __rsub__(self, o):
        return K(o) + (-self)

    def __mul__(self, o):
        if not isinstance(o, P):
            o = K(o)
        if not self.t or not o.t:
            return ZERO
        c = o.const()
        if c is not None:
            return self if c == 1 else P({m: k * c for m, k in self.t.items()})
        c = self.const()
        if c is not None:
            return o if c == 1 else P({m: k * c for m, k in o.t.items()})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return P(iverson_reduce(r))

    __rmul__ = __mul__

    def subst(self, sub):
        """Substitute atoms by polynomials."""
        if not (self.atoms() & sub.keys()):
            return self
        r = ZERO
        keep = {}
        for m, c in self.t.items():
            if any(a in sub for a in m):
                q = K(c)
                rest = []
                for a in m:
                    if a in sub:
                        q = q * sub[a]
                    else:
                        rest.append(a)
                if rest:
                    q = q * P({tuple(rest): 1})
                r = r + q
            else:
                keep[m] = c
        return r + P(keep)

    def __repr__(self):
        if not self.t:
            return '0'
        s = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            n = '*'.join(C.atoms[a].name for a in m)
            if not m:
                s.append(str(c))
            elif c == 1:
                s.append(n)
            elif c == -1:
                s.append('-' + n)
            else:
                s.append('%d*%s' % (c, n))
        return ' + '.join(s).replace('+ -', '- ')


def iverson_reduce(t):
    """0/1-valued atoms are idempotent: i*i = i."""
    at = C.atoms
    if not any(at[a].kind == 'iv' for m in t for a in m):
        return t
    r = {}
    for m, c in t.items():
        seen = []
        for a in m:
            if at[a].kind == 'iv' and a in seen:
                continue
            seen.append(a)
        m2 = tuple(seen)
        v = r.get(m2, 0) + c
        if v:
            r[m2] = v
        else:
            r.pop(m2, None)
    return r


def K(c):
    return P({(): c}) if c else ZERO


ZERO = P({})
ONE = P({(): 1})


def V(atom):
    return P({(atom.id,): 1})


def fresh(name, lo=-INF, hi=INF):
    n = C.names.get(name, 0)
    C.names[name] = n + 1
    return V(new_atom(name if n == 0 else '%s#%d' % (name, n), lo, hi))


# ---------------------------------------------------------------- booleans
# ('c',True/False) ('le',P) ('eq',P) ('not',b) ('and',fs) ('or',fs) ('bv',id)
T = ('c', True)
F = ('c', False)


def bvar(name):
    C.bools.append(name)
    return ('bv', len(C.bools) - 1)


def mnorm(p):
    """gcd-normalise p for p<=0."""
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, c)
    return g


def interval(p, bnd=None):
    """Interval of p from atom bounds (bnd: overrides {mono:(lo,hi)})."""
    lo = hi = 0
    at = C.atoms
    for m, c in p.t.items():
        if not m:
            lo += c
            hi += c
            continue
        l, h = mono_interval(m, bnd)
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
        if lo == -INF and hi == INF:
            return lo, hi
    return lo, hi


def _imul(l1, h1, l2, h2):
    def mu(x, y):
        return 0 if (x == 0 or y == 0) else x * y
    v = (mu(l1, l2), mu(l1, h2), mu(h1, l2), mu(h1, h2))
    return min(v), max(v)


def mono_interval(m, bnd):
    at = C.atoms
    if bnd:
        b = bnd.get(m)
        if b is not None and len(m) == 1:
            return b
    l = h = 1
    i = 0
    n = len(m)
    while i < n:
        a = m[i]
        j = i
        while j < n and m[j] == a:
            j += 1
        al, ah = at[a].lo, at[a].hi
        if bnd:
            b = bnd.get((a,))
            if b is not None:
                al, ah = b
        pw = j - i
        if pw == 1:
            l, h = _imul(l, h, al, ah)
        else:
            if pw % 2 == 0:
                mx = max(abs(al), abs(ah))
                mn = 0 if al <= 0 <= ah else min(abs(al), abs(ah))
                l, h = _imul(l, h, mn ** pw, mx ** pw if mx != INF else INF)
            else:
                l, h = _imul(l, h, al ** pw, ah ** pw)
        i = j
    if bnd and n > 1:
        b = bnd.get(m)
        if b is not None:
            l, h = max(l, b[0]), min(h, b[1])
        # facts about sub-monomials
        for fm, fb in bnd.items():
            if 1 < len(fm) < n:
                rest = list(m)
                ok = True
                for a in fm:
                    if a in rest:
                        rest.remove(a)
                    else:
                        ok = False
                        break
                if ok:
                    rl, rh = mono_interval(tuple(rest), bnd)
                    l2, h2 = _imul(fb[0], fb[1], rl, rh)
                    l, h = max(l, l2), min(h, h2)
    return l, h


def le0(p, bnd=None):
    """p <= 0"""
    c = p.const()
    if c is not None:
        return T if c <= 0 else F
    lo, hi = interval(p, bnd)
    if hi <= 0:
        return T
    if lo > 0:
        return F
    g = mnorm(p)
    if g > 1:
        r = {}
        for m, c in p.t.items():
            if m:
                r[m] = c // g
            else:
                k = -((-c) // g)   # ceil(c/g):  g*x + c <= 0 <=> x <= -c/g <=> x + ceil(c/g) <= 0
                if k:
                    r[m] = k
        p = P(r)
    return ('le', p)


def eq0(p, bnd=None):
    c = p.const()
    if c is not None:
        return T if c == 0 else F
    lo, hi = interval(p, bnd)
    if lo > 0 or hi < 0:
        return F
    if lo == 0 and hi == 0:
        return T
    g = mnorm(p)
    k = p.t.get((), 0)
    if g > 1:
        if k % g:
            return F
        p = P({m: c // g for m, c in p.t.items()})
    # canonical sign
    m0 = min(m for m in p.t if m)
    if p.t[m0] < 0:
        p = -p
    # single 0/1 atom
    if len(p.t) <= 2:
        ms = [m for m in p.t if m]
        if len(ms) == 1 and len(ms[0]) == 1 and C.atoms[ms[0][0]].kind == 'iv' and p.t[ms[0]] == 1:
            k = p.t.get((), 0)
            cond = C.atoms[ms[0][0]].dfn
            if k == -1:
                return cond
            if k == 0:
                return Not(cond)
            return F
    if len(p.t) > 1 and all(len(m) <= 1 and (not m or C.atoms[m[0]].kind == 'iv') for m in p.t):
        # a sum of 0/1 values at its least or greatest value
        l0, h0 = interval(p)
        if l0 == 0 or h0 == 0:
            return And(*[(C.atoms[m[0]].dfn if (c > 0) == (h0 == 0) else Not(C.atoms[m[0]].dfn)) for m, c in p.t.items() if m])
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) > 1:
            # a product is zero
            return Or(*[eq0(V(C.atoms[a]), bnd) for a in set(m)])
    return ('eq', p)


def Not(b):
    k = b[0]
    if k == 'c':
        return F if b[1] else T
    if k == 'not':
        return b[1]
    if k == 'le':
        r = C.nots.get(b[1])
        if r is None:
            r = C.nots[b[1]] = le0(ONE - b[1])
        return r
    if k == 'and' or k == 'or':
        r = C.nots2.get(b)
        if r is None:
            r = C.nots2[b] = (Or if k == 'and' else And)(*[Not(x) for x in b[1]])
        return r
    return ('not', b)


def And(*bs):
    s = set()
    for b in bs:
        if b == F:
            return F
        if b == T:
            continue
        if b[0] == 'and':
            s |= b[1]
        else:
            s.add(b)
    for b in s:
        if Not(b) in s:
            return F
    if not s:
        return T
    if len(s) == 1:
        return next(iter(s))
    return ('and', frozenset(s))


def Or(*bs):
    s = set()
    for b in bs:
        if b == T:
            return T
        if b == F:
            continue
        if b[0] == 'or':
            s |= b[1]
        else:
            s.add(b)
    for b in s:
        if b[0] in ('bv', 'not', 'le', 'eq') and Not(b) in s:
            return T
    # factor: (a & x) | (!a & x)  handled by caller when merging
    if not s:
        return F
    if len(s) == 1:
        return next(iter(s))
    if len(s) == 2:
        x, y = s
        sx = x[1] if x[0] == 'and' else frozenset([x])
        sy = y[1] if y[0] == 'and' else frozenset([y])
        com = sx & sy
        if com:
            rest = Or(And(*(sx - com)), And(*(sy - com)))
            return And(*(list(com) + [rest]))
        # absorption x | (!x & z) = x | z
        for u, su, v, sv in ((x, sx, y, sy), (y, sy, x, sx)):
            nu = Not(u)
            if nu in sv:
                return Or(u, And(*(sv - {nu})))
    return ('or', frozenset(s))


def Xor(a, b):
    return Or(And(a, Not(b)), And(Not(a), b))


def Iff(a, b):
    if a == b:
        return T
    return Not(Xor(a, b))


def iverson(c):
    """0/1 integer of a boolean."""
    if c == T:
        return ONE
    if c == F:
        return ZERO
    key = ('iv', c)
    a = C.memo.get(key)
    if a is None:
        nk = ('iv', Not(c))
        if nk in C.memo:
            return ONE - V(C.memo[nk])
        a = new_atom('[%s]' % bstr(c), 0, 1, 'iv', c)
        C.memo[key] = a
    return V(a)


def ite(c, a, b):
    if c == T:
        return a
    if c == F:
        return b
    if a == b:
        return a
    d = a - b
    if d.const() is not None or (len(d.t) <= 1):
        return b + d * iverson(c)
    key = ('ite', c, a, b)
    at = C.memo.get(key)
    if at is None:
        la, ha = interval(a)
        lb, hb = interval(b)
        at = new_atom('ite%d' % len(C.atoms), min(la, lb), max(ha, hb), 'ite', (c, a, b))
        C.memo[key] = at
    return V(at)


def bite(c, a, b):
    if c == T:
        return a
    if c == F:
        return b
    if a == b:
        return a
    return Or(And(c, a), And(Not(c), b))


def divmod_atoms(a, b):
    """Truncating division a / b, a % b, as defined atoms (b != 0 is the caller's obligation)."""
    ca, cb = a.const(), b.const()
    if cb is not None and cb != 0:
        if ca is not None:
            q = abs(ca) // abs(cb)
            if (ca < 0) != (cb < 0):
                q = -q
            return K(q), K(ca - q * cb)
        if all(c % cb == 0 for c in a.t.values()):
            return P({m: c // cb for m, c in a.t.items()}), ZERO
    if cb is None and len(b.t) == 1:
        # exact monomial division
        (mb, kb), = b.t.items()
        ok = True
        r = {}
        for m, c in a.t.items():
            rest = list(m)
            for x in mb:
                if x in rest:
                    rest.remove(x)
                else:
                    ok = False
                    break
            if not ok or c % kb:
                ok = False
                break
            r[tuple(rest)] = c // kb
        if ok:
            return P(r), ZERO
    key = ('div', a, b)
    e = C.memo.get(key)
    if e is None:
        la, ha = interval(a)
        lb, hb = interval(b)
        m = max(abs(la), abs(ha))
        qlo, qhi = -m, m
        if la >= 0 and lb > 0:
            qlo = 0
            qhi = ha if lb <= 1 else (ha // lb if ha != INF else INF)
        rlo, rhi = -INF, INF
        mb = max(abs(lb), abs(hb))
        if mb != INF:
            rlo, rhi = -(mb - 1), mb - 1
        if la >= 0:
            rlo = 0
        if ha <= 0:
            rhi = 0
        n = len(C.atoms)
        q = new_atom('div%d' % n, qlo, qhi, 'div', (a, b, n + 1))
        r = new_atom('mod%d' % n, rlo, rhi, 'mod', (a, b, n))
        e = (V(q), V(r))
        C.memo[key] = e
    return e


def bsubst(b, sub, bnd=None):
    """Apply an atom substitution to a boolean."""
    k = b[0]
    if k == 'c' or k == 'bv':
        if k == 'bv' and b in sub:
            return sub[b]
        return b
    if k == 'le':
        return le0(psubst(b[1], sub), bnd)
    if k == 'eq':
        return eq0(psubst(b[1], sub), bnd)
    if k == 'not':
        return Not(bsubst(b[1], sub, bnd))
    if k == 'and':
        return And(*[bsubst(x, sub, bnd) for x in b[1]])
    return Or(*[bsubst(x, sub, bnd) for x in b[1]])


def deps(a, memo=None):
    """All atoms (and bool vars) an atom depends on through definitions."""
    key = ('deps', a)
    r = C.memo.get(key)
    if r is not None:
        return r
    at = C.atoms[a]
    s = {a}
    d = at.dfn
    if at.kind == 'iv':
        s |= batoms(d)
    elif at.kind == 'ite':
        s |= batoms(d[0]) | pdeps(d[1]) | pdeps(d[2])
    elif at.kind in ('div', 'mod'):
        s |= pdeps(d[0]) | pdeps(d[1])
    elif at.kind == 'wrap':
        s |= pdeps(d[0])
    r = frozenset(s)
    C.memo[key] = r
    return r


def pdeps(p):
    s = set()
    for a in p.atoms():
        if C.atoms[a].kind == 'var':
            s.add(a)
        else:
            s |= deps(a)
    return s


def batoms(b):
    k = b[0]
    if k == 'c':
        return set()
    if k == 'bv':
        return {b}
    if k in ('le', 'eq'):
        return pdeps(b[1])
    if k == 'not':
        return batoms(b[1])
    s = set()
    for x in b[1]:
        s |= batoms(x)
    return s


def psubst(p, sub):
    """Deep substitution: also inside definitions of defined atoms."""
    ats = p.atoms()
    m = {}
    for a in ats:
        if a in sub:
            m[a] = sub[a]
        else:
            k = C.atoms[a].kind
            if k != 'var':
                d = deps(a)
                if any(x in sub for x in d):
                    m[a] = rebuild(a, sub)
    if not m:
        return p
    return p.subst(m)


def rebuild(a, sub):
    at = C.atoms[a]
    d = at.dfn
    if at.kind == 'iv':
        return iverson(bsubst(d, sub))
    if at.kind == 'ite':
        return ite(bsubst(d[0], sub), psubst(d[1], sub), psubst(d[2], sub))
    if at.kind == 'div':
        return divmod_atoms(psubst(d[0], sub), psubst(d[1], sub))[0]
    if at.kind == 'mod':
        return divmod_atoms(psubst(d[0], sub), psubst(d[1], sub))[1]
    if at.kind == 'wrap':
        return wrap(psubst(d[0], sub), d[1], d[2])
    raise AssertionError(at.kind)


def wrap(p, w, signed):
    """p reduced mod 2^w into the signed/unsigned range (as a defined atom if undecided)."""
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    c = p.const()
    if c is not None:
        return K((c - lo) % (1 << w) + lo)
    l, h = interval(p)
    if l >= lo and h <= hi:
        return p
    # coefficients are only meaningful mod 2^w
    half = 1 << (w - 1)
    q = P({m: k for m, k in ((m, (k + half) % (1 << w) - half) for m, k in p.t.items()) if k})
    if q != p:
        return wrap(q, w, signed)
    key = ('wrap', p, w, signed)
    a = C.memo.get(key)
    if a is None:
        a = new_atom('wrap%d' % len(C.atoms), lo, hi, 'wrap', (p, w, signed))
        C.memo[key] = a
    return V(a)


def bstr(b):
    k = b[0]
    if k == 'c':
        return str(b[1])
    if k == 'bv':
        return C.bools[b[1]]
    if k == 'le':
        return '%r <= 0' % (b[1],)
    if k == 'eq':
        return '%r == 0' % (b[1],)
    if k == 'not':
        return '!(%s)' % bstr(b[1])
    return '(' + (' && ' if k == 'and' else ' || ').join(sorted(bstr(x) for x in b[1])) + ')'


# ---------------------------------------------------------------- pointers
class Ptr:
    """Pointer into object `obj` (None = the null object) at byte offset `off` (P)."""
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((id(self.obj), self.off))

    def __repr__(self):
        return '&%s+%r' % (self.obj.name if self.obj else 'null', self.off)


NULL = Ptr(None, ZERO)


class Unknown:
    """An unspecified (havocked / undefined) value of a non-integer kind."""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return '?%s' % self.why


# ---------------------------------------------------------------- ghost ring of visits
# A ring element is {(Gs, exp): coef P}; exp is a tuple of P (one per component);
# Gs is a sorted tuple of (count P, stride-exp tuple): G(n, s) = sum_{0<=i<n} X^(i*s).
def _pkey(p):
    return tuple(sorted(p.t.items()))


def gkey(g):
    return (_pkey(g[0]), tuple(_pkey(x) for x in g[1]))


class R:
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t or {}

    def __eq__(self, o):
        return isinstance(o, R) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __add__(self, o):
        r = dict(self.t)
        for k, c in o.t.items():
            v = r.get(k, ZERO) + c
            if v.t:
                r[k] = v
            else:
                r.pop(k, None)
        return R(r)

    def __sub__(self, o):
        return self + o.scale(K(-1))

    def scale(self, c):
        if not c.t:
            return R()
        r = {}
        for k, v in self.t.items():
            x = v * c
            if x.t:
                r[k] = x
        return R(r)

    def map(self, f):
        """Rewrite all polynomials by f and renormalise."""
        r = R()
        for (gs, ex), c in self.t.items():
            r = r + mkterm(f(c), [(f(n), tuple(f(x) for x in s)) for n, s in gs], tuple(f(x) for x in ex))
        return r

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for (gs, ex), c in self.t.items():
            s = '' if c == ONE else '(%r)*' % c
            s += ''.join('G(%r; %s)*' % (n, ', '.join(map(repr, st))) for n, st in gs)
            s += 'X^(%s)' % ', '.join(map(repr, ex))
            out.append(s)
        return ' + '.join(out)


def mkterm(c, gs, ex):
    """Normalised ring term c * prod G(n,s) * X^ex."""
    out = []
    for n, s in gs:
        k = n.const()
        if k is not None:
            if k == 1:
                continue
            if k <= 0:
                return R()
        if all(not x.t for x in s):
            c = c * n
            continue
        # canonical sign: first nonzero component has positive leading coefficient
        f = next(x for x in s if x.t)
        lead = f.t[min(f.t)]
        if lead < 0:
            # sum_{i<n} X^{i s} = X^{(n-1)s} sum_{i<n} X^{-i s}
            ex = tuple(e + (n - ONE) * x for e, x in zip(ex, s))
            s = tuple(-x for x in s)
        out.append((n, s))
    if not c.t:
        return R()
    out.sort(key=gkey)
    return R({(tuple(out), ex): c})
