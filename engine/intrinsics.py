"""Built-in functions: LLVM intrinsics, allocation, assertion failure, and the contract language (vc.h)."""
import terms as t
from terms import P, K, V, ZERO, ONE, Ptr, NULL, Unknown, R
import trace


def register(ex):
    I = ex.intr
    I['__assert_fail'] = assert_fail
    for n in ('abort', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_pure_virtual', '__cxa_throw_bad_array_new_length'):
        I[n] = abort
    I['_Znwm'] = I['malloc'] = new
    I['_ZdlPv'] = I['_ZdlPvm'] = I['free'] = delete
    I['fprintf'] = I['printf'] = I['puts'] = I['fflush'] = noop
    I['memcmp'] = I['__cxa_atexit'] = unknown_int
    ex.intr_prefix = [
        ('llvm.lifetime.start', lifetime), ('llvm.lifetime.end', lifetime),
        ('llvm.memcpy', memcpy), ('llvm.memmove', memcpy), ('llvm.memset', memset),
        ('llvm.assume', noop), ('llvm.experimental.noalias', noop), ('llvm.stacksave', nullp), ('llvm.stackrestore', noop),
        ('llvm.dbg', noop), ('llvm.expect', first), ('llvm.launder', first), ('llvm.strip', first),
        ('llvm.smax', minmax), ('llvm.smin', minmax), ('llvm.umax', minmax), ('llvm.umin', minmax), ('llvm.abs', absv),
        ('llvm.trap', abort), ('llvm.is.constant', false), ('llvm.fmuladd', fp), ('llvm.fabs', fp),
        ('_ZSt20__throw', abort), ('_ZSt24__throw', abort), ('_ZSt17__throw', abort), ('_ZSt28__throw', abort),
    ]
    for k, v in list(globals().items()):
        if k.startswith('vc_'):
            I[k] = v
    I['elemload'] = elemload
    I['elemstore'] = elemstore


def noop(ex, st, a, I):
    return None


def nullp(ex, st, a, I):
    return NULL


def first(ex, st, a, I):
    return a[0]


def false(ex, st, a, I):
    return t.F


def fp(ex, st, a, I):
    return Unknown('fp')


def unknown_int(ex, st, a, I):
    return t.fresh('ext', -(1 << 31), (1 << 31) - 1)


def lifetime(ex, st, a, I):
    p = a[1]
    if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'stack':
        st.mem[p.obj] = {}
        st.own.add(p.obj)
    return None


def memcpy(ex, st, a, I):
    ex.memcpy(st, a[0], a[1], a[2], I)


def memset(ex, st, a, I):
    ex.memset(st, a[0], a[1], a[2], I)


def minmax(ex, st, a, I):
    x, y = ex.toint(a[0]), ex.toint(a[1])
    w = I.ty.w
    if '.s' in I.x:
        x, y = ex.signed(st, x, w), ex.signed(st, y, w)
    else:
        x, y = ex.unsigned(st, x, w), ex.unsigned(st, y, w)
    c = t.le0(st.norm(x - y), st.bnd)
    out = []
    for s, tk in ex.branch(st, c, I):
        out.append((s, (x if tk else y) if 'min' in I.x else (y if tk else x)))
    return out


def absv(ex, st, a, I):
    x = ex.signed(st, ex.toint(a[0]), I.ty.w)
    out = []
    for s, tk in ex.branch(st, t.le0(st.norm(-x), st.bnd), I):
        out.append((s, x if tk else -x))
    return out


def elemload(ex, st, p, ty, I):
    return ex.havoc_ty(ty, 'elem')


def elemstore(ex, st, p, v, ty, I):
    ex.ob(st, t.F, 'element memory is only written by element operations', 'frame', I)


# ---------------------------------------------------------------- failure
def cstring(ex, st, p):
    if not isinstance(p, Ptr) or p.obj is None:
        return ''
    cells = st.mem.get(p.obj, {})
    off = st.norm(p.off).const() or 0
    s = ''
    while off in cells:
        c = cells[off][0].const()
        if not c:
            break
        s += chr(c & 255)
        off += 1
    return s


def assert_fail(ex, st, a, I):
    msg = cstring(ex, st, a[0])
    if not ex.quiet:
        ex.ob(st, st.abort, 'assert(%s) fails only when the contract says so' % msg[:120], 'assert', I)
        snap = st.ghost.get('#snap')
        for g, v in st.ghost.items():
            if isinstance(v, R) and g[0] != '#' and st.abort != t.F:
                ex.ob(st, t.T if trace.equal(ex, st, v, snap.get(g, R()) if snap else R()) else t.F, 'no element is touched before the assertion fails', 'assert', I)
        if ex.feasible(st):
            ex.reached += 1
    return 'end'


def abort(ex, st, a, I):
    ex.ob(st, t.F, 'no call to %s' % I.x, 'assert', I)
    return 'end'


# ---------------------------------------------------------------- heap
def new(ex, st, a, I):
    from exec import Obj
    o = Obj('heap', ex.unsigned(st, ex.toint(a[0]), 64), 'heap')
    st.mem[o] = {}
    st.own.add(o)
    st.heap[o] = 'live'
    return Ptr(o, ZERO)


def delete(ex, st, a, I):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is None and not st.norm(p.off).t:
        return None
    if not isinstance(p, Ptr) or p.obj is None or st.heap.get(p.obj) != 'live' or st.norm(p.off).t:
        ex.ob(st, t.F, 'deallocated pointer is the start of a live allocation', 'safety', I)
        return 'end'
    ex.writable(st, p.obj, I)
    st.heap[p.obj] = 'freed'
    return None


# ---------------------------------------------------------------- contract language
def vc_range(ex, st, a, I):
    name = cstring(ex, st, a[0])
    lo, hi = a[1].const(), a[2].const()
    if lo == hi:
        return K(lo)
    v = t.fresh(name, lo, hi)
    st.inputs = st.inputs + ((name, v),)
    return v


def vc_rangei(ex, st, a, I):
    name = cstring(ex, st, a[0]) + str(st.norm(a[1]).const())
    lo, hi = a[2].const(), a[3].const()
    if lo == hi:
        return K(lo)
    v = t.fresh(name, lo, hi)
    st.inputs = st.inputs + ((name, v),)
    return v


def vc_bool(ex, st, a, I):
    name = cstring(ex, st, a[0])
    b = t.bvar(name)
    st.inputs = st.inputs + ((name, b),)
    return b


def vc_any(ex, st, a, I):
    """An arbitrary boolean, not an input (uninterpreted element comparison)."""
    b = t.bvar('any')
    st.inputs = st.inputs + (('#any', b),)
    return b


def vc_requires(ex, st, a, I):
    b = boolof(ex, st, a[0])
    ex.assume(st, b)
    if not st.dead and not ex.feasible(st):
        st.dead = True
    return 'end' if st.dead else None


def boolof(ex, st, v):
    if isinstance(v, P):
        return t.Not(t.eq0(st.norm(v), st.bnd))
    if isinstance(v, Unknown):
        return t.bvar('?')
    return v


def vc_ensures(ex, st, a, I):
    ex.ob(st, boolof(ex, st, a[0]), cstring(ex, st, a[1]), 'post', I)
    if not ex.quiet:
        ex.posts.add(cstring(ex, st, a[1]))
    return None


def vc_abort_if(ex, st, a, I):
    st.abort = st.nb(boolof(ex, st, a[0]))
    st.ghost['#snap'] = Snap({g: v for g, v in st.ghost.items() if isinstance(v, R)})
    return None


class Snap(dict):
    def __eq__(self, o):
        return isinstance(o, Snap) and dict.__eq__(self, o)

    def __hash__(self):
        return id(self)


def vc_mode(ex, st, a, I):
    st.mode = a[0].const()
    return None


def vc_feasible(ex, st, a, I):
    """Prunes infeasible paths."""
    return None if ex.feasible(st) else 'end'


def vc_region(ex, st, a, I):
    from exec import Obj
    name = cstring(ex, st, a[0])
    o = Obj(name, None, 'elems')
    n = st.ghost.get('#regions', ZERO).const() + 1
    st.ghost['#regions'] = K(n)
    o.tag = n
    st.mem[o] = {}
    return Ptr(o, ZERO)


def rid(ex, st, p):
    if isinstance(p, Unknown):
        return K(-7)
    if p.obj is None:
        return K(-1)
    if p.obj.kind == 'elems':
        return K(p.obj.tag)
    return K(1000 + p.obj.n)


def vc_rid(ex, st, a, I):
    return rid(ex, st, a[0])


def vc_off(ex, st, a, I):
    p = a[0]
    if isinstance(p, Unknown):
        return t.fresh('badptr')
    return st.norm(p.off)


def addtrace(st, tag, r):
    g = 'tr%d' % tag
    st.ghost[g] = st.ghost.get(g, R()) + r


def ints(ex, st, p, n, I):
    from exec import Obj
    out = []
    ty = ex.i64
    for i in range(n):
        out.append(st.norm(ex.signed(st, ex.toint(ex.load(st, Ptr(p.obj, p.off + 8 * i), ty, I)), 64)))
    return out


def vc_visit(ex, st, a, I):
    tag, n = a[0].const(), a[1].const()
    addtrace(st, tag, t.mkterm(ONE, [], tuple(ints(ex, st, a[2], n, I))))
    return None


def vc_touch1(ex, st, a, I):
    addtrace(st, a[0].const(), t.mkterm(ONE, [], (rid(ex, st, a[1]), vc_off(ex, st, [a[1]], I))))


def vc_touch2(ex, st, a, I):
    addtrace(st, a[0].const(), t.mkterm(ONE, [], (rid(ex, st, a[1]), vc_off(ex, st, [a[1]], I), rid(ex, st, a[2]), vc_off(ex, st, [a[2]], I))))


def vc_box(ex, st, a, I):
    """vc_box(tag, count, arity, nd, base[arity], dims[nd*(1+arity)])"""
    tag, cnt, ar, nd = a[0].const(), st.norm(ex.toint(a[1])), a[2].const(), a[3].const()
    base = ints(ex, st, a[4], ar, I)
    dims = ints(ex, st, a[5], nd * (1 + ar), I)
    gs = [(dims[i * (1 + ar)], tuple(dims[i * (1 + ar) + 1:(i + 1) * (1 + ar)])) for i in range(nd)]
    addtrace(st, tag, t.mkterm(cnt, gs, tuple(base)))
    return None


def vc_same(ex, st, a, I):
    """Obligation: the multisets recorded under two tags are equal."""
    if ex.quiet:
        return None
    name = cstring(ex, st, a[2])
    ex.posts.add(name)
    x, y = st.ghost.get('tr%d' % a[0].const(), R()), st.ghost.get('tr%d' % a[1].const(), R())
    if same_split(ex, st, x, y, 0):
        ex.ob(st, t.T, name, 'post', I)
    elif not ex.feasible(st):
        return 'end'
    else:
        from exec import Ob
        ex.obs.append(Ob(name, 'post', ex.loc(I), 'unknown', 'ring normaliser', 'visited: %r\n  required: %r' % (x.map(st.norm), y.map(st.norm)),
                         ' && '.join(t.bstr(b) for b in ex.pcs(st))[:3000]))
    return None


def same_split(ex, st, x, y, depth):
    if trace.equal(ex, st, x, y, False):
        return True
    if not ex.feasible(st):
        return True
    if depth > 14:
        return trace.equal(ex, st, x, y)
    for b in ex.pcs(st):
        if b[0] == 'or' and len(b[1]) <= 40:
            for c in sorted(b[1], key=repr):
                s = st.copy()
                s.pc = tuple(q for q in ex.pcs(st) if q is not b)
                s.npc = None
                ex.assume(s, c)
                if not s.dead and not same_split(ex, s, x, y, depth + 1):
                    return False
            return True
    return trace.equal(ex, st, x, y)


def vc_readonly(ex, st, a, I):
    """From here on other threads may read the object, the allocations and element memory there are, and the globals.
    null: no longer."""
    if a[0].obj is None:
        st.ghost.pop('#ro', None)
        return None
    ro = st.ghost.get('#ro', frozenset())
    st.ghost['#ro'] = ro | {a[0].obj} | {o for o in st.mem if o.kind in ('heap', 'elems')}
    return None


def vc_reset(ex, st, a, I):
    st.ghost.pop('tr%d' % a[0].const(), None)
    return None
