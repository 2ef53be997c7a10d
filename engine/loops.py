"""Loops: every loop is summarised by an inductive invariant found by guess-and-check (closed forms in the
iteration count, ring closed forms for visit traces, relations between flags), checked on a generic iteration,
with a ranking argument (k <= T*).  Loops whose exit is decided by constants are executed iteration by iteration."""
import terms as t
from terms import P, K, V, ZERO, ONE, Ptr, NULL, Unknown, R
import solve

MAXUNROLL = 80


def run(ex, f, h, st):
    from exec import LoopFail, Giveup
    body = f.loops[h]
    out = []
    work = [(st, 0)]
    while work:
        s, n = work.pop()
        if s.dead:
            continue
        c = peek(ex, f, h, s)
        if c == 'const':
            if n > MAXUNROLL:
                raise Giveup('loop with more than %d constant iterations' % MAXUNROLL)
            unroll1(ex, f, h, body, s, n, work, out)
            continue
        try:
            out += summarise(ex, f, h, body, s)
        except LoopFail as e:
            if n > MAXUNROLL:
                raise Giveup('loop %s: %s' % (where(ex, f, h), e))
            if n > 3 and not shrinking(ex, f, h):
                raise Giveup('no inductive summary for loop %s: %s' % (where(ex, f, h), e))
            unroll1(ex, f, h, body, s, n, work, out)
    return out


def shrinking(ex, f, h):
    """Loops that multiply or divide their control variable terminate within the word size: unroll them."""
    for b in f.loops[h]:
        for I in f.blocks[b].ins:
            if I.op in ('shl', 'lshr', 'ashr', 'srem', 'urem', 'sdiv', 'udiv'):
                return True
    return False


def where(ex, f, h):
    for I in f.blocks[h].ins:
        l = ex.loc(I)
        if l:
            return l
    return f.name


def unroll1(ex, f, h, body, s, n, work, out):
    res = ex.region(f, h, body, [(s, None)], header=h)
    for tgt, lst in res.items():
        for s2, x in lst:
            if tgt == h:
                if n < 40 or ex.feasible(s2):
                    work.append((s2, n + 1))
            else:
                out.append((tgt, s2, x))


def peek(ex, f, h, st, want=False):
    """Execute up to the first branch that can leave the loop.  'const' if it is decided by constants;
    with want: (condition to continue or None)."""
    from exec import Giveup, Fork
    body = f.loops[h]
    s = st.copy()
    b = h
    oldq = ex.quiet
    ex.quiet += 1
    nobs = len(ex.obs)
    try:
        for _ in range(8):
            B = f.blocks[b]
            defs = {}
            for I in B.ins:
                op = I.op
                if op == 'phi':
                    continue
                if op in ('ret', 'switch', 'unreachable'):
                    return None
                if op == 'br':
                    break
                if op == 'call':
                    if I.x is None or not (I.x.startswith('llvm.lifetime') or I.x.startswith('llvm.assume')):
                        return None
                    ex.call(s, I)
                    continue
                if op == 'select':
                    return None
                defs[I.id] = I
                s.env[I.id] = ex.simple(s, I)
                if s.dead:
                    return None
            if not I.ops:
                if I.x[0] not in body or I.x[0] == h:
                    return None
                ex.phis(s, f, b, I.x[0])
                b = I.x[0]
                continue
            c = ex.val(s, I.ops[0])
            if isinstance(c, P):
                c = ex.tobool(s, c)
            if not isinstance(c, tuple):
                return None
            c = s.nb(c)
            in0, in1 = I.x[0] in body, I.x[1] in body
            if in0 and in1:
                if c[0] == 'c':
                    nb_ = I.x[0] if c[1] else I.x[1]
                    if nb_ == h:
                        return None
                    ex.phis(s, f, b, nb_)
                    b = nb_
                    continue
                return None
            if want:
                return c if in0 else t.Not(c)
            if c[0] != 'c':
                return None
            # decided: by constants?
            o = I.ops[0]
            for _ in range(6):
                d = defs.get(o[1]) if o[0] == 'v' else None
                if d is None:
                    return 'const' if o[0] == 'c' or True else None
                if d.op == 'icmp':
                    vals = [ex.val(s, x) for x in d.ops]
                    for v in vals:
                        if isinstance(v, P):
                            if s.norm(v).const() is None:
                                return None
                        elif isinstance(v, Ptr):
                            if s.norm(v.off).const() is None:
                                return None
                        else:
                            return None
                    return 'const'
                if d.op in ('zext', 'trunc', 'freeze', 'xor'):
                    o = d.ops[0]
                    continue
                return 'const'
            return None
        return None
    except (Giveup, Fork):
        return None
    finally:
        ex.quiet = oldq
        del ex.obs[nobs:]


# ------------------------------------------------------------------ slots
def getslot(st, sl):
    k = sl[0]
    if k == 'e':
        return st.env.get(sl[1])
    if k == 'm':
        c = st.mem.get(sl[1], {}).get(sl[2])
        return None if c is None or c[1] != sl[3] else c[0]
    return st.ghost.get(sl[1])


def setslot(st, sl, v):
    k = sl[0]
    if k == 'e':
        st.env[sl[1]] = v
    elif k == 'm':
        cells = st.cells(sl[1])
        if v is None:
            cells.pop(sl[2], None)
        else:
            cells[sl[2]] = (v, sl[3])
    else:
        st.ghost[sl[1]] = v


def changed(ex, phis, a, b):
    """Slots whose value in b (after an iteration) differs from a."""
    out = []
    for i in phis:
        if not ex.same(norm(b, a.env.get(i)), norm(b, b.env.get(i))):
            out.append(('e', i))
    for o, ca in a.mem.items():
        cb = b.mem.get(o)
        if cb is ca:
            continue
        if cb is None:
            cb = {}
        for off, (v, sz) in ca.items():
            w = cb.get(off)
            if w is None or w[1] != sz or not ex.same(norm(b, v), norm(b, w[0])):
                out.append(('m', o, off, sz))
    for g in set(a.ghost) | set(b.ghost):
        x, y = a.ghost.get(g), b.ghost.get(g)
        if x is None:
            x = zero_like(y)
        if not ex.same(norm(b, x), norm(b, y)):
            out.append(('g', g))
    return out


def zero_like(y):
    return R() if isinstance(y, R) else ZERO if isinstance(y, P) else t.F


def norm(st, v):
    return st.nval(v) if v is not None else None


def invariant(v, natoms, nbools):
    """Does v depend only on values that existed before the loop?"""
    at = t.C.atoms

    def okset(s):
        for a in s:
            if isinstance(a, tuple):
                if a[1] >= nbools:
                    return False
            elif at[a].kind == 'var' and a >= natoms:
                return False
        return True
    if isinstance(v, P):
        return okset(t.pdeps(v))
    if isinstance(v, tuple):
        return okset(t.batoms(v))
    if isinstance(v, R):
        return all(invariant(c, natoms, nbools) and all(invariant(n, natoms, nbools) and all(invariant(x, natoms, nbools) for x in s2) for n, s2 in gs)
                   and all(invariant(x, natoms, nbools) for x in exv) for (gs, exv), c in v.t.items())
    return False


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


def splitcond(st0, states, natoms, nbools):
    """A loop-invariant condition that distinguishes some of the states."""
    n0 = len(st0.pc)
    sets = []
    for s in states:
        cs = set(s.pc[n0:])
        for b, v in s.sub.items():
            if isinstance(b, tuple) and b not in st0.sub:
                cs.add(b if v == t.T else t.Not(b))
        sets.append(cs)
    cand = []
    for i, cs in enumerate(sets):
        for c in cs:
            if not all(c in o for o in sets) and c[0] in ('le', 'eq', 'not', 'bv', 'or') and invariant(c, natoms, nbools):
                # prefer conditions whose negation occurs elsewhere
                sc = sum(1 for o in sets if t.Not(c) in o)
                cand.append((-sc, len(repr(c)), repr(c), c))
    if not cand:
        return None
    return min(cand)[3]


def summarise(ex, f, h, body, st0):
    out = []
    work = [(st0, 0)]
    while work:
        s, depth = work.pop()
        try:
            out += summary(ex, f, h, body, s.copy(), s.mode == 1)
        except Split as e:
            if depth > 6:
                from exec import LoopFail
                raise LoopFail('too many splits')
            for c in (e.cond, t.Not(e.cond)):
                s2 = s.copy()
                ex.assume(s2, c)
                if not s2.dead and ex.feasible(s2):
                    work.append((s2, depth + 1))
    return out


def summary(ex, f, h, body, st0, full):
    from exec import LoopFail, Giveup, Ob
    phis = [I.id for I in f.blocks[h].ins if I.op == 'phi']
    norm_state(st0, f, ex)
    natoms, nbools = len(t.C.atoms), len(t.C.bools)

    # ---- first iteration: guess what changes and by how much
    ex.quiet += 1
    try:
        first = ex.region(f, h, body, [(st0.copy(), None)], header=h)
    finally:
        ex.quiet -= 1
    back = [s for s, _ in first.get(h, []) if ex.feasible(s)]
    if not back:
        if ex.quiet:
            return flatten(first, h)
        return flatten(ex.region(f, h, body, [(st0, None)], header=h), h)
    slots = {}          # slot -> ('aff', start, delta) / ('hav',) / ('ring', start) / ('drop',)

    def guess(states):
        for s in states:
            for sl in changed(ex, phis, st0, s):
                if sl in slots:
                    continue
                a = getslot(st0, sl)
                if a is None and sl[0] == 'g':
                    a = zero_like(getslot(s, sl))
                ds = []
                kind = None
                for s2 in states:
                    b = getslot(s2, sl)
                    if b is None and sl[0] == 'g':
                        b = a
                    if isinstance(a, R):
                        kind = ('ring', a)
                        break
                    if b is None:
                        kind = ('drop',)
                        break
                    if isinstance(a, P) and isinstance(b, P):
                        ds.append(s2.norm(b - a))
                    elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                        ds.append(s2.norm(b.off - a.off))
                    elif isinstance(a, (tuple, P)) and isinstance(b, (tuple, P)):
                        kind = ('hav',)
                    elif isinstance(a, Unknown) or isinstance(b, Unknown):
                        kind = ('hav',)
                    else:
                        raise LoopFail('value of changing kind')
                if kind is None:
                    if any(d != ds[0] for d in ds):
                        if len(states) > 1:
                            c = splitcond(st0, states, natoms, nbools)
                            if c is not None:
                                raise Split(c)
                        kind = ('hav',)
                    elif not invariant(ds[0], natoms, nbools):
                        kind = ('hav',)
                    else:
                        kind = ('aff', a, ds[0])
                slots[sl] = kind
    guess(back)

    dropped_rel = set()
    mon = {}
    k = t.fresh('k', 0, t.INF)
    kid = next(iter(k.atoms()))
    for attempt in range(24):
        st1 = st0.copy()
        st1.bnd[(kid,)] = (0, t.INF)
        flags = []
        for sl, kd in slots.items():
            if kd[0] == 'aff':
                a = kd[1]
                setslot(st1, sl, Ptr(a.obj, a.off + k * kd[2]) if isinstance(a, Ptr) else a + k * kd[2])
            elif kd[0] == 'ring':
                setslot(st1, sl, R())
            elif kd[0] == 'drop':
                setslot(st1, sl, None)
            elif kd[0] == 'hav':
                a = getslot(st0, sl)
                if a is None and sl[0] == 'g':
                    a = t.F
                isflag = isinstance(a, tuple) or (isinstance(a, P) and all(isflagval(ex, s, getslot(s, sl)) for s in back + [st0]))
                if isflag:
                    bv = t.bvar('flag')
                    flags.append((sl, a, bv))
                    setslot(st1, sl, bv if isinstance(a, tuple) else t.iverson(bv))
                elif isinstance(a, P):
                    w = sl[3] * 8 if sl[0] == 'm' else 64
                    setslot(st1, sl, t.fresh('h', -(1 << (w - 1)), (1 << (w - 1)) - 1))
                elif isinstance(a, Ptr):
                    setslot(st1, sl, Ptr(a.obj, t.fresh('hp')))
                else:
                    setslot(st1, sl, Unknown('hav'))
        # relations between flags (Houdini)
        rels = []
        for i in range(len(flags)):
            for j in range(i):
                for neg in (False, True):
                    key = (flags[i][0], flags[j][0], neg)
                    if key in dropped_rel:
                        continue
                    r0 = relation(st0, flags[i][1], flags[j][1], neg)
                    if ex.entails(st0, r0):
                        rels.append((key, flags[i], flags[j], neg))
                        ex.assume(st1, t.Iff(flags[i][2], t.Not(flags[j][2]) if neg else flags[j][2]))
                    else:
                        dropped_rel.add(key)
            for val in (t.T, t.F):
                key = (flags[i][0], val)
                if key in dropped_rel:
                    pass
                elif ex.entails(st0, t.Iff(asbool(st0, flags[i][1]), val)):
                    rels.append((key, flags[i], None, val))
                    ex.assume(st1, t.Iff(flags[i][2], val))
                else:
                    dropped_rel.add(key)
            # after the first iteration: the opposite of what it is at the start
            for val in (t.T, t.F):
                base, key = (flags[i][0], t.Not(val)), (flags[i][0], 'k', val)
                if key in dropped_rel or base not in dropped_rel or (val == t.F and (flags[i][0], 'k', t.T) not in dropped_rel):
                    continue
                rels.append((key, flags[i], None, val))
                ex.assume(st1, t.Or(t.le0(k), t.Iff(flags[i][2], val)))

        # ---- number of iterations
        sp = st1.copy()
        sp.bnd[(kid,)] = (0, 1 << 40)      # only for guessing the iteration count
        cont = peek(ex, f, h, sp, True)
        T = trip(cont, kid, natoms, nbools) if cont is not None else None
        if T is None:
            T = trip_back(ex, f, h, body, sp, kid, natoms, nbools)
        if T is None:
            later = [r[0] for r in rels if r[0][1] == 'k']
            if later:
                dropped_rel.update(later)
                continue
            raise LoopFail('iteration count')
        T = st0.norm(T)
        if not ex.entails(st0, t.le0(-T)):
            # T* < 0: the closed form of the exit condition does not apply
            raise_split(ex, st0, t.le0(-st0.norm(T)), f, h, body)
        ex.assume(st1, t.le0(st1.norm(k - T)))
        st1.npc = None

        # ---- generic iteration
        saved = ex.obs
        savedf = set(ex.failed)
        ex.obs = []
        start = st1.copy()
        ok = False
        try:
            res = ex.region(f, h, body, [(st1, None)], header=h)
            back2 = [s for s, _ in res.get(h, []) if ex.feasible(s)]
            ok = check(ex, f, h, phis, slots, start, back2, k, kid, T, rels, dropped_rel, st0, natoms, nbools, guess, mon)
        finally:
            new = ex.obs
            ex.obs = saved
            if not ok:
                ex.failed.clear()
                ex.failed.update(savedf)
        if not ok:
            continue
        ex.obs.extend(new)
        if not ex.quiet:
            ex.ob(start, t.T, 'loop invariant is inductive and the loop terminates', 'loop', f.blocks[h].ins[-1])
        # ---- exits
        ring = mon
        outs = []
        for tgt, lst in res.items():
            if tgt == h:
                continue
            for s2, x in lst:
                if not ex.feasible(s2):
                    continue
                atT = ex.entails(s2, t.eq0(s2.norm(k - T)))
                for sl, kd in slots.items():
                    if kd[0] == 'ring':
                        g = getslot(s2, sl) or R()
                        setslot(s2, sl, kd[1] + closed(ring.get(sl, R()), k, kid) + g)
                if atT:
                    s2.sub[kid] = s2.norm(T)
                    s2.npc = None
                    ex.resub(s2)
                x2 = x
                norm_state(s2, f, ex)
                if tgt == 'ret':
                    x2 = norm(s2, x)
                outs.append((tgt, s2, x2))
        return outs
    raise LoopFail('no inductive invariant')


def flatten(res, h):
    return [(tgt, s, x) for tgt, lst in res.items() if tgt != h for s, x in lst]


def norm_state(s, f, ex):
    if not s.sub:
        return
    s.env = {i: s.nval(v) for i, v in s.env.items()}
    for o in list(s.mem):
        m = s.mem[o]
        n = None
        for off, (v, sz) in m.items():
            w = s.nval(v)
            if not ex.same(v, w):
                if n is None:
                    n = {}
                n[off] = (w, sz)
        if n:
            s.cells(o).update(n)
    for g in s.ghost:
        s.ghost[g] = s.nval(s.ghost[g])


def isflagval(ex, st, v):
    if isinstance(v, tuple):
        return True
    if isinstance(v, P):
        l, hh = t.interval(st.norm(v), st.bnd)
        return l >= 0 and hh <= 1
    return v is None


def asbool(st, v):
    if v is None:
        return t.F
    if isinstance(v, P):
        return t.Not(t.eq0(st.norm(v), st.bnd))
    return st.nb(v)


def relation(st, a, b, neg):
    x, y = asbool(st, a), asbool(st, b)
    return t.Iff(x, t.Not(y) if neg else y)


def raise_split(ex, st0, cond, f, h, body):
    """T* >= 0 is not known.  If T* < 0 is possible then either the body leaves at once or the loop diverges."""
    from exec import LoopFail
    c = st0.nb(cond)
    if c[0] == 'c':
        raise LoopFail('negative iteration count')
    s = st0.copy()
    ex.assume(s, t.Not(c))
    if s.dead or not ex.feasible(s):
        # infeasible after all
        raise Split(c)
    raise Split(c) if not already(st0, c) else LoopFail('iteration count sign')


def already(st, c):
    return c in st.pc or t.Not(c) in st.pc


def lin_in(p, kid):
    """p = c*k + r with k not in r and c free of k; (c, r) or None."""
    c, r = {}, {}
    for m, co in p.t.items():
        n = m.count(kid)
        if n == 0:
            r[m] = co
        elif n == 1:
            mm = list(m)
            mm.remove(kid)
            c[tuple(mm)] = co
        else:
            return None
    for a in P(r).atoms() | P(c).atoms():
        if a != kid and t.C.atoms[a].kind != 'var' and kid in t.deps(a):
            return None
    return P(c), P(r)


def trip(cont, kid, natoms, nbools):
    """First k at which the continue condition fails."""
    conj = sorted(cont[1], key=repr) if cont[0] == 'and' else [cont]
    for c in conj:
        neg = False
        if c[0] == 'le':
            lr = lin_in(c[1], kid)
            if lr is None:
                continue
            co, r = lr
            cc = co.const()
            if cc is None or cc <= 0 or not invariant(r, natoms, nbools):
                continue
            # cc*k + r <= 0  <=>  k <= floor(-r/cc)
            if cc == 1:
                return ONE - r
            q, rem = t.divmod_atoms(-r, K(cc))
            lo, hi = t.interval(-r)
            if lo >= 0:
                return q + 1
            return q + 1 - t.iverson(t.le0(rem + 1))
        if c[0] == 'not' and c[1][0] == 'eq':
            lr = lin_in(c[1][1], kid)
            if lr is None:
                continue
            co, r = lr
            cc = co.const()
            if cc in (1, -1) and invariant(r, natoms, nbools):
                return r * (-cc)
            if cc is None or cc:
                if not co.t:
                    continue
                # exact division
                q, rem = t.divmod_atoms(-r, co)
                if rem == ZERO and invariant(q, natoms, nbools):
                    return q
    return None


def trip_back(ex, f, h, body, st1, kid, natoms, nbools):
    """Iteration bound from the conditions that hold at the back edges (do-while loops)."""
    ex.quiet += 1
    try:
        res = ex.region(f, h, body, [(st1.copy(), None)], header=h)
    finally:
        ex.quiet -= 1
    back = [s for s, _ in res.get(h, []) if ex.feasible(s)]
    cands = None
    n1 = len(st1.pc)
    for s in back:
        cs = set()
        for c in s.pc[n1:]:
            if c[0] in ('le', 'not'):
                T = trip(c, kid, natoms, nbools)
                if T is not None:
                    cs.add(T)
        cands = cs if cands is None else cands & cs
    if cands:
        return sorted(cands, key=repr)[0]
    return None


def check(ex, f, h, phis, slots, st1, back, k, kid, T, rels, dropped_rel, st0, natoms, nbools, guess, mon):
    """Inductive step at every back edge; demotes what fails and returns False to retry."""
    from exec import LoopFail
    ok = True
    n0 = len(slots)
    # newly modified slots
    for s in back:
        for sl in changed(ex, phis, st1, s):
            if sl not in slots:
                a, b = getslot(st1, sl), getslot(s, sl)
                slots[sl] = ('ring', a if a is not None else R()) if isinstance(b, R) else ('drop',) if b is None and sl[0] != 'g' else ('hav',)
                if a is None and isinstance(b, R):
                    slots[sl] = ('ring', R())
                if slots[sl][0] == 'hav' and isinstance(a, P) and isinstance(b, P) and len(back) == 1:
                    d = s.norm(b - a)
                    if invariant(d, natoms, nbools):
                        slots[sl] = ('aff', a, d)
                ok = False
    if not ok:
        return False
    deltas = {}
    for s in back:
        if not ex.entails(s, t.le0(s.norm(k + 1 - T))):
            c = splitcond(st1, back, natoms, nbools) if len(back) > 1 else None
            if c is not None:
                raise Split(c)
            raise LoopFail('the iteration count is not bounded by %r' % T)
        for sl, kd in list(slots.items()):
            b = getslot(s, sl)
            if kd[0] == 'aff':
                a = kd[1]
                if isinstance(a, Ptr):
                    good = isinstance(b, Ptr) and b.obj is a.obj and ex.entails(s, t.eq0(s.norm(b.off - a.off - (k + 1) * kd[2])))
                else:
                    good = isinstance(b, P) and ex.entails(s, t.eq0(s.norm(b - a - (k + 1) * kd[2])))
                if not good:
                    if len(back) > 1:
                        c = splitcond(st1, back, natoms, nbools)
                        if c is not None:
                            raise Split(c)
                    slots[sl] = ('hav',)
                    ok = False
            elif kd[0] == 'ring':
                d = norm(s, (b or R()))
                deltas.setdefault(sl, []).append((s, d))
    if not ok:
        return False
    for key, x, y, neg in rels:
        for s in back:
            vx = asbool(s, getslot(s, x[0]))
            vy = asbool(s, getslot(s, y[0])) if y is not None else neg
            g = t.Iff(vx, t.Not(vy) if (neg is True and y is not None) else vy)
            if not ex.entails(s, g):
                dropped_rel.add(key)
                ok = False
                break
    if not ok:
        return False
    for sl, lst in deltas.items():
        # one expression that describes the visits on every path, each under its own condition
        for _, d0 in lst:
            if all(d == d0 or ring_equal(ex, s, d, d0) for s, d in lst):
                break
        else:
            c = splitcond(st1, back, natoms, nbools)
            if c is not None:
                raise Split(c)
            raise LoopFail('visits differ between paths of one iteration')
        # the sum over the iterations must have a closed form
        if closed(d0, k, kid) is None or not ring_inv(d0, kid, natoms, nbools):
            raise LoopFail('visits of one iteration are not affine in the iteration number')
        mon[sl] = d0
    for sl, kd in slots.items():
        if kd[0] == 'ring' and sl not in deltas:
            mon[sl] = R()
    return True


def ring_inv(d, kid, natoms, nbools):
    """Everything in d other than k existed before the loop."""
    return invariant(d.map(lambda p: p.subst({kid: ZERO})), natoms, nbools) if d.t else True


def ring_equal(ex, s, a, b):
    import trace
    return trace.equal(ex, s, a, b)


def closed(d, k, kid):
    """sum_{0<=i<k} d(i), or None."""
    r = R()
    for (gs, exv), c in d.t.items():
        if kid in t.pdeps(c) or any(kid in t.pdeps(n) or any(kid in t.pdeps(x) for x in s) for n, s in gs):
            return None
        p0, st = [], []
        for x in exv:
            lr = lin_in(x, kid)
            if lr is None:
                return None
            st.append(lr[0])
            p0.append(lr[1])
        r = r + t.mkterm(c, list(gs) + [(k, tuple(st))], tuple(p0))
    return r
