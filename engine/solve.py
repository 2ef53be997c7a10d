"""Discharging: linear abstraction + product lemmas + nonlinear integer arithmetic (z3), cvc5 as second back end."""
import time
import z3
import terms as t

SCALE = 1
STATS = {'queries': 0, 'time': 0.0}


class Solver:
    def __init__(self):
        self.cache = {}
        self.mono = {}
        self.memo = {}
        self.by = {}
        self.models = []
        self.memo2 = {}
        self.iv, self.zp, self.zb, self.zd, self.zprod = {}, {}, {}, {}, {}

    # ---- conversion (cached); every expression carries the atoms and monomials it needs
    def ivar(self, a):
        x = self.iv.get(a)
        if x is None:
            x = self.iv[a] = z3.Int('x%d' % a if isinstance(a, int) else 'm_' + '_'.join(map(str, a)))
        return x

    def zpoly(self, p, lin):
        key = (p, lin)
        r = self.zp.get(key)
        if r is not None:
            return r
        s, need = [], set()
        for m, c in p.t.items():
            if not m:
                s.append(z3.IntVal(c))
                continue
            need.update(m)
            if len(m) == 1:
                x = self.ivar(m[0])
            elif lin:
                need.add(m)
                x = self.ivar(m)
            else:
                x = self.zprod.get(m)
                if x is None:
                    x = self.zprod[m] = z3.Product(*[self.ivar(a) for a in m])
            s.append(x if c == 1 else c * x)
        e = z3.IntVal(0) if not s else s[0] if len(s) == 1 else z3.Sum(s)
        r = self.zp[key] = (e, frozenset(need))
        return r

    def zbool(self, b, lin):
        key = (b, lin)
        r = self.zb.get(key)
        if r is not None:
            return r
        k = b[0]
        need = frozenset()
        if k == 'c':
            e = z3.BoolVal(b[1])
        elif k == 'le':
            e, need = self.zpoly(b[1], lin)
            e = e <= 0
        elif k == 'eq':
            e, need = self.zpoly(b[1], lin)
            e = e == 0
        elif k == 'bv':
            e = z3.Bool('b%d' % b[1])
        elif k == 'not':
            e, need = self.zbool(b[1], lin)
            e = z3.Not(e)
        else:
            xs = [self.zbool(x, lin) for x in b[1]]
            need = frozenset().union(*[n for _, n in xs])
            e = z3.And(*[x for x, _ in xs]) if k == 'and' else z3.Or(*[x for x, _ in xs])
        r = self.zb[key] = (e, need)
        return r

    def zdef(self, a, lin):
        """Defining constraints of an atom."""
        key = (a, lin)
        r = self.zd.get(key)
        if r is not None:
            return r
        at = t.C.atoms[a]
        x = self.ivar(a)
        cs, need = [], set()

        def poly(p):
            e, n = self.zpoly(p, lin)
            need.update(n)
            return e

        def boolean(b):
            e, n = self.zbool(b, lin)
            need.update(n)
            return e
        if at.lo != -t.INF:
            cs.append(x >= at.lo)
        if at.hi != t.INF:
            cs.append(x <= at.hi)
        d = at.dfn
        if at.kind == 'iv':
            cs.append(x == z3.If(boolean(d), 1, 0))
        elif at.kind == 'ite':
            cs.append(x == z3.If(boolean(d[0]), poly(d[1]), poly(d[2])))
        elif at.kind in ('div', 'mod'):
            qa, ra = (a, d[2]) if at.kind == 'div' else (d[2], a)
            q, r = t.V(t.C.atoms[qa]), t.V(t.C.atoms[ra])
            num, den = d[0], d[1]
            # trunc division: num = q*den + r, |r| < |den|, sign(r) = sign(num)
            zr, zn, zd = poly(r), poly(num), poly(den)
            cs.append(zn == poly(q * den + r))
            cs.append(z3.Implies(zd > 0, z3.And(zr < zd, zr > -zd)))
            cs.append(z3.Implies(zd < 0, z3.And(zr < -zd, zr > zd)))
            cs.append(z3.Implies(zn >= 0, zr >= 0))
            cs.append(z3.Implies(zn <= 0, zr <= 0))
        elif at.kind == 'wrap':
            cs.append(poly(d[0]) == x + (1 << d[1]) * z3.Int('w%d' % a))
        r = self.zd[key] = (cs, frozenset(need))
        return r

    def build(self, bs, lin, bnd):
        zs = []
        todo = set()
        for b in bs:
            e, n = self.zbool(b, lin)
            zs.append(e)
            todo |= n
        done = set()
        while todo:
            a = todo.pop()
            done.add(a)
            if isinstance(a, int):
                cs, n = self.zdef(a, lin)
                zs.extend(cs)
                todo |= n - done
            else:
                lo, hi = t.mono_interval(a, bnd)
                x = self.ivar(a)
                if lo != -t.INF:
                    zs.append(x >= lo)
                if hi != t.INF:
                    zs.append(x <= hi)
        return zs, done

    def check(self, bs, bnd=None, lin=True, timeout=2000, want_model=False):
        """'unsat' / 'sat' / 'unknown' of the conjunction."""
        key = (frozenset(bs), frozenset(bnd.items()) if bnd else 0, lin, timeout if not lin else 0)
        if not want_model and key in self.memo:
            return self.memo[key]
        t0 = time.time()
        zs, defs = self.build(bs, lin, bnd)
        s = z3.SimpleSolver() if lin else z3.Solver()
        s.set('timeout', int(timeout * SCALE))
        s.add(*zs)
        r = str(s.check())
        STATS['queries'] += 1
        STATS['time'] += time.time() - t0
        if want_model:
            return r, (s.model() if r == 'sat' else None), defs
        self.memo[key] = r
        return r

    # ---- product lemmas: linear reasoning over monomials + pairwise products of hypotheses
    def products(self, bs, goalneg, bnd, timeout=4000):
        ineqs = []
        for b in bs + [goalneg]:
            if b[0] == 'le':
                ineqs.append(-b[1])          # p >= 0
            elif b[0] == 'eq':
                ineqs.append(b[1])
                ineqs.append(-b[1])
            elif b[0] == 'and':
                for x in b[1]:
                    if x[0] == 'le':
                        ineqs.append(-x[1])
        monos = set()
        ats = set()
        for p in ineqs:
            for m in p.t:
                if len(m) > 1:
                    monos.add(m)
                ats.update(m)
        for a in ats:
            A = t.C.atoms[a]
            lo, hi = A.lo, A.hi
            if bnd and (a,) in bnd:
                lo, hi = bnd[(a,)]
            x = t.V(A)
            if lo != -t.INF:
                ineqs.append(x - lo)
            if hi != t.INF:
                ineqs.append(-x + hi)
        seen = set()
        uniq = []
        for p in ineqs:
            if p not in seen and p.const() is None:
                seen.add(p)
                uniq.append(p)
        extra = []
        maxdeg = max([len(m) for m in monos] + [1])
        for i in range(len(uniq)):
            for j in range(i, len(uniq)):
                p, q = uniq[i], uniq[j]
                dp = max(len(m) for m in p.t)
                dq = max(len(m) for m in q.t)
                if dp + dq > max(2, maxdeg):
                    continue
                pr = p * q
                big = [m for m in pr.t if len(m) > 1]
                if big and any(m in monos for m in big) and len(pr.t) <= 14:
                    extra.append(('le', -pr))
        if len(extra) > 3000:
            extra = extra[:3000]
        zs_b = bs + [goalneg] + extra
        return self.check(zs_b, bnd, True, timeout)

    # ---- sample models: cheap refutation
    def evala(self, a, m, memo):
        v = memo.get(a)
        if v is None:
            at = t.C.atoms[a]
            d = at.dfn
            if at.kind == 'var':
                v = m.get(a)
                if v is None:
                    v = 0 if at.lo <= 0 <= at.hi else at.lo if at.lo != -t.INF else at.hi
            elif at.kind == 'iv':
                v = int(self.evalb(d, m, memo))
            elif at.kind == 'ite':
                v = self.evalp(d[1] if self.evalb(d[0], m, memo) else d[2], m, memo)
            elif at.kind in ('div', 'mod'):
                x, y = self.evalp(d[0], m, memo), self.evalp(d[1], m, memo)
                if y == 0:
                    raise ZeroDivisionError
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                v = q if at.kind == 'div' else x - q * y
            elif at.kind == 'wrap':
                x = self.evalp(d[0], m, memo)
                w = d[1]
                v = (x - at.lo) % (1 << w) + at.lo
            if not (at.lo <= v <= at.hi):
                raise ZeroDivisionError
            memo[a] = v
        return v

    def evalp(self, p, m, memo):
        r = 0
        for mm, c in p.t.items():
            for a in mm:
                c = c * self.evala(a, m, memo)
            r += c
        return r

    def evalb(self, b, m, memo):
        k = b[0]
        if k == 'c':
            return b[1]
        if k == 'le':
            return self.evalp(b[1], m, memo) <= 0
        if k == 'eq':
            return self.evalp(b[1], m, memo) == 0
        if k == 'not':
            return not self.evalb(b[1], m, memo)
        if k == 'bv':
            return bool(m.get(b, False))
        if k == 'and':
            return all(self.evalb(x, m, memo) for x in b[1])
        return any(self.evalb(x, m, memo) for x in b[1])

    def sample_refutes(self, bs, bnd):
        """A cached model satisfying all of bs (and the bounds)?"""
        for i in range(len(self.models) - 1, -1, -1):
            m = self.models[i]
            memo = {}
            try:
                if not self.evalb(bs[-1], m, memo):
                    continue
                if not all(self.evalb(b, m, memo) for b in bs[:-1]):
                    continue
                ok = True
                for mono, (lo, hi) in (bnd or {}).items():
                    v = 1
                    for a in mono:
                        v *= self.evala(a, m, memo)
                    if not (lo <= v <= hi):
                        ok = False
                        break
                if ok:
                    if i < len(self.models) - 1:
                        self.models.append(self.models.pop(i))
                    return m
            except (ZeroDivisionError, KeyError, TypeError):
                continue
        return None

    def sat(self, bs, bnd):
        """False if the conjunction is shown unsatisfiable."""
        key = (frozenset(bs), frozenset(bnd.items()) if bnd else 0)
        if key in self.memo2:
            return self.memo2[key]
        if not bs or self.sample_refutes(bs, bnd) is not None:
            r = True
        else:
            r, m, defs = self.check(bs, bnd, True, 1500, True)
            if r == 'sat':
                m = self.keep(self.values(m, defs))
            r = r != 'unsat'
        self.memo2[key] = r
        return r

    def keep(self, m):
        m = {a: v for a, v in m.items() if isinstance(a, tuple) or t.C.atoms[a].kind == 'var'}
        self.models.append(m)
        if len(self.models) > 24:
            del self.models[0]
        return m

    def prove(self, pc, goal, bnd, deep=True):
        """Is pc |= goal?  Returns (status, backend, model-or-None); status in 'proved','refuted','unknown'."""
        ng = t.Not(goal)
        bs = list(pc)
        if not deep and self.sample_refutes(bs + [ng], bnd) is not None:
            return 'refuted', 'sample', None
        if self.check(bs + [ng], bnd, True, 5000) == 'unsat':
            return 'proved', 'z3-lia', None
        if not deep:
            r, m, defs = self.check(bs + [ng], bnd, False, 600, True)
            if r == 'unsat':
                return 'proved', 'z3-nia', None
            if r == 'sat':
                self.keep(self.values(m, defs))
            return 'unknown', '', None
        r, m, defs = self.check(bs + [ng], bnd, False, 2500, True)
        if r == 'unsat':
            return 'proved', 'z3-nia', None
        if r == 'sat':
            return 'refuted', 'z3-nia', self.values(m, defs)
        if self.products(bs, ng, bnd) == 'unsat':
            return 'proved', 'z3-lia+products', None
        r = self.cvc5(bs + [ng], bnd, 10000)
        if r == 'unsat':
            return 'proved', 'cvc5-nia', None
        r, m, defs = self.check(bs + [ng], bnd, False, 15000, True)
        if r == 'unsat':
            return 'proved', 'z3-nia', None
        if r == 'sat':
            return 'refuted', 'z3-nia', self.values(m, defs)
        return 'unknown', '', None

    def cvc5(self, bs, bnd, timeout):
        import subprocess
        t0 = time.time()
        zs, defs = self.build(bs, False, bnd)
        s = z3.Solver()
        s.add(*zs)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            r = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % int(timeout * SCALE), '-q'], input=txt, capture_output=True,
                               text=True, timeout=timeout * SCALE / 1000 + 5).stdout.strip().split('\n')[0]
        except Exception:
            r = 'unknown'
        STATS['queries'] += 1
        STATS['time'] += time.time() - t0
        return r

    def values(self, m, defs):
        """Values of the atoms in defs and of the booleans the model decides (others may be anything: 0, false)."""
        C = m.ctx.ref()
        out = {a: 0 for a in defs if isinstance(a, int)}
        for i in range(z3.Z3_model_get_num_consts(C, m.model)):
            d = z3.Z3_model_get_const_decl(C, m.model, i)
            n = z3.Z3_get_symbol_string(C, z3.Z3_get_decl_name(C, d))
            if n[0] == 'x':
                a = int(n[1:])
                if a in out:
                    v = z3.Z3_model_get_const_interp(C, m.model, d)
                    try:
                        out[a] = int(z3.Z3_get_numeral_string(C, v))
                    except Exception:
                        del out[a]
            elif n[0] == 'b':
                v = z3.Z3_model_get_const_interp(C, m.model, d)
                out[('bv', int(n[1:]))] = z3.Z3_get_bool_value(C, v) == z3.Z3_L_TRUE
        return out
