"""Equality of visit multisets (ghost ring elements) under a path condition."""
import terms as t
from terms import P, K, V, ZERO, ONE, R


def merge_factors(gs, eqs):
    """G(e0,s)*G(e1,e0*s) -> G(e0*e1,s), repeatedly.  eqs(p) decides p == 0."""
    gs = list(gs)
    ch = True
    while ch:
        ch = False
        for i in range(len(gs)):
            for j in range(len(gs)):
                if i == j:
                    continue
                (n0, s0), (n1, s1) = gs[i], gs[j]
                if all(eqs(b - n0 * a) for a, b in zip(s0, s1)):
                    new = (n0 * n1, s0)
                    gs = [g for x, g in enumerate(gs) if x not in (i, j)] + [new]
                    ch = True
                    break
            if ch:
                break
    return gs


def simp(ex, st, r, deep):
    eqs = (lambda p: not st.norm(p).t) if not deep else (lambda p: ex.entails(st, t.eq0(st.norm(p), st.bnd)))
    out = R()
    for (gs, exv), c in r.t.items():
        if deep:
            g2 = []
            zero = False
            c2 = c
            e2 = exv
            for n, s in gs:
                if ex.entails(st, t.le0(n)):
                    zero = True
                    break
                if ex.entails(st, t.eq0(n - 1)):
                    continue
                if all(ex.entails(st, t.eq0(x)) for x in s):
                    c2 = c2 * n
                    continue
                # canonical sign by the path condition
                lead = next((x for x in s if not ex.entails(st, t.eq0(x))), None)
                if lead is not None and ex.entails(st, t.le0(lead)):
                    e2 = tuple(e + (n - ONE) * x for e, x in zip(e2, s))
                    s = tuple(-x for x in s)
                g2.append((n, s))
            if zero:
                continue
            if ex.entails(st, t.eq0(c2)):
                continue
            gs, c, exv = g2, c2, e2
        gs = merge_factors(gs, eqs)
        if deep:
            out = out + raw(c, gs, exv)
        else:
            out = out + t.mkterm(c, gs, exv)
    return out


def raw(c, gs, exv):
    if not c.t:
        return R()
    return R({(tuple(sorted(gs, key=t.gkey)), exv): c})


def expand(r):
    """Writes out progressions of a small constant length."""
    out = R()
    n = 0
    for (gs, exv), c in r.t.items():
        keep = []
        es = [exv]
        for m, s in gs:
            k = m.const()
            if k is not None and 0 <= k <= 64 and len(es) * k <= 256:
                es = [tuple(e + i * x for e, x in zip(e0, s)) for e0 in es for i in range(k)]
            else:
                keep.append((m, s))
        n += len(es)
        if n > 1500:
            return r
        for e in es:
            out = out + raw(c, keep, e)
    return out


def equal(ex, st, a, b, deep=True):
    a = a.map(st.norm)
    b = b.map(st.norm)
    if a == b:
        return True
    if not (a - b).t:
        return True
    d = expand(a - b)
    if not d.t:
        return True
    a, b = simp(ex, st, a, False), simp(ex, st, b, False)
    if a == b:
        return True
    d = a - b
    if not d.t:
        return True
    if not deep:
        return False
    d1 = simp(ex, st, d, True)
    if pair(ex, st, d1):
        return True
    d2 = expand(d)
    if d2 != d:
        return pair(ex, st, simp(ex, st, d2, True))
    return False


def cross(ex, st, a, b, eq):
    """prod G(n_i; s_i) == prod G(m_j; t_j), from G(n; s) = (1 - X^(n s)) / (1 - X^s) when every s_i and t_j is nonzero:
    the multisets {n_i s_i} + {t_j} and {m_j t_j} + {s_i} are equal."""
    if not a and not b:
        return True
    for n, s in a + b:
        if not any(ex.entails(st, t.Not(t.eq0(st.norm(x)))) for x in s):
            return False
    num = [tuple(n * x for x in s) for n, s in a] + [s for n, s in b]
    den = [tuple(n * x for x in s) for n, s in b] + [s for n, s in a]
    if len(num) > 12:
        return False
    for u in num:
        for i, v in enumerate(den):
            if all(eq(p, q) for p, q in zip(u, v)):
                del den[i]
                break
        else:
            return False
    return True


def pair(ex, st, d):
    terms = [(gs, exv, c) for (gs, exv), c in d.t.items()]
    if not terms:
        return True
    if len(terms) > 24:
        return False

    def eq(p, q):
        return p == q or ex.entails(st, t.eq0(st.norm(p - q), st.bnd))

    def match(x, y):
        if not all(eq(p, q) for p, q in zip(x[1], y[1])):
            return False
        rest, left = list(y[0]), []
        for n, s in x[0]:
            for i, (n2, s2) in enumerate(rest):
                if eq(n, n2) and all(eq(p, q) for p, q in zip(s, s2)):
                    del rest[i]
                    break
            else:
                left.append((n, s))
        return cross(ex, st, left, rest, eq)
    groups = []
    for x in terms:
        for g in groups:
            if match(g[0], x):
                g[1] = g[1] + x[2]
                break
        else:
            groups.append([x, x[2]])
    groups = [g for g in groups if not ex.entails(st, t.eq0(st.norm(g[1]), st.bnd))]
    return not groups or telescoped(ex, st, groups, eq)


def telescoped(ex, st, groups, eq):
    """sum c_i prod_j G(n_ij; s_j) X^e_i == 0 where all terms have (up to missing ones) the same nonzero steps s_j: multiplied
    by prod_j (1 - X^s_j), every term is a sum of monomials, which must cancel."""
    terms = [(g[0][0], g[0][1], g[1]) for g in groups]
    steps = []
    for gs, _, _ in terms:
        rest = list(steps)
        for n, s in gs:
            for i, u in enumerate(rest):
                if all(eq(p, q) for p, q in zip(s, u)):
                    del rest[i]
                    break
            else:
                steps.append(s)
    if len(steps) > 5 or len(terms) * 2 ** len(steps) > 400:
        return False
    for s in steps:
        if not any(ex.entails(st, t.Not(t.eq0(st.norm(x)))) for x in s):
            return False
    mono = []
    for gs, e, c in terms:
        rest = list(steps)
        fac = []
        for n, s in gs:
            for i, u in enumerate(rest):
                if all(eq(p, q) for p, q in zip(s, u)):
                    del rest[i]
                    break
            fac.append(tuple(n * x for x in s))
        fac += rest
        ms = [(e, c)]
        for f in fac:
            ms = ms + [(tuple(p + q for p, q in zip(x, f)), -k) for x, k in ms]
        mono += ms
    out = []
    for e, c in mono:
        e = tuple(st.norm(x) for x in e)
        for g in out:
            if all(eq(p, q) for p, q in zip(g[0], e)):
                g[1] = g[1] + c
                break
        else:
            out.append([e, c])
    return all(ex.entails(st, t.eq0(st.norm(c), st.bnd)) for _, c in out)
