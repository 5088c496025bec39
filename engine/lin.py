"""Exact convex polyhedra over the rationals: emptiness and sampling (Fourier-Motzkin).

A constraint is (terms, const, op): sum(terms[v]*v) + const  op  0, op in '<', '<=', '=='.
"""
from fractions import Fraction

F0 = Fraction(0)


class TooBig(Exception):
    pass


def _norm(c):
    t, k, op = c
    if not t:
        return (t, k, op)
    v0 = min(t)
    s = abs(t[v0])
    if s != 1:
        t = {v: x / s for v, x in t.items()}
        k = k / s
    if op == '==' and t[v0] < 0:
        t = {v: -x for v, x in t.items()}
        k = -k
    return (t, k, op)


def _add(cons, c):
    """cons: dict key(terms)-> (best const/op). returns False if contradictory constant."""
    t, k, op = _norm(c)
    if not t:
        if op == '<':
            return k < 0
        if op == '<=':
            return k <= 0
        return k == 0
    key = (tuple(sorted(t.items())), op == '==')
    o = cons.get(key)
    if o is None:
        cons[key] = (t, k, op)
    elif op == '==':
        if o[1] != k:
            return False
    else:
        # keep the stronger: larger k, or same k strict
        if k > o[1] or (k == o[1] and op == '<'):
            cons[key] = (t, k, op)
    return True


def _subst(c, v, et, ek):
    """replace v by -(et+ek) where v + et + ek == 0 (et without v)"""
    t, k, op = c
    a = t.get(v)
    if not a:
        return c
    t = dict(t)
    del t[v]
    for w, x in et.items():
        y = t.get(w, F0) - a * x
        if y:
            t[w] = y
        else:
            t.pop(w, None)
    return (t, k - a * ek, op)


def eliminate(cons):
    """Returns None if empty, else list of elimination steps (in order) for back-substitution."""
    cur = {}
    for c in cons:
        if not _add(cur, c):
            return None
    steps = []
    while cur:
        eq = None
        for key, c in cur.items():
            if c[2] == '==':
                eq = (key, c)
                break
        if eq:
            key, (t, k, op) = eq
            v = min(t)
            a = t[v]
            et = {w: x / a for w, x in t.items() if w != v}
            ek = k / a
            new = {}
            for kk, c in cur.items():
                if kk == key:
                    continue
                if not _add(new, _subst(c, v, et, ek)):
                    return None
            cur = new
            steps.append((v, 'eq', et, ek))
            continue
        cnt = {}
        for c in cur.values():
            for v, x in c[0].items():
                p = cnt.setdefault(v, [0, 0])
                p[0 if x > 0 else 1] += 1
        v = min(cnt, key=lambda w: (cnt[w][0] * cnt[w][1] - cnt[w][0] - cnt[w][1], w))
        up, lo, new = [], [], {}
        for c in cur.values():
            x = c[0].get(v)
            if not x:
                new[(tuple(sorted(c[0].items())), False)] = c
            elif x > 0:
                up.append(c)
            else:
                lo.append(c)
        for (t1, k1, o1) in up:
            a = t1[v]
            for (t2, k2, o2) in lo:
                b = -t2[v]
                t = {}
                for w, x in t1.items():
                    if w != v:
                        t[w] = x * b
                for w, x in t2.items():
                    if w != v:
                        y = t.get(w, F0) + x * a
                        if y:
                            t[w] = y
                        else:
                            t.pop(w, None)
                if not _add(new, (t, k1 * b + k2 * a, '<' if '<' in (o1, o2) else '<=')):
                    return None
        if len(new) > 3000:
            raise TooBig()
        steps.append((v, 'ineq', up, lo))
        cur = new
    return steps


def feasible(cons):
    return eliminate(cons) is not None


def sample(cons, rng, variables=(), ints=()):
    """A random point satisfying cons (dict) or None."""
    steps = eliminate(cons)
    if steps is None:
        return None
    env = {}
    elim = {s[0] for s in steps}
    for v in variables:
        if v not in elim:
            env[v] = _rnd(rng, None, None, v in ints)
    # also variables mentioned but never eliminated cannot exist
    for v, kind, a, b in reversed(steps):
        if kind == 'eq':
            s = b
            for w, x in a.items():
                if w not in env:
                    env[w] = _rnd(rng, None, None, w in ints)
                s += x * env[w]
            env[v] = -s
        else:
            hi = lo = None
            hs = ls = False
            for (t, k, op) in a:
                s = k
                for w, x in t.items():
                    if w != v:
                        if w not in env:
                            env[w] = _rnd(rng, None, None, w in ints)
                        s += x * env[w]
                bnd = -s / t[v]
                if hi is None or bnd < hi or (bnd == hi and op == '<'):
                    hi, hs = bnd, op == '<'
            for (t, k, op) in b:
                s = k
                for w, x in t.items():
                    if w != v:
                        if w not in env:
                            env[w] = _rnd(rng, None, None, w in ints)
                        s += x * env[w]
                bnd = -s / t[v]
                if lo is None or bnd > lo or (bnd == lo and op == '<'):
                    lo, ls = bnd, op == '<'
            env[v] = _rnd(rng, lo, hi, v in ints, ls, hs)
    return env


def _rnd(rng, lo, hi, integer=False, ls=True, hs=True):
    import math
    if lo is not None and hi is not None and lo == hi:
        return lo
    if integer:
        l = -20 if lo is None else (math.floor(lo) + 1 if ls or lo != math.floor(lo) else int(lo))
        h = (max(l, 0) + 20) if hi is None else (math.ceil(hi) - 1 if hs or hi != math.ceil(hi) else int(hi))
        if lo is None and hi is not None:
            l = h - 20
        if l <= h:
            return Fraction(rng.randint(l, h))
    if lo is None and hi is None:
        return Fraction(rng.randint(-40, 40), rng.choice((1, 2, 3, 5)))
    if hi is None:
        return lo + Fraction(rng.randint(1, 30), rng.choice((1, 2, 3, 7)))
    if lo is None:
        return hi - Fraction(rng.randint(1, 30), rng.choice((1, 2, 3, 7)))
    return lo + (hi - lo) * Fraction(rng.randint(1, 96), 97)
