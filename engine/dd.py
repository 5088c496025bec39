"""Guarded value numbers: hash-consed ternary decision diagrams.

A node is a Leaf(value) or a Br(var, neg, zero, pos).  Every decision variable is the sign of a
polynomial ('sgn') or a boolean unknown ('bool': true iff 'positive', neg == zero child).  Values of
the analysed program are diagrams whose leaves are value numbers (exact rational functions, addresses,
strings, ...); path conditions are diagrams with boolean leaves.
"""
from fractions import Fraction
import poly as P
import lin
from poly import R, const


class Leaf:
    __slots__ = ('v', 'id')
    leaf = True
    var = 1 << 60

    def __repr__(self):
        return 'L(%r)' % (self.v,)


class Br:
    __slots__ = ('var', 'n', 'z', 'p', 'id')
    leaf = False

    def __repr__(self):
        return 'B(%s ? %r : %r : %r)' % (VARS[self.var], self.n, self.z, self.p)


class Special:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n

    def __repr__(self):
        return self.name


UNDEF_V = Special('uninitialised')
NAN_V = Special('non-finite')


class Var:
    __slots__ = ('kind', 'poly', 'name', 'lin', 'R')

    def __repr__(self):
        return self.name


VARS = []
_vart = {}
_uniq = {}
_leaf = {}
_memo = {}
_ctr = [0]
ASSUME = []        # linear constraints (lin format) that always hold in this analysis
_entail = {}
_feas = {}
_conf = {}


def reset():
    P.reset()
    for x in (VARS, ASSUME):
        x.clear()
    for x in (_vart, _uniq, _leaf, _memo, _entail, _feas, _conf):
        x.clear()
    _ctr[0] = 0
    _fac[0] = None
    for n, v in (('TRUE', True), ('FALSE', False), ('UNDEF', UNDEF_V), ('NAN', NAN_V)):
        globals()[n] = leaf(v)
    globals()['N0'] = leaf(P.ZERO)
    globals()['N1'] = leaf(P.ONE)


def leaf(v):
    k = (type(v), v)
    r = _leaf.get(k)
    if r is None:
        r = Leaf()
        r.v = v
        _ctr[0] += 1
        r.id = _ctr[0]
        _leaf[k] = r
    return r


def num(c):
    return leaf(const(c))


def mk(var, n, z, p):
    if n is z and z is p:
        return n
    k = (var, n.id, z.id, p.id)
    r = _uniq.get(k)
    if r is None:
        r = Br()
        r.var, r.n, r.z, r.p = var, n, z, p
        _ctr[0] += 1
        r.id = _ctr[0]
        _uniq[k] = r
    return r


class Budget(Exception):
    pass


LIMIT = [6_000_000]


def _tick():
    if _ctr[0] > LIMIT[0]:
        raise Budget('diagram budget exhausted')


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (0, c.id, a.id, b.id)
    r = _memo.get(k)
    if r is not None:
        return r
    _tick()
    v = min(c.var, a.var, b.var)
    cn, cz, cp = (c.n, c.z, c.p) if c.var == v else (c, c, c)
    an, az, ap = (a.n, a.z, a.p) if a.var == v else (a, a, a)
    bn, bz, bp = (b.n, b.z, b.p) if b.var == v else (b, b, b)
    r = mk(v, ite(cn, an, bn), ite(cz, az, bz), ite(cp, ap, bp))
    _memo[k] = r
    return r


def sel(v, n, z, p):
    """ternary selection on variable v with arbitrary children"""
    if n is z and z is p:
        return n
    if min(n.var, z.var, p.var) > v:
        return mk(v, n, z, p)
    return ite(mk(v, TRUE, FALSE, FALSE), n, ite(mk(v, FALSE, TRUE, FALSE), z, p))


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


def ands(xs):
    r = TRUE
    for x in xs:
        r = AND(r, x)
    return r


def ors(xs):
    r = FALSE
    for x in xs:
        r = OR(r, x)
    return r


def map1(name, f, a):
    """apply f (leaf value -> Node) to all leaves; name identifies f for memoisation (None: no memo)"""
    if a.leaf:
        return f(a.v)
    memo = {} if name is None else None

    def go(x):
        if x.leaf:
            return f(x.v)
        k = (1, name, x.id)
        m = memo if memo is not None else _memo
        r = m.get(k)
        if r is None:
            _tick()
            r = sel(x.var, go(x.n), go(x.z), go(x.p))
            m[k] = r
        return r
    return go(a)


def map2(name, f, a, b):
    if a.leaf and b.leaf:
        k = (2, name, a.id, b.id)
        r = _memo.get(k) if name is not None else None
        if r is None:
            r = f(a.v, b.v)
            if name is not None:
                _memo[k] = r
        return r
    memo = {} if name is None else _memo

    def go(x, y):
        k = (2, name, x.id, y.id)
        r = memo.get(k)
        if r is None:
            if x.leaf and y.leaf:
                r = f(x.v, y.v)
            else:
                _tick()
                v = min(x.var, y.var)
                xn, xz, xp = (x.n, x.z, x.p) if x.var == v else (x, x, x)
                yn, yz, yp = (y.n, y.z, y.p) if y.var == v else (y, y, y)
                r = sel(v, go(xn, yn), go(xz, yz), go(xp, yp))
            memo[k] = r
        return r
    return go(a, b)


def restrict(f, c):
    """simplify f using care set c (values outside c are arbitrary)"""
    if f.leaf or c is TRUE:
        return f
    if c is FALSE:
        return f
    k = (3, f.id, c.id)
    r = _memo.get(k)
    if r is not None:
        return r
    if c.var < f.var:
        ch = [x for x in (c.n, c.z, c.p) if x is not FALSE]
        o = ch[0]
        for x in ch[1:]:
            o = OR(o, x)
        r = restrict(f, o)
    else:
        v = f.var
        cn, cz, cp = (c.n, c.z, c.p) if c.var == v else (c, c, c)
        ln = None if cn is FALSE else restrict(f.n, cn)
        lz = None if cz is FALSE else restrict(f.z, cz)
        lp = None if cp is FALSE else restrict(f.p, cp)
        have = [x for x in (ln, lz, lp) if x is not None]
        if all(x is have[0] for x in have):
            r = have[0]
        else:
            d = have[0]
            if ln is None:
                ln = lz if lz is not None else lp
            if lp is None:
                lp = lz if lz is not None else ln
            if lz is None:
                lz = ln
            r = sel(v, ln, lz, lp)
    _memo[k] = r
    return r


def guards(f, pc):
    """list of (leaf value, guard) with guard = pc and f == leaf, guards not FALSE; disjoint."""
    if f.leaf:
        return [(f.v, pc)]
    vals = {}

    def coll(x, seen):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.leaf:
            vals[x.id] = x
            return
        coll(x.n, seen)
        coll(x.z, seen)
        coll(x.p, seen)
    coll(f, set())
    out = []
    for lf in vals.values():
        g = AND(pc, map1(('is', lf.id), lambda v, lf=lf: TRUE if leaf(v) is lf else FALSE, f))
        if g is not FALSE:
            out.append((lf.v, g))
    return out


def leaves(f):
    out, seen, st = [], set(), [f]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.leaf:
            out.append(x.v)
        else:
            st += [x.n, x.z, x.p]
    return out


def size(f):
    seen, st = set(), [f]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if not x.leaf:
            st += [x.n, x.z, x.p]
    return len(seen)


# ---------------------------------------------------------------- decision variables
def linform(p):
    """(terms, const): monomials of degree > 1 are dimensions of their own"""
    t = {}
    k = Fraction(0)
    for m, c in p.items():
        if not m:
            k = c
        else:
            d = m[0][0] if len(m) == 1 and m[0][1] == 1 else m
            t[_dim(d)] = c
    return t, k


_dims = {}


def _dim(d):
    # order-comparable dimension names
    if isinstance(d, int):
        return (0, d, ())
    return (1, 0, d)


def boolvar(name):
    k = ('b', name)
    v = _vart.get(k)
    if v is None:
        x = Var()
        x.kind, x.poly, x.name, x.lin = 'bool', None, name, None
        v = len(VARS)
        VARS.append(x)
        _vart[k] = v
    return mk(v, FALSE, FALSE, TRUE)


def _entailed_sign(p):
    """sign of polynomial p under ASSUME if fixed (-1,0,1), else None.  Also returns allowed set."""
    k = (P.pkey(p), len(ASSUME))
    r = _entail.get(k, 0)
    if r != 0:
        return r
    t, c = linform(p)
    allowed = set()
    try:
        if lin.feasible(ASSUME + [(t, c, '<')]):
            allowed.add(-1)
        if lin.feasible(ASSUME + [(t, c, '==')]):
            allowed.add(0)
        if lin.feasible(ASSUME + [({v: -x for v, x in t.items()}, -c, '<')]):
            allowed.add(1)
    except lin.TooBig:
        allowed = {-1, 0, 1}
    if len(allowed) > 1 and any(len(m) > 1 or (m and m[0][1] > 1) for m in p):
        # sign by variable signs
        s = None
        ok = True
        for m, c in p.items():
            x = 1 if c > 0 else -1
            for v, e in m:
                if e % 2 == 0:
                    vs = _entailed_sign({((v, 1),): Fraction(1)})
                    if vs is not None and 0 not in vs:
                        continue
                    ok = False
                    break
                vs = _entailed_sign({((v, 1),): Fraction(1)})
                if vs is None or len(vs) != 1 or 0 in vs:
                    ok = False
                    break
                x *= next(iter(vs))
            if not ok:
                break
            if s is None:
                s = x
            elif s != x:
                ok = False
                break
        if ok and s is not None:
            allowed &= {s}
    r = frozenset(allowed)
    _entail[k] = r
    return r


_fac = [None, []]


def _factors():
    """linear polynomials whose sign is assumed or already decided on: candidate factors of others"""
    k = (len(ASSUME), len(VARS))
    if _fac[0] != k:
        out = {}
        for t, c, _op in ASSUME:
            if len(t) + (c != 0) > 1 and all(d[0] == 0 for d in t):
                q = {((d[1], 1),): x for d, x in t.items()}
                if c:
                    q[()] = c
                out[P.pkey(P.pscale(q, 1 / q[P.lead(q)]))] = None
        for x in VARS:
            if x.kind == 'sgn' and len(x.poly) > 1 and all(not m or (len(m) == 1 and m[0][1] == 1) for m in x.poly):
                out[P.pkey(x.poly)] = None
        _fac[0] = k
        _fac[1] = [(dict(q), {v for m, _ in q for v, _e in m}) for q in out]
    return _fac[1]


def polysign(p):
    """Node with leaves -1/0/1 (python ints) for the sign of polynomial p (dict)"""
    if not p:
        return leaf(0)
    if len(p) == 1 and () in p:
        return leaf(1 if p[()] > 0 else -1)
    # monomial content
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {v: min(e, d[v]) for v, e in common.items() if v in d}
    res = None
    if common and (len(p) > 1 or sum(common.values()) > 1):
        cm = tuple(sorted(common.items()))
        res = leaf(1)
        for v, e in cm:
            s = polysign({((v, 1),): Fraction(1)})
            res = smul(res, s if e % 2 else smul(s, s))
        p = {P.mdiv(m, cm): c for m, c in p.items()}
        return smul(res, polysign(p))
    if any(len(m) > 1 or (m and m[0][1] > 1) for m in p):
        pv = {v for m in p for v, _ in m}
        for f, fv in _factors():
            if fv <= pv:
                q = P.pdivexact(p, f)
                if q is not None:
                    return smul(polysign(f), polysign(q))
    l = p[P.lead(p)]
    flip = l < 0
    q = P.pscale(p, 1 / l) if l != 1 else p
    al = _entailed_sign(q)
    if len(al) == 1:
        s = next(iter(al))
        return leaf(-s if flip else s)
    k = P.pkey(q)
    v = _vart.get(k)
    if v is None:
        x = Var()
        x.kind, x.poly, x.name = 'sgn', q, 'sgn(%s)' % P.pstr(q)
        x.lin = linform(q)
        x.R = None
        v = len(VARS)
        VARS.append(x)
        _vart[k] = v
    a, b, c = (1, 0, -1) if flip else (-1, 0, 1)
    n, z, p_ = leaf(a), leaf(b), leaf(c)
    if -1 not in al:
        n = z
    if 1 not in al:
        p_ = z
    if 0 not in al:
        z = n
    return mk(v, n, z, p_)


def smul(a, b):
    return map2('smul', lambda x, y: leaf(x * y), a, b)


def rsign(r):
    """sign diagram of a rational function (non-zero denominators)"""
    if r.c is not None:
        return leaf((r.c > 0) - (r.c < 0))
    k = (4, leaf(r).id, len(ASSUME))
    x = _memo.get(k)
    if x is None:
        x = polysign(r.num)
        for f, e in r.den:
            if e % 2:
                x = smul(x, polysign(dict(f)))
        _memo[k] = x
    return x


# ---------------------------------------------------------------- feasibility
def _cons(var, s):
    x = VARS[var]
    if x.kind == 'bool':
        return None
    t, k = x.lin
    if s < 0:
        return (t, k, '<')
    if s == 0:
        return (t, k, '==')
    return ({v: -c for v, c in t.items()}, -k, '<')


FM_CALLS = [0]


def conj_feasible(cons):
    """cons: tuple of (var, sign); True when the polyhedron is not empty"""
    key = (frozenset(cons), len(ASSUME))
    r = _conf.get(key)
    if r is None:
        FM_CALLS[0] += 1
        try:
            cs = _relevant([_cons(v, s) for v, s in cons])
            r = lin.feasible(cs)
        except lin.TooBig:
            r = True
        _conf[key] = r
    return r


def _relevant(cs):
    """add the assumptions connected to the constraints through shared dimensions"""
    dims = set()
    for c in cs:
        dims |= set(c[0])
    rest = list(ASSUME)
    out = list(cs)
    changed = True
    while changed:
        changed = False
        nr = []
        for a in rest:
            if dims & set(a[0]):
                out.append(a)
                dims |= set(a[0])
                changed = True
            else:
                nr.append(a)
        rest = nr
    return out


def _branches(x):
    """(signs, child) with equal children grouped"""
    b = VARS[x.var].kind == 'bool'
    if b:
        return [((-1,), x.z), ((1,), x.p)]
    return [((-1,), x.n), ((0,), x.z), ((1,), x.p)]


def prune(f):
    """replace theory-infeasible paths of boolean diagram f by FALSE"""
    if f.leaf:
        return f
    k = (5, f.id, len(ASSUME))
    r = _memo.get(k)
    if r is not None:
        return r
    memo = {}

    def go(x, cons):
        if x.leaf:
            return x
        kk = (x.id, frozenset(cons))
        r = memo.get(kk)
        if r is not None:
            return r
        _tick()
        v = VARS[x.var]
        if v.kind == 'bool':
            n = go(x.z, cons)
            r = sel(x.var, n, n, go(x.p, cons))
        else:
            ch = []
            for s, c in ((-1, x.n), (0, x.z), (1, x.p)):
                if c is FALSE:
                    ch.append(FALSE)
                    continue
                nc = cons + ((x.var, s),)
                ch.append(go(c, nc) if conj_feasible(nc) else FALSE)
            r = sel(x.var, *ch)
        memo[kk] = r
        return r
    r = go(f, ())
    _memo[k] = r
    _memo[(5, r.id, len(ASSUME))] = r
    return r


def feasible(f):
    if f.leaf:
        return f is TRUE
    k = (f.id, len(ASSUME))
    r = _feas.get(k)
    if r is not None:
        return r

    def go(x, cons):
        if x.leaf:
            return x is TRUE
        if VARS[x.var].kind == 'bool':
            return go(x.p, cons) or go(x.z, cons)
        for s, c in ((1, x.p), (-1, x.n), (0, x.z)):
            if c is FALSE:
                continue
            nc = cons + ((x.var, s),)
            if conj_feasible(nc) and go(c, nc):
                return True
        return False
    r = go(f, ())
    _feas[k] = r
    return r


def paths(f, limit=20000):
    """feasible paths (tuples of (var, sign)) of a boolean diagram to TRUE"""
    out = []

    def go(x, cons, bools):
        if len(out) >= limit:
            return
        if x.leaf:
            if x is TRUE:
                out.append((cons, bools))
            return
        if VARS[x.var].kind == 'bool':
            go(x.p, cons, bools + ((x.var, 1),))
            go(x.z, cons, bools + ((x.var, -1),))
            return
        for s, c in ((1, x.p), (-1, x.n), (0, x.z)):
            if c is FALSE:
                continue
            nc = cons + ((x.var, s),)
            if conj_feasible(nc):
                go(c, nc, bools)
    go(f, (), ())
    return out


# ---------------------------------------------------------------- arithmetic on nodes
def _num2(f):
    def g(a, b):
        if isinstance(a, R) and isinstance(b, R):
            return leaf(f(a, b))
        if a is UNDEF_V or b is UNDEF_V:
            return UNDEF
        if a is NAN_V or b is NAN_V:
            return NAN
        raise TypeError('arithmetic on %r, %r' % (a, b))
    return g


_add = _num2(P.radd)
_sub = _num2(P.rsub)
_mul = _num2(P.rmul)


def add(a, b):
    return map2('add', _add, a, b)


def sub(a, b):
    return map2('sub', _sub, a, b)


def mul(a, b):
    if a is N0 or b is N0:
        # 0 * NaN is not modelled: only exact zero times finite
        pass
    return map2('mul', _mul, a, b)


def _div(a, b):
    if isinstance(a, R) and isinstance(b, R):
        if b.c is not None:
            return leaf(P.rdiv(a, b)) if b.c else NAN
        q = leaf(P.rdiv(a, b))
        return map1(None, lambda s: NAN if s == 0 else q, rsign(b))
    if a is UNDEF_V or b is UNDEF_V:
        return UNDEF
    return NAN


def div(a, b):
    return map2(('div', len(ASSUME)), _div, a, b)


def neg(a):
    return map1('neg', lambda v: leaf(P.rneg(v)) if isinstance(v, R) else leaf(v), a)


_CMP = {'<': (True, False, False), '<=': (True, True, False), '==': (False, True, False),
        '!=': (True, False, True), '>': (False, False, True), '>=': (False, True, True)}


class UndefUse(Exception):
    pass


def cmp(op, a, b):
    tab = _CMP[op]

    def f(x, y):
        if isinstance(x, R) and isinstance(y, R):
            d = P.rsub(x, y)
            return map1(('cmp', op), lambda s: TRUE if tab[s + 1] else FALSE, rsign(d))
        if x is UNDEF_V or y is UNDEF_V:
            return UNDEF
        if x is NAN_V or y is NAN_V:
            return TRUE if op == '!=' else FALSE
        if op in ('==', '!='):
            return TRUE if (x == y) == (op == '==') else FALSE
        try:
            r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        except TypeError:
            raise TypeError('comparison of %r and %r' % (x, y))
        return TRUE if r else FALSE
    return map2(('cmp', op, len(ASSUME)), f, a, b)


reset()
