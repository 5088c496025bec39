"""Exact multivariate polynomials and rational functions (the value-number leaves)."""
from fractions import Fraction
import math

F0 = Fraction(0)
F1 = Fraction(1)


class Sym:
    """A symbol.  kind: real | int | fn (derived: name, args, evaluator) | solve (derived)."""
    __slots__ = ('idx', 'name', 'kind', 'args', 'ev')

    def __init__(self, idx, name, kind, args=None, ev=None):
        self.idx = idx
        self.name = name
        self.kind = kind
        self.args = args
        self.ev = ev

    def __repr__(self):
        return self.name


SYMS = []
_symtab = {}


def reset():
    SYMS.clear()
    _symtab.clear()


def sym(name, kind='real', args=None, ev=None):
    k = (name, kind, args)
    s = _symtab.get(k)
    if s is None:
        s = Sym(len(SYMS), name, kind, args, ev)
        SYMS.append(s)
        _symtab[k] = s
    return s


# ---- polynomials: dict monomial -> Fraction, monomial = tuple of (symidx, exp) sorted
def padd(a, b, k=F1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, F0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, F0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mkey(m):
    # graded-lex-like order key
    return (sum(e for _, e in m), m)


def mdiv(m, n):
    d = dict(m)
    for v, e in n:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def _lexkey(m, order):
    d = dict(m)
    return tuple(d.get(v, 0) for v in order)


def pdivexact(a, b):
    """a / b if b divides a exactly, else None."""
    if not a:
        return {}
    if len(b) == 1:
        (n, d), = b.items()
        r = {}
        for m, c in a.items():
            q = mdiv(m, n)
            if q is None:
                return None
            r[q] = c / d
        return r
    order = sorted({v for m in b for v, _ in m} | {v for m in a for v, _ in m})
    lb = max(b, key=lambda m: _lexkey(m, order))
    cb = b[lb]
    r = dict(a)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 4000:
            return None
        lm = max(r, key=lambda m: _lexkey(m, order))
        k = mdiv(lm, lb)
        if k is None:
            return None
        c = r[lm] / cb
        q[k] = c
        for m, d in b.items():
            mm = mmul(m, k)
            v = r.get(mm, F0) - c * d
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return q


def pkey(p):
    return tuple(sorted(p.items(), key=lambda x: mkey(x[0])))


def lead(p):
    return max(p, key=mkey)


def pstr(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda x: mkey(x[0]), reverse=True):
        t = '*'.join(SYMS[v].name + ('^%d' % e if e > 1 else '') for v, e in m)
        if not m:
            s = str(c)
        elif c == 1:
            s = t
        elif c == -1:
            s = '-' + t
        else:
            s = '%s*%s' % (c, t)
        out.append(s)
        if len(out) > 12:
            out.append('...')
            break
    return ' + '.join(out).replace('+ -', '- ')


class R:
    """Rational function num / prod(factor**e); factors monic."""
    __slots__ = ('num', 'den', 'c', '_k', '_h')

    def __init__(self, num, den=()):
        # den: tuple of (factorkey, exp), factorkey = pkey of monic polynomial
        self.num = num
        self.den = den
        if not den:
            if not num:
                self.c = F0
            elif len(num) == 1 and () in num:
                self.c = num[()]
            else:
                self.c = None
        else:
            self.c = None
        self._k = None
        self._h = None

    def key(self):
        if self._k is None:
            self._k = (pkey(self.num), self.den) if self.c is None else self.c
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, R):
            return False
        if self.c is not None or o.c is not None:
            return self.c == o.c and (self.c is not None)
        return self.key() == o.key()

    def __repr__(self):
        if self.c is not None:
            return str(self.c)
        s = pstr(self.num)
        if self.den:
            s = '(%s)/(%s)' % (s, '*'.join('(%s)%s' % (pstr(dict(f)), '^%d' % e if e > 1 else '') for f, e in self.den))
        return s

    def syms(self):
        r = {v for m in self.num for v, _ in m}
        for f, _ in self.den:
            for m, _c in f:
                for v, _ in m:
                    r.add(v)
        return r


def const(c):
    c = Fraction(c)
    return R({(): c} if c else {})


ZERO = const(0)
ONE = const(1)


def var(s):
    return R({((s.idx, 1),): F1})


def _norm(num, den):
    if not num:
        return ZERO
    if den:
        nd = []
        for f, e in den:
            fp = dict(f)
            while e > 0:
                q = pdivexact(num, fp)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                nd.append((f, e))
        den = tuple(nd)
    return R(num, den)


def radd(a, b, k=F1):
    if a.c is not None and b.c is not None:
        return const(a.c + k * b.c)
    if a.den == b.den:
        n = padd(a.num, b.num, k)
        return R(n, ()) if not a.den else _norm(n, a.den)
    da = dict(a.den)
    db = dict(b.den)
    na = a.num
    nb = b.num
    den = dict(da)
    for f, e in db.items():
        x = da.get(f, 0)
        if e > x:
            fp = dict(f)
            for _ in range(e - x):
                na = pmul(na, fp)
            den[f] = e
    for f, e in da.items():
        x = db.get(f, 0)
        if e > x:
            fp = dict(f)
            for _ in range(e - x):
                nb = pmul(nb, fp)
    return _norm(padd(na, nb, k), tuple(sorted(den.items())))


def rsub(a, b):
    return radd(a, b, Fraction(-1))


def rneg(a):
    return R(pscale(a.num, Fraction(-1)), a.den)


def rmul(a, b):
    if a.c is not None and b.c is not None:
        return const(a.c * b.c)
    if a.c is not None:
        return R(pscale(b.num, a.c), b.den) if a.c else ZERO
    if b.c is not None:
        return R(pscale(a.num, b.c), a.den) if b.c else ZERO
    n = pmul(a.num, b.num)
    if not a.den and not b.den:
        return R(n)
    den = dict(a.den)
    for f, e in b.den:
        den[f] = den.get(f, 0) + e
    return _norm(n, tuple(sorted(den.items())))


def rdiv(a, b):
    """a/b, b not identically zero."""
    if b.c is not None:
        return R(pscale(a.num, 1 / b.c), a.den)
    num = a.num
    for f, e in b.den:
        fp = dict(f)
        for _ in range(e):
            num = pmul(num, fp)
    # make b.num monic
    l = b.num[lead(b.num)]
    num = pscale(num, 1 / l)
    den = dict(a.den)
    # split off monomial content of b.num as separate factors
    bn = pscale(b.num, 1 / l)
    common = None
    for m in bn:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {v: min(e, d[v]) for v, e in common.items() if v in d}
    if common:
        cm = tuple(sorted(common.items()))
        bn = {mdiv(m, cm): c for m, c in bn.items()}
        for v, e in cm:
            f = ((((v, 1),), F1),)
            den[f] = den.get(f, 0) + e
    if not (len(bn) == 1 and () in bn):
        # split known factors
        done = False
        for f in list(den):
            fp = dict(f)
            if len(fp) > 1:
                while True:
                    q = pdivexact(bn, fp)
                    if q is None:
                        break
                    bn = q
                    den[f] = den[f] + 1
        if not (len(bn) == 1 and () in bn):
            l2 = bn[lead(bn)]
            if l2 != 1:
                bn = pscale(bn, 1 / l2)
                num = pscale(num, 1 / l2)
            f = pkey(bn)
            den[f] = den.get(f, 0) + 1
        else:
            num = pscale(num, 1 / bn[()])
    return _norm(num, tuple(sorted(den.items())))


def requal(a, b):
    if a == b:
        return True
    d = rsub(a, b)
    return d.c == 0


def rdiff(a, v):
    """d a / d symbol index v"""
    n = {}
    for m, c in a.num.items():
        d = dict(m)
        e = d.get(v, 0)
        if e:
            if e == 1:
                d.pop(v)
            else:
                d[v] = e - 1
            k = tuple(sorted(d.items()))
            n[k] = n.get(k, F0) + c * e
    n = {m: c for m, c in n.items() if c}
    r = _norm(n, a.den)
    for f, e in a.den:
        fp = dict(f)
        df = rdiff(R(fp), v)
        if df.c == 0:
            continue
        # - num * e * f' / (den * f)
        t = rmul(R(a.num, a.den), rmul(const(-e), df))
        r = radd(r, rdiv(t, R(fp)))
    return r


def peval(p, env):
    t = F0
    for m, c in p.items():
        x = c
        for v, e in m:
            x = x * env[v] ** e
        t += x
    return t


def reval(a, env):
    if a.c is not None:
        return a.c
    n = peval(a.num, env)
    for f, e in a.den:
        d = peval(dict(f), env)
        if d == 0:
            raise ZeroDivisionError
        n /= d ** e
    return n


def rsyms(a):
    """indices of the symbols of a rational function"""
    out = set()
    if a.c is None:
        for m in a.num:
            out |= {v for v, _ in m}
        for f, _ in a.den:
            for m in dict(f):
                out |= {v for v, _ in m}
    return out
