"""Decision of the obligations collected by the abstract interpreter.

An obligation is violated on a guard (a diagram).  The guard's feasible regions (conjunctions of signs
of polynomials) are enumerated.  Where both sides have the same value number the obligation is
discharged outright.  The remaining differences are differences of rational functions over the inputs
and over the components of linear systems; each is settled by random interpretation: a random point of
the region is taken, derived value numbers are interpreted exactly over the rationals, and the
difference is either zero (an identity, up to the Schwartz-Zippel error over several points) or not (a
refutation with the point as counterexample).  A region in which no point was found is undecided and
reported as such; it never raises an alarm.
"""
import math
import random
import struct
from fractions import Fraction
import dd
import lin
import poly as P
from poly import R

F = Fraction


class NoValue(Exception):
    pass


class Env:
    """interpretation of the value numbers at one point"""

    def __init__(self, I, rng, base):
        self.I = I
        self.rng = rng
        self.v = dict(base)          # sym idx -> Fraction
        self.approx = False
        self.b = {}                  # bool var -> bool
        self.solved = {}
        self.depth = 0

    def sym(self, i):
        r = self.v.get(i)
        if r is not None:
            return r
        s = P.SYMS[i]
        if s.kind in ('real', 'int'):
            r = F(self.rng.randint(-40, 40), 1 if s.kind == 'int' else self.rng.choice((1, 2, 3, 5)))
        elif s.kind == 'fn':
            r = self.fn(s)
        elif s.kind == 'solve':
            n, a, b = s.args
            r = self.solve(n)[(a, b)]
        else:
            raise NoValue('symbol kind %s' % s.kind)
        self.v[i] = r
        return r

    def poly(self, p):
        t = F(0)
        for m, c in p.items():
            x = c
            for v, e in m:
                x = x * self.sym(v) ** e
            t += x
        return t

    def rat(self, a):
        if a.c is not None:
            return a.c
        n = self.poly(a.num)
        for f, e in a.den:
            d = self.poly(dict(f))
            if d == 0:
                raise NoValue('division by zero')
            n /= d ** e
        return n

    def fn(self, s):
        name = s.args[0][0]
        a = [self.rat(x) if isinstance(x, R) else x for x in s.args[0][1:]]
        x = a[0] if a else None
        try:
            if name == 'let':
                return x
            if name == 'trunc':
                return F(int(x))
            if name == 'floor':
                return F(math.floor(x))
            if name == 'ceil':
                return F(math.ceil(x))
            if name in ('round', 'nearbyint', 'rint'):
                return F(math.floor(x + F(1, 2)))
            if name == 'mod':
                if a[1] == 0:
                    raise NoValue('mod 0')
                return x - int(x / a[1]) * a[1]
            if name == 'float32':
                return F(struct.unpack('f', struct.pack('f', float(x)))[0])
            if name.startswith('round'):
                p = name[5:]
                if p.isdigit():
                    return F(float(('%%.%dg' % int(p)) % float(x)))
                return F(round(x, int(p[1:]) if p[1:].isdigit() else 6))
            if name == 'sqrt':
                if x < 0:
                    raise NoValue('sqrt of negative')
                n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if n * n == x.numerator and d * d == x.denominator:
                    return F(n, d)
            self.approx = True
            return F(getattr(math, name)(*[float(y) for y in a]))
        except (ValueError, OverflowError, AttributeError, TypeError):
            raise NoValue(name)

    def node(self, n):
        """leaf value of a diagram at this point"""
        while not n.leaf:
            v = dd.VARS[n.var]
            if v.kind == 'bool':
                b = self.b.get(n.var)
                if b is None:
                    b = self.rng.random() < 0.5
                    self.b[n.var] = b
                n = n.p if b else n.z
            else:
                x = self.poly(v.poly)
                n = n.p if x > 0 else n.n if x < 0 else n.z
        return n.v

    def solve(self, k):
        r = self.solved.get(k)
        if r is not None:
            return r
        self.depth += 1
        if self.depth > 50:
            raise NoValue('solve depth')
        s = self.I.solves[k]
        nr, nc, nk = s['r'], s['c'], s['k']

        def val(n):
            x = self.node(n)
            if not isinstance(x, R):
                raise NoValue('undefined coefficient')
            return self.rat(x)
        A = [[val(s['A'][i * nc + j]) for j in range(nc)] for i in range(nr)]
        B = [[val(s['b'][i * nk + j]) for j in range(nk)] for i in range(nr)]
        X = linsolve(A, B, nc, nk, self.rng)
        if X is None:
            At = [[A[i][j] for i in range(nr)] for j in range(nc)]
            AA = [[sum(At[i][l] * A[l][j] for l in range(nr)) for j in range(nc)] for i in range(nc)]
            AB = [[sum(At[i][l] * B[l][j] for l in range(nr)) for j in range(nk)] for i in range(nc)]
            X = linsolve(AA, AB, nc, nk, self.rng)
            s['lsq'] = True
            if X is None:
                raise NoValue('system without solution')
        self.depth -= 1
        r = {(i, j): X[i][j] for i in range(nc) for j in range(nk)}
        self.solved[k] = r
        return r


def linsolve(A, B, nc, nk, rng):
    """a solution of A X = B (free components random), or None when there is none"""
    M = [list(a) + list(b) for a, b in zip(A, B)]
    piv = []
    r = 0
    for c in range(nc):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        d = M[r][c]
        M[r] = [x / d for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
        if r == len(M):
            break
    for i in range(r, len(M)):
        if any(x != 0 for x in M[i][nc:]):
            return None
    X = [[None] * nk for _ in range(nc)]
    free = [c for c in range(nc) if c not in piv]
    for j in range(nk):
        for c in free:
            X[c][j] = F(rng.randint(-9, 9))
        for i, c in enumerate(piv):
            X[c][j] = M[i][nc + j] - sum(M[i][f] * X[f][j] for f in free)
    return X


class Decider:
    def __init__(self, I, seed, samples=3, maxpaths=4000, tries=12):
        self.I = I
        self.seed = seed
        self.samples = samples
        self.maxpaths = maxpaths
        self.tries = tries
        self.regions = 0
        self.points = 0

    def base_cons(self, cons):
        out = []
        vs = set()
        for c in cons:
            if all(d[0] == 0 and P.SYMS[d[1]].kind in ('real', 'int') for d in c[0]):
                out.append(c)
                vs |= set(c[0])
        return out, vs

    def point(self, path, bools, rng):
        """random Env in the region of path, or None"""
        cons = [dd._cons(v, s) for v, s in path]
        allc = dd._relevant([c for c in cons if c is not None]) if cons else []
        allc = allc + [a for a in dd.ASSUME if a not in allc]
        base, vs = self.base_cons(allc)
        ints = {v for v in vs if P.SYMS[v[1]].kind == 'int'}
        for _ in range(self.tries):
            try:
                pt = lin.sample(base, rng, vs, ints)
            except lin.TooBig:
                return None
            if pt is None:
                return None
            e = Env(self.I, rng, {d[1]: x for d, x in pt.items() if d[0] == 0})
            for v, s in bools:
                e.b[v] = s > 0
            try:
                ok = True
                for d, x in list(pt.items()):
                    if d in ints and x.denominator != 1:
                        ok = False
                if ok:
                    for v, s in path:
                        x = e.poly(dd.VARS[v].poly)
                        if e.approx and abs(x) < F(1, 10 ** 6):
                            ok = False
                        if (x > 0) - (x < 0) != s:
                            ok = False
                        if not ok:
                            break
                if ok:
                    for (t, k, op) in dd.ASSUME:
                        x = k
                        for d, c in t.items():
                            if d[0] == 0:
                                x += c * e.sym(d[1])
                            else:
                                y = F(1)
                                for v, ex in d[2]:
                                    y *= e.sym(v) ** ex
                                x += c * y
                        if not (x < 0 if op == '<' else x <= 0 if op == '<=' else x == 0):
                            ok = False
                            break
                if ok:
                    self.points += 1
                    return e
            except (NoValue, ZeroDivisionError):
                continue
        return None

    def witness(self, e):
        out = {}
        for i, x in sorted(e.v.items()):
            s = P.SYMS[i]
            if s.kind in ('real', 'int'):
                out[s.name] = str(x)
        for v, b in e.b.items():
            out[dd.VARS[v].name] = b
        return out

    def refute(self, guard, pred, label):
        """('held', n) | ('refuted', env) | ('unknown', why)"""
        paths = dd.paths(guard, self.maxpaths)
        if not paths:
            return ('held', 0)
        rng = random.Random('%s/%s' % (self.seed, label))
        unknown = 0
        if len(paths) > 600:
            rng.shuffle(paths)
        for path, bools in paths:
            self.regions += 1
            got = 0
            for _ in range(self.samples):
                e = self.point(path, bools, rng)
                if e is None:
                    break
                try:
                    v = pred(e)
                except (NoValue, ZeroDivisionError):
                    continue
                if v:
                    return ('refuted', e)
                got += 1
            if not got:
                unknown += 1
        if unknown:
            return ('unknown', '%d of %d regions without a sample point' % (unknown, len(paths)))
        if len(paths) >= self.maxpaths:
            return ('unknown', 'more than %d regions' % self.maxpaths)
        return ('held', len(paths))

    def differ(self, x, y):
        def pred(e):
            a, b = e.rat(x), e.rat(y)
            if a == b:
                return False
            if e.approx:
                m = max(abs(a), abs(b), 1)
                if abs(a - b) <= m / 10 ** 6:
                    return False
            return True
        return pred

    def obligation(self, ob):
        label, kind, viol, info, loc = ob
        if kind == 'holds':
            g = dd.prune(viol)
            if g is dd.FALSE:
                return ('held', 'structural', None)
            r = self.refute(g, lambda e: True, label)
            if r[0] == 'refuted':
                return ('refuted', 'condition fails', r[1])
            if r[0] == 'held':
                return ('held', 'no feasible region', None)
            return r + (None,)
        pc, d = viol
        d = dd.restrict(d, pc)
        why = None
        ident = False
        for v, g in dd.guards(d, pc):
            if v is False:
                continue
            g = dd.prune(g)
            if g is dd.FALSE:
                continue
            if v is True:
                r = self.refute(g, lambda e: True, label)
                if r[0] == 'refuted':
                    return ('refuted', 'undefined (uninitialised or non-finite) value', r[1])
            else:
                _, x, y = v
                r = self.refute(g, self.differ(x, y), label)
                if r[0] == 'refuted':
                    return ('refuted', 'values differ: %s  vs  %s' % (short(x), short(y)), r[1])
                if r[0] == 'held':
                    ident = True
            if r[0] == 'unknown':
                why = r[1]
        if why:
            return ('unknown', why, None)
        return ('held', 'identity' if ident else 'structural', None)

    def event(self, ev):
        kind, g, loc, text, where = ev
        r = self.refute(g, lambda e: True, text)
        return r


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'
