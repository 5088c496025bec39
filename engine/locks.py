"""Lock discipline of the key generator (rule for C20).

The body of the generator (and of everything in the repository it calls) is walked in execution order with
the set of locks held: RAII locks are held to the end of their block, lock()/unlock() as called; at joins
the intersection is kept.  Every access to a mutable variable of static storage must be made under one
common lock of static storage, or be a single atomic read-modify-write whose result is the key.
"""
import re
from effects import SYNC, LOCK

ATOMIC = re.compile(r'(std|boost)::(\w+::)*(atomic|__atomic_base)\b')
MUTEX = re.compile(r'(std|boost)::(\w+::)*(recursive_|shared_|timed_|shared_timed_|recursive_timed_)?mutex\b')
ANY = ('?',)


class Locks:
    def __init__(self, P):
        self.P = P
        self.acc = {}          # var id -> [(loc, op, frozenset(held), function)]
        self.tls = {}
        self.notes = []
        self.bad = []
        self.alias = {}
        self.localdecl = {}
        self.reached = set()
        self.stack = []
        self.rets = []

    # ---------------------------------------------------------- identity of an object
    def ident(self, e, depth=0):
        if not isinstance(e, dict) or depth > 12:
            return None
        k = e.get('k')
        if k == 'var':
            if e['id'] in self.alias:
                return self.alias[e['id']]
            return ('s', e['id']) if e.get('g') else ('l', e['id'])
        if k == 'mem':
            return ('f', e['f']['id'])
        if k in ('cast', 'mat', 'stdil'):
            return self.ident(e['e'], depth + 1)
        if k == 'un' and e['op'] in ('*', '&'):
            return self.ident(e['e'], depth + 1)
        if k == 'opcall' and e.get('op') in ('*', '->'):
            return self.ident(e['a'][0], depth + 1)
        if k in ('call', 'mcall'):
            f = self.P.F.get((e.get('f') or {}).get('id'))
            if f:
                r = {self.ident(x, depth + 1) for x in returns(f.get('body'))}
                if len(r) == 1:
                    return r.pop()
        if k == 'ctor' and len(e.get('a', ())) == 1:
            return self.ident(e['a'][0], depth + 1)
        return None

    # ---------------------------------------------------------- walking
    def fn(self, f, held):
        if f['id'] in self.stack or len(self.stack) > 12:
            return held
        self.reached.add(f['id'])
        self.stack.append(f['id'])
        for i in f.get('inits', ()):
            if i.get('e'):
                held = self.E(i['e'], held)
        h = self.S(f.get('body'), held)
        self.stack.pop()
        return held if h is None else h

    def where(self):
        return self.P.F[self.stack[-1]]['q'] if self.stack else ''

    def S(self, s, held):
        """locks held afterwards; None when control does not continue"""
        if not s:
            return held
        k = s.get('k')
        if k == 'block':
            raii = []
            h = held
            for x in s['s']:
                if x and x.get('k') == 'decl':
                    for v in x['v']:
                        h = self.decl(v, h, raii)
                    continue
                h = self.S(x, h)
                if h is None:
                    return None
            return h - frozenset(raii) | (held & frozenset(raii))
        if k == 'decl':
            h = held
            for v in s['v']:
                h = self.decl(v, h, [])
            return h
        if k == 'ret':
            if s.get('e'):
                self.rets.append((s['e'], self.where()))
                self.E(s['e'], held)
            return None
        if k == 'if':
            h = self.S(s.get('init'), held)
            raii = []
            if s.get('cv'):
                h = self.decl(s['cv'], h, raii)
            h = self.E(s['c'], h)
            a, b = self.S(s.get('th'), h), self.S(s.get('el'), h)
            r = b if a is None else a if b is None else a & b
            return None if r is None else r - frozenset(raii)
        if k in ('while', 'for', 'do', 'frange'):
            h = self.S(s.get('init'), held)
            for x in ('range', 'bs', 'es'):
                if s.get(x):
                    h = self.S(s[x], h)
            for _ in range(2):
                c = self.E(s['c'], h) if s.get('c') and k != 'do' else h
                b = self.S(s.get('b'), c)
                if k == 'do' and b is not None:
                    b = self.E(s['c'], b)
                if b is not None and s.get('inc'):
                    b = self.E(s['inc'], b)
                h = h & (b if b is not None else h)
            return h
        if k == 'expr':
            return self.E(s['e'], held)
        if k in ('break', 'continue', 'null'):
            return held
        h = held
        if s.get('c'):
            h = self.E(s['c'], h)
        if k == 'try':
            b = self.S(s['b'], h)
            for x in s.get('h', ()):
                hb = self.S(x.get('b'), h)
                b = hb if b is None else b if hb is None else b & hb
            return b
        if s.get('b'):
            return self.S(s['b'], h)
        if k == 'unsupported':
            self.notes.append('statement %s not understood at %s' % (s.get('cls'), s.get('loc')))
        return h

    def decl(self, v, held, raii):
        ts = self.P.ts(v['t'])
        init = v.get('init')
        if LOCK.search(ts) and init is not None:
            args = init.get('a', ()) if init.get('k') == 'ctor' else [init]
            # guard = std::unique_lock<...>(m) and the like
            while len(args) == 1 and isinstance(args[0], dict) and args[0].get('k') in ('cast', 'mat', 'ctor') and LOCK.search(self.P.ts(args[0].get('t'))):
                args = args[0].get('a') if args[0].get('k') == 'ctor' else [args[0]['e']]
            deferred = any('defer_lock' in self.P.ts(a.get('t')) for a in args)
            tried = any('try_to_lock' in self.P.ts(a.get('t')) for a in args)
            got = []
            for a in args:
                if MUTEX.search(self.P.ts(a.get('t'))):
                    i = self.ident(a)
                    got.append(i if i is not None else ANY)
            if not got:
                got = [ANY]
            self.alias[v['id']] = got[0]
            if tried:
                self.bad.append((v['loc'], 'the lock is only tried for: the counter is used whether or not it was obtained'))
            if deferred or tried:
                return held
            for g in got:
                held = self.acquire(g, held, v['loc'], ts)
                raii.append(g)
            return held
        if init is not None and not v.get('static'):
            held = self.E(init, held)
            t = self.P.T[v['t']] if v['t'] >= 0 else {}
            if t.get('k') in ('ref', 'ptr'):
                i = self.ident(init)
                if i is not None:
                    self.alias[v['id']] = i
        return held

    def acquire(self, i, held, loc, ts=''):
        if i[0] == 'l' or (i[0] == 's' and self.P.G.get(i[1], {}).get('tls')):
            self.notes.append('private')
            self.private = loc
            return held
        if i in held and i != ANY and 'recursive' not in ts:
            self.bad.append((loc, 'a lock that is already held is acquired again'))
        return held | {i}

    def access(self, e, op, held):
        i = self.ident(e)
        if i is None or i[0] != 's':
            return
        g = self.P.G.get(i[1], {})
        if not g.get('user') or g.get('const') or g.get('constexpr'):
            return
        ts = self.P.ts(g['t'])
        if SYNC.search(ts) and not ATOMIC.search(ts):
            return
        d = self.tls if g.get('tls') else self.acc
        d.setdefault(i[1], []).append((e.get('loc', ''), op, frozenset(held), self.where()))

    def E(self, e, held):
        if not isinstance(e, dict):
            return held
        k = e.get('k')
        if k == 'var':
            t = self.P.T[e['t']] if e.get('t', -1) >= 0 else {}
            self.access(e, 'access', held)
            return held
        if k in ('mcall', 'opcall', 'call', 'ctor'):
            f = e.get('f') or {}
            q = f.get('q', '')
            name = q.rsplit('::', 1)[-1]
            args = list(e.get('a', ()))
            base = e.get('b')
            if k == 'opcall' and f.get('m') and args:
                base, args = args[0], args[1:]
            if base is not None:
                bts = self.P.ts(base.get('t'))
                if (MUTEX.search(bts) or LOCK.search(bts)) and name in ('lock', 'unlock', 'try_lock', 'lock_shared', 'unlock_shared', 'release'):
                    i = self.ident(base) or ANY
                    if name.startswith('lock'):
                        return self.acquire(i, held, e.get('loc', ''), bts)
                    if name in ('unlock', 'unlock_shared', 'release'):
                        return held - {i} - ({ANY} if i == ANY else set())
                    self.bad.append((e.get('loc', ''), 'the lock is only tried for'))
                    return held
                if ATOMIC.search(bts):
                    for a in args:
                        held = self.E(a, held)
                    n = 'operator' + e['op'] if k == 'opcall' else name
                    self.access(base, 'atomic ' + n, held)
                    return held
            if q in ('std::lock', 'boost::lock'):
                for a in args:
                    held = self.acquire(self.ident(a) or ANY, held, e.get('loc', ''))
                return held
            for x in ([base] if base is not None else []) + args:
                held = self.E(x, held)
            t = self.P.F.get(f.get('id'))
            if t:
                if k == 'ctor':
                    return self.fn(t, held)
                return self.fn(t, held)
            return held
        if k == 'lambda':
            t = self.P.F.get((e.get('f') or {}).get('id'))
            if t:
                self.fn(t, held)
            return held
        if k == 'cond' or (k == 'bin' and e.get('op') in ('&&', '||')):
            if k == 'cond':
                h = self.E(e['c'], held)
                return self.E(e['l'], h) & self.E(e['r'], h)
            h = self.E(e['l'], held)
            return h & self.E(e['r'], h)
        for x in e.values():
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, dict) and 'k' in y:
                    held = self.E(y, held)
        return held


def returns(s):
    out = []

    def w(x):
        if isinstance(x, dict):
            if x.get('k') == 'ret' and x.get('e'):
                out.append(x['e'])
                return
            if x.get('k') == 'lambda':
                return
            for y in x.values():
                w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
    w(s)
    return out


def check(P, rel, root='curves::KeyGenerator::getNextKey'):
    """(violations, undecided, held obligations, coverage)"""
    viol, und, cov = [], [], {}
    roots = [f for f in P.F.values() if f['q'] == root]
    if not roots:
        return [], ['%s is not defined in the analysed units' % root], 0, {}
    L = Locks(P)
    L.private = None
    for f in roots:
        L.fn(f, frozenset())
    touched = set(L.acc)
    # any other function of the library that touches the same variables
    for f in P.F.values():
        if f['id'] in L.reached:
            continue
        M = Locks(P)
        M.private = None
        M.fn(f, frozenset())
        for v in touched & set(M.acc):
            L.acc[v] += M.acc[v]
            L.reached.add(f['id'])
    held = 0

    def V(text, loc):
        viol.append(dict(kind='lock', text=text, loc=rel(loc), where=[root + ' @ ' + rel(roots[0]['loc'])], context='all schedules', witness='two concurrent calls'))
    for loc, why in L.bad:
        V(why, loc)
    for v, acc in L.acc.items():
        g = P.G[v]
        ts = P.ts(g['t'])
        cov[g['q']] = ['%s at %s under %s' % (o, rel(l), sorted(P.G[h[1]]['q'] if h[0] == 's' and h[1] in P.G else str(h) for h in hs)) for l, o, hs, _ in acc]
        common = frozenset.intersection(*[a[2] for a in acc])
        if common:
            held += len(acc)
            if common == {ANY}:
                und.append('the lock protecting %s could not be identified' % g['q'])
        elif ATOMIC.search(ts):
            ops = [a[1].split(' ')[1] if ' ' in a[1] else a[1] for a in acc]
            rmw = [o for o in ops if re.search(r'fetch_|operator(\+\+|--|\+=|-=)|exchange', o)]
            cas = [o for o in ops if 'compare_exchange' in o]
            st = [a for a, o in zip(acc, ops) if o in ('store', 'operator=')]
            ld = [a for a, o in zip(acc, ops) if o in ('load', 'operator conv', 'access')]
            if st:
                V('the counter %s is overwritten without a lock' % g['q'], st[0][0])
            elif not rmw:
                V('the counter %s is never advanced atomically' % g['q'], acc[0][0])
            elif ld and not cas:
                V('the counter %s is read again after it was advanced: another thread may have advanced it in between' % g['q'], ld[0][0])
            else:
                held += len(acc)
        elif any(ANY in a[2] for a in acc):
            und.append('the lock protecting %s could not be identified' % g['q'])
        else:
            a = min(acc, key=lambda a: len(a[2]))
            why = 'no lock is held'
            if L.private:
                why = 'the lock taken at %s is private to the call' % rel(L.private)
            elif any(x[2] for x in acc):
                why = 'its accesses are not made under one common lock'
            V('the shared counter %s is accessed in %s while %s' % (g['q'], a[3], why), a[0])
        T = P.T[g['t']]
        if T.get('k') == 'int' and len(L.acc) == 1:
            if T['bits'] < 64:
                V('the counter %s has %d bits and starts over after 2^%d keys' % (g['q'], T['bits'], T['bits']), g['loc'])
            else:
                held += 1
    if not L.acc:
        if L.tls:
            g = P.G[next(iter(L.tls))]
            V('keys are counted by %s, one per thread' % g['q'], g['loc'])
        else:
            und.append('the generator uses no variable of static storage')
    elif L.tls:
        und.append('part of the state is per thread')
    t = P.T[roots[0]['r']]
    if t.get('k') == 'int':
        if t['bits'] < 64:
            V('keys have only %d bits' % t['bits'], roots[0]['loc'])
        else:
            held += 1
    # keys may not be cut down where they are handed on
    for f in P.F.values():
        def w(x):
            if isinstance(x, dict):
                if x.get('k') == 'cast' and x.get('ck') == 'IntegralCast':
                    y = x['e']
                    if y.get('k') in ('call', 'mcall') and (y.get('f') or {}).get('q') == root:
                        tt = P.T[x['t']]
                        if tt.get('k') == 'int' and tt['bits'] < 64:
                            V('a key is cut down to %d bits in %s' % (tt['bits'], f['q']), x.get('loc', ''))
                for z in x.values():
                    w(z)
            elif isinstance(x, list):
                for z in x:
                    w(z)
        w(f.get('body'))
    und += [n for n in L.notes if n != 'private']
    return viol, und, held, dict(accesses=cov, functions=sorted(P.F[i]['q'] for i in L.reached if i in P.F)[:20])
