"""Effect and lock analysis over the exported program (used by the rules for C20 and C27).

Every lvalue and every pointer, iterator or view is abstracted by the set of roots it may designate:
  ('this',)        the receiver (its subobjects and whatever it owns or points to)
  ('param', i)     what the i-th argument designates
  ('global', id)   a variable of static storage duration
  ('local', id)    a variable of the function
  ('fresh',)       a temporary;  ('lib',) a variable of a library;  ('unknown',)
A function's summary is the set of its writes and the roots it returns, in terms of its own receiver and
parameters; calls inside the repository are resolved through summaries (all overriders for virtual calls).
"""
import re

THIS, FRESH, LIB, UNKNOWN = ('this',), ('fresh',), ('lib',), ('unknown',)
VIEW = re.compile(r'iterator|Iterator|_ptr<|reference_wrapper|Eigen::(Map|Block|Ref|VectorBlock|Transpose|NoAlias|CommaInitializer|ArrayWrapper|'
                  r'MatrixWrapper|Diagonal|Reshaped|IndexedView|CwiseUnaryView|TriangularView|SelfAdjointView|Reverse)\b|initializer_list|\(lambda|optional_ref|span<')
SYNC = re.compile(r'(std|boost)::(\w+::)*(mutex|recursive_mutex|shared_mutex|timed_mutex|shared_timed_mutex|recursive_timed_mutex|once_flag|atomic|atomic_flag|'
                  r'condition_variable|spinlock|__atomic_base)\b')
LOCK = re.compile(r'(std|boost)::(\w+::)*(lock_guard|unique_lock|scoped_lock|shared_lock|upgrade_lock|strict_lock)\b')
ACCESS = {'begin', 'end', 'rbegin', 'rend', 'find', 'at', 'front', 'back', 'operator[]', 'operator()', 'operator*', 'operator->', 'data', 'lower_bound',
          'upper_bound', 'equal_range', 'get', 'block', 'head', 'tail', 'segment', 'row', 'col', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'diagonal',
          'transpose', 'noalias', 'array', 'matrix', 'coeffRef', 'x', 'y', 'z', 'w', 'coeffs', 'vec', 'derived', 'native_handle', 'base', 'topLeftCorner',
          'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'first', 'second', 'eval', 'vector', 'count', 'size'}
MUTATING_ALGO = {'fill', 'fill_n', 'sort', 'stable_sort', 'reverse', 'rotate', 'iota', 'copy', 'copy_n', 'copy_if', 'copy_backward', 'move', 'move_backward',
                 'transform', 'generate', 'generate_n', 'swap_ranges', 'iter_swap', 'partial_sum', 'adjacent_difference', 'replace', 'replace_if',
                 'unique', 'remove', 'remove_if', 'partition', 'nth_element', 'partial_sort', 'inclusive_scan', 'exclusive_scan', 'merge', 'random_shuffle', 'shuffle'}


class Write:
    __slots__ = ('atom', 'loc', 'what', 'locked', 'path')

    def __init__(self, atom, loc, what, locked=False, path=()):
        self.atom, self.loc, self.what, self.locked, self.path = atom, loc, what, locked, path

    def key(self):
        return (self.atom, self.loc, self.what)


class Program:
    def __init__(self, js):
        self.js = js
        self.T = js['types']
        self.F = {f['id']: f for f in js['functions']}
        self.G = {g['id']: g for g in js['globals']}
        self.fields = {}
        self.recs = {r['rid']: r for r in js['records']}
        for r in js['records']:
            for f in r['fields']:
                self.fields[f['id']] = (r, f)
        self.over = {}
        for r in js['records']:
            for m in r['methods']:
                for b in m.get('over', ()):
                    self.over.setdefault(b, set()).add(m['id'])
        self.summ = {}
        self.busy = set()

    def ts(self, t):
        return self.T[t]['s'] if t is not None and t >= 0 else ''

    def overriders(self, i):
        out, st = set(), [i]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st += list(self.over.get(x, ()))
        return out

    def summary(self, fid):
        s = self.summ.get(fid)
        if s is not None:
            return s
        if fid in self.busy or fid not in self.F:
            return ({}, frozenset([FRESH]))
        self.busy.add(fid)
        a = Walk(self, self.F[fid])
        a.run()
        self.busy.discard(fid)
        s = (a.writes, frozenset(a.rets) or frozenset([FRESH]))
        self.summ[fid] = s
        return s


class Walk:
    def __init__(self, P, f):
        self.P = P
        self.f = f
        self.writes = {}
        self.rets = set()
        self.pts = {}
        self.params = {p['id']: i for i, p in enumerate(f.get('params', ()))}
        self.vt = {p['id']: p['t'] for p in f.get('params', ())}
        self.locked = self.has_lock(f)
        self.changed = False

    def has_lock(self, f):
        found = [False]

        def w(e):
            if found[0]:
                return
            if isinstance(e, dict):
                if e.get('k') == 'decl':
                    for v in e['v']:
                        if LOCK.search(self.P.ts(v['t'])):
                            found[0] = True
                if e.get('k') == 'mcall' and e.get('f', {}).get('q', '').endswith('::lock'):
                    found[0] = True
                for x in e.values():
                    w(x)
            elif isinstance(e, list):
                for x in e:
                    w(x)
        w(f.get('body'))
        return found[0]

    def run(self):
        for _ in range(4):
            self.changed = False
            for i in self.f.get('inits', ()):
                if i.get('e'):
                    self.E(i['e'])
            self.S(self.f.get('body'))
            if not self.changed:
                break

    # ------------------------------------------------------------ helpers
    def bind(self, v, roots):
        o = self.pts.get(v)
        n = (o or set()) | set(roots)
        if n != o:
            self.pts[v] = n
            self.changed = True

    def write(self, roots, e, what, locked=False, path=()):
        for r in roots:
            if r[0] in ('local', 'fresh', 'lib'):
                continue
            w = Write(r, e.get('loc', '') if isinstance(e, dict) else e, what, locked or self.locked, path)
            self.writes.setdefault(w.key(), w)

    def isview(self, t):
        if t is None or t < 0:
            return False
        k = self.P.T[t].get('k')
        return k in ('ptr', 'ref') or (k == 'rec' and bool(VIEW.search(self.P.ts(t))))

    # ------------------------------------------------------------ statements
    def S(self, s):
        if not s:
            return
        if isinstance(s, list):
            for x in s:
                self.S(x)
            return
        k = s.get('k')
        if k == 'decl':
            for v in s['v']:
                self.decl(v)
            return
        if k == 'ret':
            if s.get('e'):
                L, V = self.E(s['e'])
                t = self.f.get('r')
                tk = self.P.T[t].get('k') if t is not None and t >= 0 else None
                if tk == 'ref':
                    self.rets |= set(L) | (set(V) if s['e'].get('vc') == 'r' else set())
                elif self.isview(t):
                    self.rets |= set(V)
            return
        for key in ('cv',):
            if s.get(key):
                self.decl(s[key])
        for key in ('init', 'range', 'bs', 'es'):
            if s.get(key):
                self.S(s[key])
        for key in ('c', 'e', 'inc', 'v', 'v2'):
            if s.get(key) and isinstance(s[key], dict):
                self.E(s[key])
        for key in ('lv', 'th', 'el', 'b', 's'):
            if s.get(key):
                self.S(s[key])
        for h in s.get('h', ()):
            self.S(h.get('b'))

    def decl(self, v):
        self.vt[v['id']] = v['t']
        if v.get('init'):
            L, V = self.E(v['init'])
            tk = self.P.T[v['t']].get('k') if v['t'] >= 0 else None
            if tk == 'ref':
                self.bind(v['id'], set(L) | (set(V) if v['init'].get('vc') == 'r' else set()))
            else:
                self.bind(v['id'], V)
        for h in v.get('hold', ()):
            self.decl(h)

    # ------------------------------------------------------------ expressions: (designated, pointed to)
    def E(self, e):
        if not isinstance(e, dict):
            return (frozenset([FRESH]),) * 2
        r = getattr(self, 'e_' + e.get('k', ''), None)
        if r is None:
            L, V = set(), set()
            for x in e.values():
                for y in (x if isinstance(x, list) else [x]):
                    if isinstance(y, dict) and 'k' in y:
                        self.E(y)
            return (frozenset([FRESH]),) * 2
        L, V = r(e)
        return frozenset(L), frozenset(V)

    def e_this(self, e):
        return [FRESH], [THIS]

    def e_var(self, e):
        i = e['id']
        if e.get('g'):
            g = self.P.G.get(i, {})
            if not g.get('user'):
                return [LIB], [LIB]
            if g.get('constexpr'):
                return [LIB], [LIB]
            return [('global', i)], [('global', i)]
        if i in self.params:
            n = self.params[i]
            t = self.P.T[self.vt[i]].get('k') if self.vt[i] >= 0 else None
            if t == 'ref':
                return [('param', n)], [('param', n)]
            return [('local', i)], set(self.pts.get(i, ())) | {('param', n)}
        p = self.pts.get(i, ())
        t = self.vt.get(i)
        if t is not None and t >= 0 and self.P.T[t].get('k') == 'ref':
            return set(p) or [('local', i)], p
        return [('local', i)], p

    def e_mem(self, e):
        L, V = self.E(e['b'])
        r = set(V if e.get('arrow') else L)
        if not e.get('arrow') and e['b'].get('vc') == 'r':
            r |= V
        if not e.get('arrow'):
            return r, r | V          # a field of a pair of iterators, of a view, ...
        return r, r

    def e_memfn(self, e):
        return self.E(e['b'])

    def e_un(self, e):
        L, V = self.E(e['e'])
        op = e['op']
        if op == '*':
            return V, V
        if op == '&':
            return [FRESH], L
        if op in ('++', '--'):
            self.wr(e['e'], L, e, op)
            return L, V
        return [FRESH], V

    def wr(self, target, L, e, op):
        """write through an lvalue expression unless it is a synchronisation object"""
        if SYNC.search(self.P.ts(target.get('t'))):
            return
        self.write(L, e, 'written by ' + op)

    def e_bin(self, e):
        l, lv = self.E(e['l'])
        r, rv = self.E(e['r'])
        if e['op'] == '=':
            self.wr(e['l'], l, e, 'assignment')
            self.assign(e['l'], rv)
            return l, lv | rv
        if e['op'] == ',':
            return r, rv
        return [FRESH], lv | rv

    def e_cas(self, e):
        l, lv = self.E(e['l'])
        self.E(e['r'])
        self.wr(e['l'], l, e, e['op'])
        return l, lv

    def assign(self, target, V):
        if target.get('k') == 'var' and not target.get('g'):
            self.bind(target['id'], V)

    def e_cond(self, e):
        self.E(e['c'])
        a, b = self.E(e['l']), self.E(e['r'])
        return a[0] | b[0], a[1] | b[1]

    def e_cast(self, e):
        L, V = self.E(e['e'])
        if e.get('ck') == 'ArrayToPointerDecay':
            return [FRESH], L
        return L, V

    def e_mat(self, e):
        L, V = self.E(e['e'])
        return set(L) | {FRESH}, V

    def e_sub(self, e):
        L, V = self.E(e['b'])
        self.E(e['i'])
        return V, V

    def e_il(self, e):
        V = set()
        for x in e.get('a', ()) or e.get('e', ()) or ():
            if isinstance(x, dict):
                V |= self.E(x)[1]
        return [FRESH], V

    def e_stdil(self, e):
        return self.E(e['e'])

    def e_lambda(self, e):
        for c in e.get('caps', ()) or ():
            if isinstance(c, dict):
                for x in c.values():
                    if isinstance(x, dict) and 'k' in x:
                        self.E(x)
        fid = (e.get('f') or {}).get('id') or e.get('op')
        f = self.P.F.get(fid)
        if f:
            o = self.params
            for p in f.get('params', ()):
                self.vt[p['id']] = p['t']
            r = self.rets
            self.rets = set()
            self.S(f.get('body'))
            self.rets = r
        return [FRESH], [FRESH]

    def e_throw(self, e):
        if e.get('e'):
            self.E(e['e'])
        return [FRESH], [FRESH]

    def e_new(self, e):
        for k in ('init', 'e', 'n'):
            if isinstance(e.get(k), dict):
                self.E(e[k])
        return [FRESH], [FRESH]

    def e_delete(self, e):
        L, V = self.E(e['e'])
        self.write(V, e, 'destroyed by delete')
        return [FRESH], [FRESH]

    def e_ctor(self, e):
        return self.call(e, None, e.get('a', ()), ctor=True)

    def e_call(self, e):
        if e.get('ce'):
            self.E(e['ce'])
        return self.call(e, None, e.get('a', ()))

    def e_mcall(self, e):
        return self.call(e, e.get('b'), e.get('a', ()))

    def e_opcall(self, e):
        f = e.get('f') or {}
        a = e.get('a', ())
        if f.get('m') and not f.get('static'):
            return self.call(e, a[0], a[1:], op=e.get('op'))
        return self.call(e, None, a, op=e.get('op'))

    def call(self, e, base, args, ctor=False, op=None):
        P = self.P
        f = e.get('f') or {}
        q = f.get('q', '')
        name = q.rsplit('::', 1)[-1]
        A = [self.E(x) for x in args]
        B = None
        if base is not None:
            L, V = self.E(base)
            bt = P.T[base['t']].get('k') if base.get('t', -1) >= 0 else None
            arrow = bt == 'ptr'
            B = (V if arrow else (set(L) | (set(V) if base.get('vc') == 'r' else set())), V)
        if not f and e.get('k') in ('mcall', 'call', 'opcall'):
            # call through a pointer: nothing is known of the callee; it is not blamed for a write
            if e.get('pm'):
                self.E(e['pm'])
            self.escape(args, A, B)
            r = (set(B[0]) | set(B[1]) if B is not None else set()) or {FRESH}
            return r, r
        targets = [i for i in (P.overriders(f['id']) if f.get('virtual') and not e.get('qualified') else [f.get('id')]) if i in P.F]
        if targets:
            rl = set()
            for t in targets:
                w, rets = P.summary(t)
                fn = P.F[t]

                def m(atom):
                    if atom == THIS:
                        return (set(B[0]) or {FRESH}) if B is not None else {FRESH}
                    if atom[0] == 'param':
                        i = atom[1]
                        if i >= len(A):
                            return {FRESH}
                        pt = fn['params'][i]['t']
                        k = P.T[pt].get('k') if pt >= 0 else None
                        return A[i][0] | (A[i][1] if args[i].get('vc') == 'r' else frozenset()) if k == 'ref' else A[i][1]
                    if atom[0] == 'local':
                        return {FRESH}
                    return {atom}
                for x in w.values():
                    self.write(m(x.atom), x.loc, x.what, x.locked, ('%s @ %s' % (fn['q'], fn['loc']),) + x.path)
                for r in rets:
                    rl |= m(r)
            self.escape(args, A, B)
            return rl or {FRESH}, rl or {FRESH}
        # ---- library
        rt = P.T[f['r']] if f.get('r', -1) is not None and f.get('r', -1) >= 0 else {}
        allr = set()
        if B is not None:
            allr |= set(B[0]) | set(B[1])
        else:
            for L, V in A:
                allr |= set(L) | set(V)
        if base is not None and not f.get('const') and not f.get('static') and not ctor:
            bts = P.ts(base.get('t'))
            if not SYNC.search(bts) and not LOCK.search(bts):
                n = 'operator' + op if op and not name.startswith('operator') else name
                if n not in ACCESS and not (n == 'operator[]' and 'map<' not in bts):
                    # writing operation of a library type; through a view it reaches what is viewed
                    tgt = set(B[0])
                    if self.isview(base.get('t')) and not re.search(r'iterator|Iterator', bts) and P.T[base['t']].get('k') != 'ptr':
                        tgt |= set(B[1])
                    self.write(tgt, e, 'changed by %s' % q)
                    if n == 'operator=' and A:
                        self.assign(base, A[0][1])
                elif n == 'operator[]' and re.search(r'\b(unordered_)?map<', bts):
                    self.write(B[0], e, 'possibly inserted by operator[]')
        pts = f.get('p', ())
        for i, (L, V) in enumerate(A):
            if i >= len(pts) or pts[i] < 0:
                continue
            pt = P.T[pts[i]]
            if pt.get('k') in ('ref', 'ptr') and not pt.get('rv') and not P.T[pt['e']].get('const') and not ctor:
                at = P.ts(args[i].get('t'))
                if SYNC.search(at) or name in ('forward', 'move', 'addressof', 'begin', 'end', 'get', 'ref', 'as_const', 'tie', 'declval', 'distance') or op in ('*', '->', '[]'):
                    continue
                self.write(L if pt['k'] == 'ref' else V, e, 'passed to %s for writing' % q)
            elif name in MUTATING_ALGO and q.startswith('std::') and re.search(r'iterator|\*', P.ts(args[i].get('t'))) and 'const' not in P.ts(args[i].get('t')):
                if name in ('copy', 'copy_n', 'copy_if', 'transform', 'move', 'merge', 'partial_sum', 'adjacent_difference', 'inclusive_scan') and i < len(A) - 1 - (name == 'transform'):
                    continue
                self.write(V, e, 'written by %s' % q)
        self.escape(args, A, B)
        k = rt.get('k')
        if ctor:
            if self.isview(e.get('t')):
                return {FRESH}, allr
            return {FRESH}, {FRESH}      # owns its content
        if k in ('ref', 'ptr') or (k == 'rec' and VIEW.search(rt.get('s', ''))):
            return allr, allr
        return {FRESH}, {FRESH}

    def escape(self, args, A, B):
        """locals handed out by address may receive pointers into whatever else the call sees"""
        outs = []
        for x, (L, V) in zip(args, A):
            t = x.get('t', -1)
            if x.get('k') == 'un' and x.get('op') == '&' and x['e'].get('k') == 'var' and not x['e'].get('g'):
                outs.append((x['e']['id'], x['e'].get('t', -1)))
            elif x.get('k') == 'var' and not x.get('g') and x.get('vc') == 'l':
                outs.append((x['id'], t))
        outs = [(i, t) for i, t in outs if self.isview(t) or (t >= 0 and self.P.T[t].get('k') == 'rec' and VIEW.search(self.P.ts(t)))]
        if not outs:
            return
        src = set(B[0]) | set(B[1]) if B is not None else set()
        for L, V in A:
            src |= set(V)
        src = {r for r in src if r[0] not in ('local', 'fresh')}
        for i, t in outs:
            self.bind(i, src)
