"""Abstract interpretation of the resolved program over guarded value numbers.

The abstract state maps abstract addresses to guarded value numbers (dd.py).  Control-flow joins merge
the states of all incoming edges; loops are iterated to the point where the back edge becomes
infeasible under the path condition (polyhedral test); calls are analysed in context.  Nothing of the
analysed program is executed: its inputs are unknowns.
"""
import collections
import sys
import time
from fractions import Fraction
import dd
import poly as P
from poly import R
from dd import (leaf, num, ite, AND, OR, NOT, restrict, map1, map2, guards, prune, feasible, cmp)

sys.setrecursionlimit(20000)

Ptr = collections.namedtuple('Ptr', 'base path')
MapIt = collections.namedtuple('MapIt', 'base path idx')      # idx None: end
RevIt = collections.namedtuple('RevIt', 'it')                 # reverse iterator onto element `it`
FnPtr = collections.namedtuple('FnPtr', 'fid')
Str = collections.namedtuple('Str', 'p')                      # tuple of str | ('num', R, prec) | ('frag', num, i, j)
AC = collections.namedtuple('AC', 'part k')                   # k-th character of a rendered number
Clo = collections.namedtuple('Clo', 'base path rid')          # std::function holding a closure

NULL = Ptr(0, ())


class Dead(Exception):
    pass


class Timeout(Exception):
    pass


class Unsupported(Exception):
    def __init__(self, msg, loc=''):
        Exception.__init__(self, msg)
        self.loc = loc


class MatVal:
    """matrix value: row-major list of scalar nodes"""
    __slots__ = ('r', 'c', 'd')

    def __init__(self, r, c, d):
        self.r, self.c, self.d = r, c, d

    def at(self, i, j):
        return self.d[i * self.c + j]


class MatRef:
    """matrix view: row-major list of element address nodes"""
    __slots__ = ('r', 'c', 'd', 'fixed')

    def __init__(self, r, c, d):
        self.r, self.c, self.d = r, c, d

    def at(self, i, j):
        return self.d[i * self.c + j]


class Obj:
    """opaque library object (decomposition, comma initialiser, ...)"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class State:
    __slots__ = ('mem', 'own', 'pc')

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.pc = dd.TRUE

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        self.own = set()
        return s

    def w(self, base):
        m = self.mem.get(base)
        if m is None:
            m = {}
            self.mem[base] = m
            self.own.add(base)
        elif base not in self.own:
            m = dict(m)
            self.mem[base] = m
            self.own.add(base)
        return m


def is_flag(path):
    return bool(path) and path[-1] == 'alive'


class Frame:
    __slots__ = ('vars', 'this', 'rets', 'loops', 'f', 'bases', 'ret', 'caps')

    def __init__(self, f):
        self.vars = {}
        self.this = None
        self.rets = []
        self.loops = []
        self.f = f
        self.bases = []
        self.ret = None


class Loop:
    __slots__ = ('brk', 'cont', 'sw')

    def __init__(self, sw=False):
        self.brk = []
        self.cont = []
        self.sw = sw


class Handler:
    __slots__ = ('states', 'aborts', 'types')

    def __init__(self, aborts, types=()):
        self.states = []
        self.aborts = aborts
        self.types = types


class Prog:
    def __init__(self, js):
        self.types = js['types']
        self.fn = {f['id']: f for f in js['functions']}
        self.rec = {r['rid']: r for r in js['records']}
        self.glob = {g['id']: g for g in js['globals']}
        self.entries = js['entries']
        self.files = js['files']
        self._vt = {}
        self._virt = {}
        self.field_of = {}

    def T(self, t):
        return self.types[t]

    def strip(self, t):
        """type dict with references removed"""
        x = self.types[t]
        while x['k'] == 'ref':
            x = self.types[x['e']]
        return x

    def bases(self, rid):
        r = self.rec.get(rid)
        out = []
        if r:
            for b in r['bases']:
                bt = self.types[b]
                if bt['k'] == 'rec':
                    out.append(bt)
        return out

    def has_virtual(self, rid):
        v = self._virt.get(rid)
        if v is None:
            r = self.rec.get(rid)
            v = False
            if r:
                v = any(m.get('virtual') for m in r['methods']) or any(self.has_virtual(b['rid']) for b in self.bases(rid))
            self._virt[rid] = v
        return v

    def all_fields(self, rid):
        r = self.rec.get(rid)
        if not r:
            return []
        out = []
        for b in self.bases(rid):
            out += self.all_fields(b['rid'])
        return out + r['fields']

    def derives(self, rid, base):
        return rid == base or any(self.derives(b['rid'], base) for b in self.bases(rid))

    def overrider(self, rid, fid):
        k = (rid, fid)
        if k in self._vt:
            return self._vt[k]
        res = None
        r = self.rec.get(rid)
        if r:
            for m in r['methods']:
                if m['id'] == fid or self._overrides(m, fid):
                    res = m['id']
                    break
            if res is None:
                for b in self.bases(rid):
                    res = self.overrider(b['rid'], fid)
                    if res is not None:
                        break
        self._vt[k] = res
        return res

    def _overrides(self, m, fid):
        for o in m['over']:
            if o == fid:
                return True
            for r in self.rec.values():
                for mm in r['methods']:
                    if mm['id'] == o and self._overrides(mm, fid):
                        return True
        return False


EIGEN_BASES = ('Eigen::DenseBase', 'Eigen::MatrixBase', 'Eigen::PlainObjectBase', 'Eigen::EigenBase', 'Eigen::DenseCoeffsBase',
               'Eigen::ArrayBase', 'Eigen::MapBase')
EIGEN_PLAIN = ('Eigen::Matrix', 'Eigen::Array')
AGG_LIB = ('std::vector', 'std::map', 'std::pair', 'std::array', 'std::unordered_map', 'std::set', 'std::deque',
           'boost::unordered::unordered_map', 'boost::unordered_map', 'std::tuple', 'std::initializer_list',
           'std::unordered_set', 'std::multimap')
STREAMS = ('std::basic_ostringstream', 'std::basic_istringstream', 'std::basic_stringstream',
           'std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream', 'std::basic_ostream',
           'std::basic_istream', 'std::basic_iostream', 'std::basic_ios')


class Interp:
    MAXLOOP = 400
    wraps = 0
    MAXDEPTH = 120

    def __init__(self, prog, lib, opts=None):
        self.p = prog
        self.lib = lib
        self.opts = opts or {}
        self.st = State()
        self.nbase = 100
        self.frames = []
        self.handlers = []
        self.events = []       # ('ub'|'abort'|'throw', guard, loc, text)
        self.obligations = []  # (label, kind, violation guard node, info, loc)
        self.lambdas = {}
        self.nodeid = 0
        self.touched = set()
        self.branch_sites = set()
        self.cur_loc = ''
        self.solves = []       # list of dict(A, b, syms, r, c)
        self.solve_tab = {}
        self.depth = 0
        self.globals_ready = {}
        self.const_bases = set()
        self.steps = 0
        self.ret_base = None
        self.deadline = None
        self.repo = self.opts.get('repo', '/repo') + '/'
        self.api = []          # operations of the repository entered from the context, in order

    # ------------------------------------------------------------ memory
    def newbase(self, local=True):
        self.nbase += 1
        b = self.nbase
        self.st.w(b)
        if local and self.frames:
            self.frames[-1].bases.append(b)
        return b

    def ub(self, guard, text, loc=None):
        g = AND(self.st.pc, guard)
        if g is dd.FALSE:
            return
        g = prune(g)
        if g is dd.FALSE:
            return
        self.events.append(('ub', g, loc or self.cur_loc, text, self.where()))
        self.st.pc = prune(AND(self.st.pc, NOT(guard)))
        if self.st.pc is dd.FALSE:
            raise Dead()

    def in_repo(self, f):
        return (f.get('loc') or '').startswith(self.repo)

    def where(self):
        for fr in reversed(self.frames):
            if fr.f and self.in_repo(fr.f):
                return fr.f['q']
        return self.frames[-1].f['q'] if self.frames and self.frames[-1].f else ''

    def stack(self):
        return [fr.f['q'] for fr in self.frames if fr.f]

    def check_base(self, addr):
        """null and dangling dereference"""
        bad = dd.FALSE
        for v, g in guards(addr, self.st.pc):
            if isinstance(v, Ptr):
                if v.base == 0:
                    self.ub(g, 'null pointer dereference')
                elif v.base not in self.st.mem:
                    self.ub(g, 'use of an object after its lifetime ended')
            elif v is dd.UNDEF_V:
                self.ub(g, 'use of an uninitialised pointer, reference or iterator')
            else:
                raise Unsupported('address of kind %r' % (type(v).__name__,), self.cur_loc)

    def _cell(self, p):
        m = self.st.mem.get(p.base)
        if m is None:
            return dd.UNDEF
        v = m.get(p.path)
        if v is None:
            if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == 'e':
                # element of an expression object stored as one cell
                o = m.get(p.path[:-1])
                if o is not None and o.leaf and isinstance(o.v, (MatVal, MatRef)):
                    x = o.v.at(p.path[-1][1], p.path[-1][2])
                    return self.load(x) if isinstance(o.v, MatRef) else x
            return dd.FALSE if is_flag(p.path) else dd.UNDEF
        return v

    def load(self, addr):
        pc = self.st.pc
        if addr.leaf:
            v = addr.v
            if isinstance(v, Ptr) and v.base and v.base in self.st.mem:
                return restrict(self._cell(v), pc)
        addr = restrict(addr, pc)
        self.check_base(addr)
        addr = restrict(addr, self.st.pc)
        r = map1(None, lambda v: self._cell(v) if isinstance(v, Ptr) else dd.UNDEF, addr)
        return restrict(r, self.st.pc)

    def store(self, addr, val):
        if not isinstance(val, (dd.Leaf, dd.Br)):
            raise Unsupported('store of %r' % (val,), self.cur_loc)
        addr = restrict(addr, self.st.pc)
        if not (addr.leaf and isinstance(addr.v, Ptr) and addr.v.base in self.st.mem and addr.v.base):
            self.check_base(addr)
            addr = restrict(addr, self.st.pc)
        if addr.leaf:
            self._set(addr.v, val)
            return
        for v, g in guards(addr, self.st.pc):
            if isinstance(v, Ptr) and v.base:
                c = restrict(g, self.st.pc)
                self._set(v, ite(c, val, self._cell(v)))

    def _set(self, p, val):
        if p.base in self.const_bases:
            pass
        if len(p.path) > 1 and p.path[-2] == 'ch':
            raise Unsupported('write to a character of a string', self.cur_loc)
        m = self.st.w(p.base)
        m[p.path] = val

    def sub(self, addr, *items):
        """address of a sub-object"""
        return map1(None, lambda v: leaf(Ptr(v.base, v.path + items)) if isinstance(v, Ptr) and v.base else leaf(v), addr)

    def cells(self, p):
        m = self.st.mem.get(p.base, {})
        n = len(p.path)
        if n == 0:
            return dict(m)
        return {k[n:]: v for k, v in m.items() if k[:n] == p.path}

    def erase(self, p):
        m = self.st.w(p.base)
        n = len(p.path)
        for k in [k for k in m if k[:n] == p.path]:
            del m[k]

    def snapshot(self, addr):
        addr = restrict(addr, self.st.pc)
        self.check_base(addr)
        addr = restrict(addr, self.st.pc)
        gs = guards(addr, self.st.pc)
        if len(gs) == 1:
            return self.cells(gs[0][0])
        res = None
        for v, g in gs:
            c = self.cells(v)
            if res is None:
                res = c
            else:
                res = self.merge_cells(restrict(g, self.st.pc), c, res)
        return res

    @staticmethod
    def merge_cells(cond, a, b):
        r = dict(b)
        for k, v in a.items():
            o = b.get(k)
            if o is None:
                r[k] = ite(cond, v, dd.FALSE) if is_flag(k) else v
            elif o is not v:
                r[k] = ite(cond, v, o)
        for k, v in b.items():
            if k not in a and is_flag(k):
                r[k] = ite(cond, dd.FALSE, v)
        return r

    def write_snapshot(self, p, snap, keepdyn=False):
        dyn = None
        if keepdyn:
            dyn = self.st.mem.get(p.base, {}).get(p.path + ('#dyn',))
        self.erase(p)
        m = self.st.w(p.base)
        for k, v in snap.items():
            m[p.path + k] = v
        if keepdyn and dyn is not None:
            m[p.path + ('#dyn',)] = dyn

    def copy_to(self, dst, src, keepdyn=False):
        snap = self.snapshot(src)
        self.write_to(dst, snap, keepdyn)

    def write_to(self, dst, snap, keepdyn=False):
        dst = restrict(dst, self.st.pc)
        self.check_base(dst)
        dst = restrict(dst, self.st.pc)
        gs = guards(dst, self.st.pc)
        if len(gs) == 1:
            self.write_snapshot(gs[0][0], snap, keepdyn)
        else:
            for v, g in gs:
                old = self.cells(v)
                self.write_snapshot(v, self.merge_cells(restrict(g, self.st.pc), snap, old), keepdyn)

    # ------------------------------------------------------------ states
    def merge_states(self, ss):
        ss = [s for s in ss if s is not None and s.pc is not dd.FALSE]
        if not ss:
            return None
        cur = ss[0]
        for s in ss[1:]:
            cur = self._merge2(s, cur)[0]
        return cur

    def _merge2(self, a, b):
        """returns merged state and selector (true: a)"""
        pc = OR(a.pc, b.pc)
        c = restrict(a.pc, pc)
        r = State()
        r.pc = pc
        mem = dict(b.mem)
        for base, da in a.mem.items():
            db = b.mem.get(base)
            if db is None:
                mem[base] = da
            elif db is not da:
                mem[base] = self.merge_cells(c, da, db)
                r.own.add(base)
        r.mem = mem
        a.own = set()
        b.own = set()
        # restrict every own set: shared dicts must be copied on write
        return r, c

    def merge_value(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, (dd.Leaf, dd.Br)) and isinstance(b, (dd.Leaf, dd.Br)):
            return ite(c, a, b)
        if isinstance(a, (MatVal, MatRef)) and isinstance(b, (MatVal, MatRef)):
            if type(a) is type(b) and (a.r, a.c) == (b.r, b.c):
                return type(a)(a.r, a.c, [ite(c, x, y) for x, y in zip(a.d, b.d)])
            a, b = self.lib.mat(self, a), self.lib.mat(self, b)
            if (a.r, a.c) == (b.r, b.c):
                return MatVal(a.r, a.c, [ite(c, x, y) for x, y in zip(a.d, b.d)])
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_value(c, x, y) for x, y in zip(a, b))
        raise Unsupported('join of %r and %r' % (type(a).__name__, type(b).__name__), self.cur_loc)

    def run_in(self, st, f):
        """runs f in state st; returns (state or None, value)"""
        self.st = st
        try:
            v = f()
        except Dead:
            return None, None
        return self.st, v

    def alternatives(self, alts):
        """alts: list of (pc, fn); runs each from the current state and joins"""
        s0 = self.st
        alts = [(prune(g), f) for g, f in alts]
        alts = [(g, f) for g, f in alts if g is not dd.FALSE]
        if not alts:
            raise Dead()
        if len(alts) == 1:
            s0.pc = alts[0][0]
            return alts[0][1]()
        cur = None
        val = None
        for i, (g, f) in enumerate(alts):
            s = s0.copy()
            s.pc = g
            s, v = self.run_in(s, f)
            if s is None or s.pc is dd.FALSE:
                continue
            if cur is None:
                cur, val = s, v
            else:
                cur, c = self._merge2(s, cur)
                self.st = cur
                val = self.merge_value(c, v, val)
        if cur is None:
            raise Dead()
        self.st = cur
        return val

    def defined(self, c):
        """condition with uninitialised leaves removed (reported)"""
        if c.leaf:
            if c is dd.UNDEF:
                self.ub(dd.TRUE, 'branch on an uninitialised value')
            return c
        if any(v is dd.UNDEF_V for v in dd.leaves(c)):
            for v, g in guards(c, self.st.pc):
                if v is dd.UNDEF_V:
                    self.ub(g, 'branch on an uninitialised value')
            c = map1(None, lambda v: dd.FALSE if v is dd.UNDEF_V else leaf(v), c)
        return c

    def branch(self, c, ft, ff):
        c = restrict(self.defined(restrict(c, self.st.pc)), self.st.pc)
        if c is dd.TRUE:
            return ft()
        if c is dd.FALSE:
            return ff()
        pc = self.st.pc
        return self.alternatives([(AND(pc, c), ft), (AND(pc, NOT(c)), ff)])

    def split(self, node, f):
        """f(leaf value) for every possible leaf of node"""
        node = restrict(node, self.st.pc)
        if node.leaf:
            return f(node.v)
        gs = guards(node, self.st.pc)
        return self.alternatives([(g, lambda v=v: f(v)) for v, g in gs])

    def split_many(self, nodes, f):
        """f(list of leaf values)"""
        nodes = [restrict(n, self.st.pc) for n in nodes]
        if all(n.leaf for n in nodes):
            return f([n.v for n in nodes])
        t = leaf(())
        for n in nodes:
            t = map2(None, lambda a, b: leaf(a + (b,)), t, n)
        return self.split(t, lambda v: f(list(v)))

    def cint(self, node, what='value'):
        """python int of a node that must be a constant integer"""
        node = restrict(node, self.st.pc)
        if node.leaf and isinstance(node.v, R) and node.v.c is not None:
            return int(node.v.c)
        if node.leaf and isinstance(node.v, bool):
            return int(node.v)
        raise Unsupported('%s is not a constant integer' % what, self.cur_loc)

    def as_int(self, v, what='value'):
        if isinstance(v, R) and v.c is not None:
            return int(v.c)
        if isinstance(v, bool):
            return int(v)
        if v is dd.UNDEF_V:
            self.ub(dd.TRUE, 'use of an uninitialised %s' % what)
        raise Unsupported('%s is not a constant integer' % what, self.cur_loc)

    # ------------------------------------------------------------ abnormal termination
    def abort(self, text):
        g = prune(self.st.pc)
        if g is dd.FALSE:
            raise Dead()
        for h in reversed(self.handlers):
            if h.aborts:
                h.states.append(self.st)
                raise Dead()
        self.events.append(('abort', g, self.cur_loc, text, self.where()))
        raise Dead()

    def throw(self, tname, text):
        g = prune(self.st.pc)
        if g is dd.FALSE:
            raise Dead()
        for h in reversed(self.handlers):
            if h.aborts:
                h.states.append(self.st)
                raise Dead()
            if self.catches(h.types, tname):
                h.states.append(self.st)
                raise Dead()
        self.events.append(('throw', g, self.cur_loc, text, self.where()))
        raise Dead()

    def catches(self, types, tname):
        for t in types:
            if t is None or t == tname or t == 'std::exception':
                return True
            if t in ('std::logic_error',) and tname in ('std::out_of_range', 'std::invalid_argument', 'std::length_error'):
                return True
            if t in ('std::runtime_error',) and tname in ('std::range_error', 'std::overflow_error'):
                return True
        return False

    # ------------------------------------------------------------ types
    def T(self, t):
        return self.p.types[t]

    def is_eigen(self, T):
        return T['k'] == 'rec' and T['n'].startswith('Eigen::')

    def is_plain(self, T):
        return T['k'] == 'rec' and T['n'] in EIGEN_PLAIN

    def is_agg(self, T):
        if T['k'] == 'array':
            return True
        if T['k'] != 'rec':
            return False
        n = T['n']
        if T.get('lambda'):
            return True
        if n in EIGEN_PLAIN or n in AGG_LIB or n in STREAMS:
            return True
        return T['rid'] in self.p.rec and not self.is_eigen(T)

    # ------------------------------------------------------------ globals
    def init_globals(self):
        """static and global variables, including function-local statics"""
        self.frames.append(Frame(None))
        for gid, g in list(self.p.glob.items()):
            b = -gid
            self.st.w(b)
            self.globals_ready[gid] = leaf(Ptr(b, ()))
        for gid, g in list(self.p.glob.items()):
            addr = self.globals_ready[gid]
            T = self.T(g['t'])
            try:
                if g.get('q') in self.lib.GLOBALS:
                    self.store(addr, self.lib.GLOBALS[g['q']](self, g))
                elif g.get('init') is not None:
                    self.init_into(g['init'], addr.v, T)
                elif not g.get('user') and not self.is_agg(T):
                    self.store(addr, leaf(Obj('global', q=g['q'])))
                else:
                    self.zero_into(addr.v, T)
            except (Unsupported, Dead) as ex:
                self.erase(addr.v)
                self.st.w(addr.v.base)
                if isinstance(ex, Dead):
                    self.st.pc = dd.TRUE
        self.frames.pop()

    def zero_into(self, p, T):
        k = T['k']
        if k in ('int', 'float', 'enum'):
            self._set(p, dd.N0)
        elif k == 'bool':
            self._set(p, dd.FALSE)
        elif k in ('ptr', 'nullptr'):
            self._set(p, leaf(NULL))
        elif k == 'array':
            for i in range(T.get('n', 0)):
                self.zero_into(Ptr(p.base, p.path + (i,)), self.T(T['e']))
        elif k == 'rec':
            if T['rid'] in self.p.rec and not self.is_eigen(T):
                for f in self.p.all_fields(T['rid']):
                    self.zero_into(Ptr(p.base, p.path + (f['id'],)), self.T(f['t']))
                self.set_dyn(p, T['rid'])
            else:
                self.lib.default_construct(self, T, p, True)

    def set_dyn(self, p, rid):
        if self.p.has_virtual(rid):
            self._set(Ptr(p.base, p.path + ('#dyn',)), leaf(('rid', rid)))

    def default_into(self, p, T, complete=True):
        """default initialisation (no initialiser)"""
        k = T['k']
        if k in ('int', 'float', 'enum', 'bool', 'ptr', 'nullptr'):
            self._set(p, dd.UNDEF)
        elif k == 'array':
            for i in range(T.get('n', 0)):
                self.default_into(Ptr(p.base, p.path + (i,)), self.T(T['e']))
        elif k == 'rec':
            if T['rid'] in self.p.rec and not self.is_eigen(T) and not T.get('lambda'):
                if complete:
                    self.set_dyn(p, T['rid'])
                r = self.p.rec[T['rid']]
                for b in self.p.bases(T['rid']):
                    if b['rid'] in self.p.rec:
                        self.default_ctor(p, b, False)
                for f in r['fields']:
                    fp = Ptr(p.base, p.path + (f['id'],))
                    if f.get('init') is not None:
                        self.init_into(f['init'], fp, self.T(f['t']))
                    else:
                        self.default_ctor(fp, self.T(f['t']))
            elif T.get('lambda'):
                pass
            else:
                self.lib.default_construct(self, T, p, False)

    def default_ctor(self, p, T, complete=True):
        """run the default constructor of T if it is user provided, else default_into"""
        if T['k'] == 'array':
            for i in range(T.get('n', 0)):
                self.default_ctor(Ptr(p.base, p.path + (i,)), self.T(T['e']))
            return
        if T['k'] == 'rec' and T['rid'] in self.p.rec and not self.is_eigen(T):
            for f in self.p.fn.values():
                if f.get('ctor') and not f['params'] and self.T(f['rec'])['rid'] == T['rid']:
                    if complete:
                        self.set_dyn(p, T['rid'])
                    self.run_ctor(f, [], p, complete)
                    return
        self.default_into(p, T, complete)

    # ------------------------------------------------------------ functions
    def call_function(self, f, this, argvals, loc='', closure=None):
        """f: function dict with body; argvals: list aligned with params: address node for references
        and aggregates, scalar node otherwise (or python matrix objects)."""
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            raise Unsupported('call depth exceeded in %s' % f['q'], loc)
        fr = Frame(f)
        fr.this = this
        saved_loc = self.cur_loc
        self.touched.add(f['id'])
        if self.in_repo(f):
            if not any(self.in_repo(x.f) for x in self.frames[-6:] if x.f):
                self.api.append(f['q'] + ' @ ' + f['loc'])
        self.frames.append(fr)
        try:
            for prm, v in zip(f['params'], argvals):
                self.bind_param(fr, prm, v)
            if closure is not None:
                self.bind_captures(fr, closure)
            rt = self.T(f['r'])
            rb = None
            if rt['k'] != 'void':
                self.nbase += 1
                rb = self.nbase
                self.st.w(rb)
                fr.ret = rb
            try:
                self.exec(f['body'])
                if rt['k'] != 'void' and f['q'] != 'main' and not f.get('ctor'):
                    self.ub(dd.TRUE, 'control reaches the end of non-void function %s' % f['q'])
                fr.rets.append(self.st)
            except Dead:
                pass
        finally:
            self.frames.pop()
            self.depth -= 1
            self.cur_loc = saved_loc
        st = self.merge_states(fr.rets)
        if st is None:
            raise Dead()
        self.st = st
        for b in fr.bases:
            if b in st.mem:
                del st.mem[b]
                st.own.discard(b)
        if rb is None:
            return None
        if self.frames:
            self.frames[-1].bases.append(rb)
        addr = leaf(Ptr(rb, ()))
        if rt['k'] == 'ref':
            return self._cell(addr.v)
        if self.is_agg(rt):
            return addr
        v = restrict(self._cell(addr.v), st.pc)
        return v

    def bind_param(self, fr, prm, v):
        T = self.T(prm['t'])
        if T['k'] == 'ref':
            fr.vars[prm['id']] = v
            return
        b = self.newbase()
        a = leaf(Ptr(b, ()))
        if self.is_agg(T):
            if isinstance(v, (MatVal, MatRef)):
                self.lib.store_matrix(self, a.v, v, T)
            else:
                self.copy_to(a, v)
        else:
            self.store(a, v if isinstance(v, (dd.Leaf, dd.Br)) else leaf(v))
        fr.vars[prm['id']] = a

    def bind_captures(self, fr, clo):
        caps = self.lambdas[clo[1]]
        addr = clo[0]
        for c in caps:
            a = self.sub(addr, 'cap', c['fid'])
            if c.get('this'):
                if c.get('copy'):
                    fr.this = a
                else:
                    fr.this = self.load(a)
            elif c.get('ref') or self.T(c['t'])['k'] == 'ref':
                fr.vars[c['var']] = self.load(a)
            elif 'var' in c:
                fr.vars[c['var']] = a

    def arg_values(self, f, args, variadic=False):
        """evaluate call arguments for the parameter types in f['p']"""
        out = []
        for i, a in enumerate(args):
            if i < len(f['p']):
                out.append(self.arg_value(a, self.T(f['p'][i])))
            else:
                out.append(self.rval(a))
        return out

    def arg_value(self, a, PT):
        if PT['k'] == 'ref':
            return self.lval(a)
        return self.rval(a)

    def find_function(self, f, this):
        """resolve a callee (virtual dispatch on `this`); yields function dict or None"""
        return self.p.fn.get(f['id'])

    def invoke(self, f, this, argvals, loc, virtual=False):
        if virtual and f.get('virtual') and this is not None:
            dyn = self.load(self.sub(this, '#dyn'))

            def go(v):
                if isinstance(v, tuple) and len(v) == 2 and v[0] == 'rid':
                    o = self.p.overrider(v[1], f['id'])
                    fn = self.p.fn.get(o if o is not None else f['id'])
                else:
                    fn = self.p.fn.get(f['id'])
                if fn is None:
                    raise Unsupported('no body for virtual call of %s' % f['q'], loc)
                return self.call_function(fn, this, argvals, loc)
            vals = {self._dynfn(v, f) for v in dd.leaves(restrict(dyn, self.st.pc))}
            if len(vals) == 1:
                fn = self.p.fn.get(vals.pop())
                if fn is None:
                    raise Unsupported('no body for virtual call of %s' % f['q'], loc)
                return self.call_function(fn, this, argvals, loc)
            return self.split(dyn, go)
        fn = self.p.fn.get(f['id'])
        if fn is None:
            raise Unsupported('no body for %s' % f['q'], loc)
        return self.call_function(fn, this, argvals, loc)

    def _dynfn(self, v, f):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'rid':
            o = self.p.overrider(v[1], f['id'])
            return o if o is not None else f['id']
        return f['id']

    # ------------------------------------------------------------ construction
    def run_ctor(self, f, argvals, p, complete=True):
        """user constructor f on object at p"""
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            raise Unsupported('constructor depth', self.cur_loc)
        fr = Frame(f)
        fr.this = leaf(p)
        saved = self.cur_loc
        self.touched.add(f['id'])
        if self.in_repo(f):
            if not any(self.in_repo(x.f) for x in self.frames[-6:] if x.f):
                self.api.append(f['q'] + ' @ ' + f['loc'])
        self.frames.append(fr)
        try:
            for prm, v in zip(f['params'], argvals):
                self.bind_param(fr, prm, v)
            try:
                rid = self.T(f['rec'])['rid']
                deleg = any(i.get('deleg') for i in f['inits'])
                done = set()
                if not deleg and not f.get('defaulted'):
                    # scalars without initialiser stay uninitialised
                    inited = {i['field']['id'] for i in f['inits'] if 'field' in i}
                    for fld in self.p.rec[rid]['fields']:
                        if fld['id'] not in inited:
                            fp = Ptr(p.base, p.path + (fld['id'],))
                            FT = self.T(fld['t'])
                            if FT['k'] in ('int', 'float', 'enum', 'bool', 'ptr'):
                                self._set(fp, dd.UNDEF)
                            elif FT['k'] == 'array' or FT['k'] == 'rec':
                                self.default_into(fp, FT)
                for i in f['inits']:
                    self.cur_loc = i['loc'] or self.cur_loc
                    if 'field' in i:
                        fp = Ptr(p.base, p.path + (i['field']['id'],))
                        FT = None
                        for fld in self.p.all_fields(rid):
                            if fld['id'] == i['field']['id']:
                                FT = self.T(fld['t'])
                        if FT is None:
                            FT = self.T(i['e']['t'])
                        if FT['k'] == 'ref':
                            self._set(fp, self.lval(i['e']))
                        else:
                            self.init_into(i['e'], fp, FT)
                    elif 'base' in i:
                        BT = self.T(i['base'])
                        if BT['rid'] in self.p.rec:
                            self.init_into(i['e'], p, BT, complete=False)
                    elif i.get('deleg'):
                        self.init_into(i['e'], p, self.T(f['rec']), complete=False)
                if f.get('body') is not None:
                    self.exec(f['body'])
                fr.rets.append(self.st)
            except Dead:
                pass
        finally:
            self.frames.pop()
            self.depth -= 1
            self.cur_loc = saved
        st = self.merge_states(fr.rets)
        if st is None:
            raise Dead()
        self.st = st
        for b in fr.bases:
            if b in st.mem:
                del st.mem[b]
                st.own.discard(b)

    def init_into(self, e, p, T, complete=True):
        """initialise the object of type T at p from expression e"""
        self.cur_loc = e.get('loc') or self.cur_loc
        k = e['k']
        while k == 'cast' and e['ck'] in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion') and self.is_agg(T):
            e = e['e']
            k = e['k']
        if self.is_agg(T):
            if k == 'ctor' or k == 'inhctor':
                if not self.is_plain(T) and T['k'] == 'rec':
                    return self.construct(e, p, T, complete)
            if k == 'il':
                return self.init_list(e, p, T)
            if k == 'zero':
                return self.zero_into(p, T)
            if k == 'arrcopy':
                src = self.lval(e['e'])
                return self.write_snapshot(p, self.snapshot(src))
            if T['k'] == 'array' and k == 'str':
                s = e['v']
                for i, ch in enumerate(s):
                    self._set(Ptr(p.base, p.path + (i,)), num(ord(ch)))
                return
            if T['k'] == 'array' and k == 'ctor':
                for i in range(T['n']):
                    self.construct(e, Ptr(p.base, p.path + (i,)), self.T(T['e']))
                return
            v = self.rval(e)
            if isinstance(v, (MatVal, MatRef)):
                self.lib.store_matrix(self, p, v, T)
            else:
                self.write_snapshot(p, self.snapshot(v))
            return
        if T['k'] == 'ref':
            self._set(p, self.lval(e))
            return
        if k == 'il' and not self.is_agg(T):
            if not e['a']:
                return self.zero_into(p, T)
            e = e['a'][0]
        v = self.rval(e)
        if v is None:
            raise Unsupported('void initialiser', self.cur_loc)
        self._set(p, v if isinstance(v, (dd.Leaf, dd.Br)) else leaf(v))

    def init_list(self, e, p, T):
        if T['k'] == 'array':
            ET = self.T(T['e'])
            a = e['a']
            for i in range(T.get('n', len(a))):
                q = Ptr(p.base, p.path + (i,))
                if i < len(a):
                    self.init_into(a[i], q, ET)
                elif e.get('fill') is not None:
                    self.init_into(e['fill'], q, ET)
                else:
                    self.zero_into(q, ET)
            return
        if T['k'] == 'rec' and T['n'] == 'std::array':
            if len(e['a']) == 1 and self.T(e['a'][0]['t'])['k'] == 'array':
                inner = e['a'][0]
                if inner['k'] == 'il':
                    return self.init_list(inner, p, self.T(inner['t']))
                return self.init_into(inner, p, self.T(inner['t']))
            n, et = self.lib.array_info(self, T)
            for i in range(n):
                q = Ptr(p.base, p.path + (i,))
                if i < len(e['a']):
                    self.init_into(e['a'][i], q, self.T(et))
                else:
                    self.zero_into(q, self.T(et))
            return
        if T['k'] == 'rec' and T['rid'] in self.p.rec:
            if len(e['a']) == 1 and e['a'][0]['k'] == 'ctor' and self.T(e['a'][0]['t']) is T:
                return self.init_into(e['a'][0], p, T)
            flds = self.p.all_fields(T['rid'])
            self.set_dyn(p, T['rid'])
            for i, f in enumerate(flds):
                q = Ptr(p.base, p.path + (f['id'],))
                if i < len(e['a']) and e['a'][i] is not None:
                    self.init_into(e['a'][i], q, self.T(f['t']))
                else:
                    self.zero_into(q, self.T(f['t']))
            return
        if len(e['a']) == 1:
            return self.init_into(e['a'][0], p, T)
        if not e['a']:
            return self.zero_into(p, T)
        raise Unsupported('initialiser list for %s' % T['s'], self.cur_loc)

    def construct(self, e, p, T, complete=True):
        """ctor expression into p"""
        if e['k'] == 'inhctor':
            raise Unsupported('inherited constructor', e.get('loc'))
        f = e['f']
        args = e['a']
        if e.get('elide') and args:
            return self.init_into(args[0], p, T, complete)
        RT = self.T(f['rec']) if f.get('rec') is not None else T
        if RT['k'] == 'rec' and RT['rid'] in self.p.rec and not self.is_eigen(RT) and not RT.get('lambda'):
            fn = self.p.fn.get(f['id'])
            if complete:
                self.set_dyn(p, RT['rid'])
            if fn is not None:
                av = self.arg_values(f, args)
                if e.get('zero') and f.get('defaulted'):
                    self.zero_into(p, RT)
                return self.run_ctor(fn, av, p, complete)
            if f.get('defaulted') or not args:
                if not args:
                    if e.get('zero') or e.get('list'):
                        self.zero_into(p, RT)
                    self.default_into(p, RT, complete)
                    if e.get('zero') or e.get('list'):
                        self.zero_undef(p, RT)
                    return
                src = self.lval(args[0])
                self.write_snapshot(p, self.snapshot(src), keepdyn=True)
                return
            raise Unsupported('constructor %s without body' % f['q'], e.get('loc'))
        if RT.get('lambda'):
            src = self.lval(args[0])
            self.write_snapshot(p, self.snapshot(src))
            return
        return self.lib.construct(self, RT, f, args, p, e)

    def zero_undef(self, p, T):
        for k, v in list(self.cells(p).items()):
            if v is dd.UNDEF:
                pass

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps & 63 == 0 and self.deadline and time.time() > self.deadline:
            raise Timeout('time limit')
        if s.get('loc'):
            self.cur_loc = s['loc']
        getattr(self, 'x_' + s['k'])(s)

    def x_block(self, s):
        for x in s['s']:
            self.exec(x)

    def x_null(self, s):
        pass

    def x_expr(self, s):
        self.discard(s['e'])

    def discard(self, e):
        if e['vc'] in 'lx':
            self.lval(e)
        else:
            self.rval(e)

    def x_decl(self, s):
        for v in s['v']:
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        if v.get('static') or v.get('tls') and False:
            if v['id'] in self.globals_ready:
                fr.vars[v['id']] = self.globals_ready[v['id']]
                return
            raise Unsupported('static local %s' % v['n'], v.get('loc'))
        T = self.T(v['t'])
        if T['k'] == 'ref':
            if v.get('init') is None:
                raise Unsupported('reference without initialiser', v.get('loc'))
            fr.vars[v['id']] = self.lval(v['init'])
        else:
            b = self.newbase()
            p = Ptr(b, ())
            fr.vars[v['id']] = leaf(p)
            if v.get('init') is not None:
                self.init_into(v['init'], p, T)
            else:
                self.default_ctor(p, T)
        for h in v.get('hold', []):
            self.declare(h)

    def cond(self, e):
        """boolean node of a condition expression"""
        return self.tobool(self.rval(e))

    def x_if(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if s.get('cv'):
            self.declare(s['cv'])
        c = self.cond(s['c'])
        if '/repo/' in s['loc']:
            self.branch_sites.add(s['loc'])
        self.branch(c, lambda: self.exec(s['th']), lambda: self.exec(s.get('el')) if s.get('el') else None)

    def x_ret(self, s):
        fr = self.frames[-1]
        if s.get('e') is not None:
            rt = self.T(fr.f['r'])
            if rt['k'] == 'void':
                self.discard(s['e'])
            else:
                p = Ptr(fr.ret, ())
                if rt['k'] == 'ref':
                    a = self.lval(s['e'])
                    self._set(p, a)
                else:
                    self.init_into(s['e'], p, rt)
        fr.rets.append(self.st)
        raise Dead()

    def x_break(self, s):
        self.frames[-1].loops[-1].brk.append(self.st)
        raise Dead()

    def x_continue(self, s):
        for l in reversed(self.frames[-1].loops):
            if not l.sw:
                l.cont.append(self.st)
                raise Dead()

    def loop(self, cond, body, inc, first=True):
        fr = self.frames[-1]
        exits = []
        n = 0
        depth = len(fr.loops)
        wraps = self.wraps
        try:
            while True:
                n += 1
                if n > self.MAXLOOP:
                    if self.wraps > wraps and self.st.pc is not dd.FALSE:
                        self.ub(dd.TRUE, 'a loop over more elements than its counter can count does not end')
                    raise Unsupported('loop bound exceeded', self.cur_loc)
                if n > 1 or first:
                    c = cond()
                    if c is not None:
                        c = restrict(self.defined(restrict(c, self.st.pc)), self.st.pc)
                        pc = self.st.pc
                        out = prune(AND(pc, NOT(c)))
                        if out is not dd.FALSE:
                            s = self.st.copy()
                            s.pc = out
                            exits.append(s)
                        pin = prune(AND(pc, c))
                        if pin is dd.FALSE:
                            break
                        self.st.pc = pin
                lp = Loop()
                fr.loops.append(lp)
                ok = True
                try:
                    body()
                except Dead:
                    ok = False
                finally:
                    del fr.loops[depth:]
                st = self.merge_states(lp.cont + ([self.st] if ok else []))
                exits += lp.brk
                if st is None:
                    break
                self.st = st
                if inc is not None:
                    inc()
        except Dead:
            pass
        st = self.merge_states(exits)
        if st is None:
            raise Dead()
        self.st = st

    def x_for(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if '/repo/' in s['loc']:
            self.branch_sites.add(s['loc'])

        def cond():
            if s.get('cv'):
                self.declare(s['cv'])
            return self.cond(s['c']) if s.get('c') else None
        self.loop(cond, lambda: self.exec(s['b']), (lambda: self.discard(s['inc'])) if s.get('inc') else None)

    def x_while(self, s):
        if '/repo/' in s['loc']:
            self.branch_sites.add(s['loc'])

        def cond():
            if s.get('cv'):
                self.declare(s['cv'])
            return self.cond(s['c'])
        self.loop(cond, lambda: self.exec(s['b']), None)

    def x_do(self, s):
        self.loop(lambda: self.cond(s['c']), lambda: self.exec(s['b']), None, first=False)

    def x_frange(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if '/repo/' in s['loc']:
            self.branch_sites.add(s['loc'])
        self.exec(s['range'])
        self.exec(s['bs'])
        self.exec(s['es'])

        def body():
            self.exec(s['lv'])
            self.exec(s['b'])
        self.loop(lambda: self.cond(s['c']), body, lambda: self.discard(s['inc']))

    def x_switch(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if s.get('cv'):
            self.declare(s['cv'])
        if '/repo/' in s['loc']:
            self.branch_sites.add(s['loc'])
        v = self.rval(s['c'])
        body = s['b']['s'] if s['b']['k'] == 'block' else [s['b']]
        labels = []
        for i, x in enumerate(body):
            y = x
            while y is not None and y['k'] in ('case', 'default'):
                labels.append((i, y))
                y = y.get('b')
        alts = []
        rest = dd.TRUE
        deflt = None
        for i, y in labels:
            if y['k'] == 'default':
                deflt = i
                continue
            cv = self.rval(y['v'])
            if y.get('v2'):
                c = AND(cmp('>=', v, cv), cmp('<=', v, self.rval(y['v2'])))
            else:
                c = cmp('==', v, cv)
            c = AND(c, rest)
            rest = AND(rest, NOT(c))
            alts.append((c, i))
        fr = self.frames[-1]
        lp = Loop(True)
        fr.loops.append(lp)
        depth = len(fr.loops)
        pc = self.st.pc

        def run(i):
            def g():
                for x in body[i:]:
                    y = x
                    while y is not None and y['k'] in ('case', 'default'):
                        y = y.get('b')
                    if y is not None:
                        self.exec(y)
            return g
        lst = [(AND(pc, restrict(c, pc)), run(i)) for c, i in alts]
        lst.append((AND(pc, restrict(rest, pc)), run(deflt) if deflt is not None else (lambda: None)))
        ok = True
        try:
            self.alternatives(lst)
        except Dead:
            ok = False
        del fr.loops[depth - 1:]
        st = self.merge_states(lp.brk + ([self.st] if ok else []))
        if st is None:
            raise Dead()
        self.st = st

    def x_case(self, s):
        self.exec(s['b'])

    x_default = x_label = x_case

    def x_try(self, s):
        types = []
        for h in s['h']:
            if h.get('v'):
                types.append(self.p.strip(h['v']['t']).get('n', '?'))
            else:
                types.append(None)
        hd = Handler(False, types)
        self.handlers.append(hd)
        ok = True
        nf = len(self.frames)
        try:
            self.exec(s['b'])
        except Dead:
            ok = False
        finally:
            self.handlers.remove(hd)
        outs = [self.st] if ok else []
        if hd.states:
            st = self.merge_states(hd.states)
            if st is not None:
                self.st = st
                try:
                    h = s['h'][0]
                    if h.get('v'):
                        self.frames[-1].vars[h['v']['id']] = leaf(Ptr(self.newbase(), ()))
                    self.exec(h['b'])
                    outs.append(self.st)
                except Dead:
                    pass
        st = self.merge_states(outs)
        if st is None:
            raise Dead()
        self.st = st

    def x_unsupported(self, s):
        raise Unsupported('statement %s' % s.get('cls'), s.get('loc'))

    # ------------------------------------------------------------ expressions
    def rval(self, e):
        """scalar node / matrix object / address of a temporary aggregate"""
        if e.get('loc'):
            self.cur_loc = e['loc']
        if e['vc'] in 'lx':
            # glvalue used as value: aggregates stay addresses
            a = self.lval(e)
            T = self.T(e['t'])
            if self.is_agg(T) or not isinstance(a, (dd.Leaf, dd.Br)) or (T['k'] == 'rec' and T['n'] in EIGEN_BASES):
                return a
            return self.load(a)
        return getattr(self, 'e_' + e['k'])(e)

    def lval(self, e):
        """address node (or matrix view for Eigen expression prvalues)"""
        if e.get('loc'):
            self.cur_loc = e['loc']
        if e['vc'] == 'r':
            v = self.e_dispatch(e)
            return self.materialise(v, self.T(e['t']))
        return getattr(self, 'l_' + e['k'], self.l_generic)(e)

    def e_dispatch(self, e):
        return getattr(self, 'e_' + e['k'])(e)

    def materialise(self, v, T):
        """address of a temporary holding v"""
        if self.is_agg(T) and isinstance(v, (dd.Leaf, dd.Br)):
            return v
        b = self.newbase()
        p = Ptr(b, ())
        if isinstance(v, (MatVal, MatRef)) and self.is_plain(T):
            self.lib.store_matrix(self, p, v, T)
        elif isinstance(v, (dd.Leaf, dd.Br)):
            self._set(p, v)
        elif v is None:
            raise Unsupported('void temporary', self.cur_loc)
        else:
            self._set(p, leaf(v))
        return leaf(p)

    def l_generic(self, e):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('lvalue of kind %s' % k, e.get('loc'))
        return m(e)

    # -- leaves
    def e_int(self, e):
        T = self.T(e['t'])
        if T['k'] == 'bool':
            return dd.TRUE if int(e['v']) else dd.FALSE
        return num(int(e['v']))

    def e_flt(self, e):
        return num(self.flt(e))

    def flt(self, e):
        txt = e.get('txt') or ''
        t = txt.strip().rstrip('fFlL')
        try:
            return Fraction(t.replace("'", ''))
        except (ValueError, ZeroDivisionError):
            pass
        try:
            return Fraction(e['v'])
        except ValueError:
            return Fraction(float(e['v']))

    def e_str(self, e):
        return leaf(Str((e['v'],) if e['v'] else ()))

    l_str = e_str

    def e_null(self, e):
        return leaf(NULL)

    def e_this(self, e):
        t = self.frames[-1].this
        if t is None:
            raise Unsupported('this outside of a member function', e.get('loc'))
        return t

    def l_var(self, e):
        a = self.frames[-1].vars.get(e['id'])
        if a is None:
            a = self.globals_ready.get(e['id'])
        if a is None:
            raise Unsupported('unknown variable %s' % e['n'], e.get('loc'))
        if e.get('g') and self.T(self.p.glob[e['id']]['t'])['k'] == 'ref' if e['id'] in self.p.glob else False:
            return self.load(a)
        return a

    def e_var(self, e):
        return self.load(self.l_var(e))

    def e_fnref(self, e):
        return leaf(FnPtr(e['f']['id']))

    l_fnref = e_fnref

    def l_mem(self, e):
        if e.get('arrow'):
            b = self.rval(e['b'])
        else:
            b = self.lval(e['b'])
        if not isinstance(b, (dd.Leaf, dd.Br)):
            raise Unsupported('member of matrix expression', e.get('loc'))
        self.check_base(restrict(b, self.st.pc))
        f = e['f']
        BT = self.T(e['b']['t'])
        if e.get('arrow'):
            BT = self.T(BT['e'])
        key = f['id']
        if BT['k'] == 'rec' and BT['n'] in ('std::pair', 'std::_Rb_tree_iterator'):
            key = f['n']
        elif f['n'] in ('first', 'second') and BT['k'] == 'rec' and BT['rid'] not in self.p.rec:
            key = f['n']
        a = self.sub(restrict(b, self.st.pc), key)
        # reference members hold an address
        if BT['k'] == 'rec':
            for fld in self.p.all_fields(BT.get('rid')) if BT.get('rid') in self.p.rec else ():
                if fld['id'] == f['id'] and self.T(fld['t'])['k'] == 'ref':
                    return self.load(a)
        if BT['k'] == 'rec' and BT['n'] == 'std::pair' and key in ('first', 'second'):
            ta = BT['a'][0 if key == 'first' else 1].get('t')
            if ta is not None and self.T(ta)['k'] == 'ref':
                return self.load(a)
        return a

    def e_mem(self, e):
        a = self.l_mem(e)
        return a if self.is_agg(self.T(e['t'])) else self.load(a)

    def e_memfn(self, e):
        raise Unsupported('bound member function', e.get('loc'))

    def e_sub_addr(self, e):
        b = self.rval(e['b'])
        i = self.rval(e['i'])
        return self.ptr_add(b, i)

    l_sub = e_sub_addr

    def e_sub(self, e):
        return self.load(self.e_sub_addr(e))

    def ptr_add(self, p, i, neg=False):
        def f(a, k):
            if a is dd.UNDEF_V or k is dd.UNDEF_V:
                return dd.UNDEF
            if not isinstance(k, R) or k.c is None:
                raise Unsupported('symbolic pointer offset', self.cur_loc)
            n = int(k.c)
            if n >= 1 << 63:
                n -= 1 << 64
            if neg:
                n = -n
            if isinstance(a, Ptr):
                if n == 0:
                    return leaf(a)
                if a.base == 0:
                    return leaf(a)
                if not a.path:
                    raise Unsupported('pointer arithmetic on a single object', self.cur_loc)
                last = a.path[-1]
                if isinstance(last, int):
                    return leaf(Ptr(a.base, a.path[:-1] + (last + n,)))
                if isinstance(last, tuple) and last[0] == 'e':
                    # linear walk through a matrix (column major)
                    rows = self._cell(Ptr(a.base, a.path[:-1] + ('R',)))
                    r = self.cint(rows)
                    lin = last[2] * r + last[1] + n
                    return leaf(Ptr(a.base, a.path[:-1] + (('e', lin % r, lin // r),)))
                raise Unsupported('pointer arithmetic', self.cur_loc)
            if isinstance(a, RevIt) and isinstance(a.it, Ptr):
                q = a.it
                return leaf(RevIt(Ptr(q.base, q.path[:-1] + (q.path[-1] - n,))))
            if isinstance(a, Str):
                raise Unsupported('character arithmetic', self.cur_loc)
            raise Unsupported('pointer arithmetic on %r' % (a,), self.cur_loc)
        return map2(None, f, restrict(p, self.st.pc), restrict(i, self.st.pc))

    # -- calls
    def e_call(self, e):
        f = e.get('f')
        if f is None:
            ce = self.rval(e['ce'])
            return self.call_value(ce, e['a'], e)
        return self.do_call(e, f, None, e['a'])

    def call_value(self, v, args, e):
        """call through a function pointer / std::function value"""
        def go(x):
            if isinstance(x, FnPtr):
                fn = self.p.fn.get(x.fid)
                if fn is None:
                    raise Unsupported('call through pointer to unknown function', e.get('loc'))
                return self.call_function(fn, None, self.arg_values(fn, args), e.get('loc'))
            if isinstance(x, Clo):
                return self.call_closure(leaf(Ptr(x.base, x.path)), x.rid, args)
            raise Unsupported('call of %r' % (x,), e.get('loc'))
        return self.split(v, go)

    def call_closure(self, addr, rid, args, evaluated=None):
        fn = None
        for f in self.p.fn.values():
            if f.get('n') == 'operator()' and f.get('rec') is not None and self.T(f['rec']).get('rid') == rid:
                fn = f
        if fn is None:
            raise Unsupported('closure without body', self.cur_loc)
        av = evaluated if evaluated is not None else self.arg_values(fn, args)
        return self.call_function(fn, addr, av, '', closure=(addr, rid))

    def do_call(self, e, f, this, args):
        loc = e.get('loc')
        h = self.lib.function(f)
        if h is not None:
            return h(self, e, f, args)
        fn = self.p.fn.get(f['id'])
        if fn is not None:
            av = self.arg_values(f, args)
            self.cur_loc = loc or self.cur_loc
            return self.call_function(fn, None, av, loc)
        if f.get('noreturn'):
            for a in args:
                pass
            self.abort('call of %s' % f['q'])
        raise Unsupported('library function %s' % f['q'], loc)

    def e_mcall(self, e):
        f = e.get('f')
        if f is None:
            if e.get('pm') is None or e.get('b') is None:
                raise Unsupported('call through member pointer', e.get('loc'))
            this = self.rval(e['b']) if e.get('arrow') else self.lval(e['b'])
            self.check_base(restrict(this, self.st.pc))

            def go(x):
                if not isinstance(x, FnPtr) or x.fid not in self.p.fn:
                    raise Unsupported('call through member pointer %r' % (x,), e.get('loc'))
                g = self.p.fn[x.fid]
                return self.invoke(g, restrict(this, self.st.pc), self.arg_values(g, e['a']), e.get('loc'), virtual=True)
            return self.split(self.rval(e['pm']), go)
        if f.get('static'):
            return self.do_call(e, f, None, e['a'])
        RT = self.T(f['rec'])
        fn = self.p.fn.get(f['id'])
        h = self.lib.method(f, RT)
        if fn is None and not f.get('user') and RT['k'] == 'rec' and RT['rid'] in self.p.rec and not h:
            # pure virtual of a user record
            pass
        if h is not None:
            return h(self, e, f, e)
        if RT['k'] == 'rec' and (RT['rid'] in self.p.rec or fn is not None):
            this = self.rval(e['b']) if e.get('arrow') else self.lval(e['b'])
            this = restrict(this, self.st.pc)
            self.check_base(this)
            av = self.arg_values(f, e['a'])
            this = restrict(this, self.st.pc)
            if RT.get('lambda'):
                return self.call_closure(this, RT['rid'], None, evaluated=av)
            if q_op(f) == 'operator=' and fn is None:
                self.copy_to(this, av[0], keepdyn=True)
                return this
            return self.invoke(f, this, av, e.get('loc'), virtual=not e.get('qualified'))
        if f['q'].rpartition('::')[2].startswith('operator') and len(e['a']) == 1:
            b = e['b']
            if e.get('arrow'):
                b = {'k': 'un', 'op': '*', 'e': b, 'vc': 'l', 't': f['rec'], 'loc': e.get('loc')}
            e2 = dict(e)
            e2.update(k='opcall', op=f['q'].rpartition('::')[2][8:].strip(), a=[b] + e['a'])
            return self.lib.operator(self, e2, f, e2['op'])
        raise Unsupported('library method %s' % f['q'], e.get('loc'))

    def e_opcall(self, e):
        f = e.get('f')
        op = e['op']
        if f is None:
            raise Unsupported('unresolved operator', e.get('loc'))
        if f.get('m') and f.get('rec') is not None:
            RT = self.T(f['rec'])
            if RT.get('lambda') and op == '()':
                addr = self.lval(e['a'][0])
                return self.call_closure(addr, RT['rid'], e['a'][1:])
            if RT['k'] == 'rec' and RT['rid'] in self.p.rec and not self.is_eigen(RT) and self.lib.operator(self, e, f, op, probe=True) is None:
                this = restrict(self.lval(e['a'][0]), self.st.pc)
                self.check_base(this)
                fn = self.p.fn.get(f['id'])
                if fn is None and op == '=':
                    src = self.lval(e['a'][1])
                    self.copy_to(this, src, keepdyn=True)
                    return this
                if fn is not None or f.get('virtual'):
                    av = self.arg_values(f, e['a'][1:])
                    return self.invoke(f, this, av, e.get('loc'), virtual=True)
        elif f['id'] in self.p.fn and self.lib.operator(self, e, f, op, probe=True) is None:
            av = self.arg_values(f, e['a'])
            return self.call_function(self.p.fn[f['id']], None, av, e.get('loc'))
        return self.lib.operator(self, e, f, op)

    def e_ctor(self, e):
        T = self.T(e['t'])
        if T['k'] == 'array':
            b = self.newbase()
            self.init_into(e, Ptr(b, ()), T)
            return leaf(Ptr(b, ()))
        if self.is_agg(T) and not self.is_plain(T):
            b = self.newbase()
            self.construct(e, Ptr(b, ()), T)
            return leaf(Ptr(b, ()))
        if e.get('elide') and e['a']:
            return self.rval(e['a'][0])
        return self.lib.construct_value(self, T, e['f'], e['a'], e)

    e_inhctor = e_ctor

    def e_il(self, e):
        T = self.T(e['t'])
        if not self.is_agg(T):
            if not e['a']:
                b = self.newbase()
                self.zero_into(Ptr(b, ()), T)
                return self._cell(Ptr(b, ()))
            return self.rval(e['a'][0])
        b = self.newbase()
        self.init_list(e, Ptr(b, ()), T)
        return leaf(Ptr(b, ()))

    l_il = e_il

    def e_stdil(self, e):
        # initializer_list: address of the backing array, with its length
        a = self.lval(e['e'])
        T = self.T(e['e']['t'])
        b = self.newbase()
        self._set(Ptr(b, ('#',)), num(T.get('n', 0)))
        self._set(Ptr(b, ('#p',)), a)
        return leaf(Ptr(b, ()))

    def e_zero(self, e):
        b = self.newbase()
        T = self.T(e['t'])
        self.zero_into(Ptr(b, ()), T)
        if self.is_agg(T):
            return leaf(Ptr(b, ()))
        return self._cell(Ptr(b, ()))

    def l_mat(self, e):
        T = self.T(e['e']['t'])
        v = self.rval(e['e'])
        return self.materialise(v, T)

    e_mat = l_mat

    def e_lambda(self, e):
        b = self.newbase(local=False)
        self.lambdas[e['rid']] = e['caps']
        for c in e['caps']:
            p = Ptr(b, ('cap', c['fid']))
            if c.get('this'):
                t = self.frames[-1].this
                if c.get('copy'):
                    self.write_snapshot(p, self.snapshot(t))
                else:
                    self._set(p, t)
            elif c.get('ref') or self.T(c['t'])['k'] == 'ref':
                self._set(p, self.lval(c['init']))
            else:
                self.init_into(c['init'], p, self.T(c['t']))
        return leaf(Ptr(b, ()))

    def e_new(self, e):
        b = self.newbase(local=False)
        T = self.T(e['at'])
        if e.get('arr') is not None:
            n = self.cint(self.rval(e['arr']))
            for i in range(n):
                self.default_ctor(Ptr(b, (i,)), T)
            return leaf(Ptr(b, (0,)))
        if e.get('init') is not None:
            self.init_into(e['init'], Ptr(b, ()), T)
        else:
            self.default_ctor(Ptr(b, ()), T)
        return leaf(Ptr(b, ()))

    def e_delete(self, e):
        a = self.rval(e['e'])

        def go(v):
            if isinstance(v, Ptr) and v.base and v.base in self.st.mem:
                del self.st.mem[v.base]
            elif isinstance(v, Ptr) and v.base:
                self.ub(dd.TRUE, 'double delete')
        self.split(a, go)
        return None

    def e_throw(self, e):
        if e.get('e') is None:
            self.throw('?', 'rethrow')
        T = self.p.strip(e['e']['t'])
        self.throw(T.get('n', T['k']), 'throw %s' % T.get('n', T['k']))

    def e_typeid(self, e):
        raise Unsupported('typeid', e.get('loc'))

    def e_unsupported(self, e):
        raise Unsupported('expression %s' % e.get('cls'), e.get('loc'))

    l_unsupported = e_unsupported

    def e_arrcopy(self, e):
        return self.lval(e['e'])

    # -- conversions
    def tobool(self, v):
        if not isinstance(v, (dd.Leaf, dd.Br)):
            raise Unsupported('condition of kind %r' % type(v).__name__, self.cur_loc)

        def f(x):
            if isinstance(x, bool):
                return dd.TRUE if x else dd.FALSE
            if isinstance(x, R):
                return cmp('!=', leaf(x), dd.N0)
            if x is dd.UNDEF_V:
                return dd.UNDEF
            if x is dd.NAN_V:
                return dd.TRUE
            if isinstance(x, Ptr):
                return dd.TRUE if x.base else dd.FALSE
            if isinstance(x, (FnPtr, Clo, Str)):
                return dd.TRUE
            if isinstance(x, Obj) and x.kind == 'global':
                return dd.TRUE
            raise Unsupported('condition on %r' % (x,), self.cur_loc)
        return map1(None, f, v)

    def tonum(self, v):
        return map1('tonum', lambda x: num(1) if x is True else num(0) if x is False else leaf(x), v)

    def wrap(self, v, T):
        """value of integer type T (constants are reduced modulo the width)"""
        bits = T.get('bits', 32)
        signed = T.get('signed', True)
        if bits <= 16 and v.leaf and isinstance(v.v, R) and v.v.c is not None and not -(1 << (bits - signed)) <= v.v.c < 1 << (bits - signed):
            self.wraps += 1

        def f(x):
            if x is True:
                return num(1)
            if x is False:
                return num(0)
            if isinstance(x, R):
                if x.c is not None:
                    c = x.c
                    if c.denominator != 1:
                        c = Fraction(int(c))
                    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
                    if lo <= c <= hi:
                        return num(c) if c != x.c else leaf(x)
                    m = int(c) % (1 << bits)
                    if signed and m > hi:
                        m -= 1 << bits
                    return num(m)
                return leaf(x)
            return leaf(x)
        return map1(('wrap', bits, signed), f, v)

    def trunc(self, v, T):
        def f(x):
            if isinstance(x, R):
                if x.c is not None:
                    return self.wrap(num(Fraction(int(x.c))), T)
                s = P.sym('trunc(%r)' % (x,), 'fn', (('trunc', x),), None)
                return leaf(P.var(s))
            if x is dd.NAN_V:
                return dd.UNDEF
            return leaf(x)
        return map1(None, f, v)

    def e_cast(self, e):
        ck = e['ck']
        s = e['e']
        T = self.T(e['t'])
        if ck == 'LValueToRValue':
            a = self.lval(s)
            if not isinstance(a, (dd.Leaf, dd.Br)):
                return a
            v = self.load(a)
            return v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BitCast', 'ConstructorConversion', 'UserDefinedConversion',
                  'BuiltinFnToFnPtr', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            return self.rval(s)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            return self.rval(s)
        if ck == 'ToVoid':
            self.discard(s)
            return None
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return leaf(NULL)
        if ck == 'ArrayToPointerDecay':
            a = self.lval(s)
            if a.leaf and isinstance(a.v, Str):
                return a
            return self.sub(a, 0)
        if ck == 'IntegralCast':
            v = self.tonum(self.rval(s))
            if T['k'] == 'bool':
                return self.tobool(v)
            return self.wrap(v, T)
        if ck == 'IntegralToFloating':
            return self.tonum(self.rval(s))
        if ck == 'FloatingToIntegral':
            return self.trunc(self.rval(s), T)
        if ck == 'FloatingCast':
            v = self.rval(s)
            ST = self.T(s['t'])
            if T.get('bits', 64) < ST.get('bits', 64):
                def f(x):
                    if isinstance(x, R):
                        if x.c is not None:
                            import struct
                            return num(Fraction(struct.unpack('f', struct.pack('f', float(x.c)))[0]))
                        return leaf(P.var(P.sym('float32(%r)' % (x,), 'fn', (('float32', x),), None)))
                    return leaf(x)
                return map1(None, f, v)
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.tobool(self.rval(s))
        if ck == 'BooleanToSignedIntegral':
            return self.tonum(self.rval(s))
        raise Unsupported('cast %s' % ck, e.get('loc'))

    def l_cast(self, e):
        ck = e['ck']
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast',
                  'ConstructorConversion', 'UserDefinedConversion'):
            return self.lval(e['e'])
        if ck == 'Dynamic':
            return self.lval(e['e'])
        raise Unsupported('lvalue cast %s' % ck, e.get('loc'))

    # -- operators
    def e_un(self, e):
        op = e['op']
        T = self.T(e['t'])
        if op == '!':
            return NOT(self.defined(self.tobool(self.rval(e['e']))))
        if op == '-':
            v = dd.neg(self.tonum(self.rval(e['e'])))
            return self.wrap(v, T) if T['k'] in ('int', 'enum') else v
        if op == '+':
            return self.tonum(self.rval(e['e']))
        if op == '&' and e['e'].get('k') == 'fnref':
            return self.e_fnref(e['e'])
        if op == '&':
            return self.lval(e['e'])
        if op == '*':
            return self.load(self.rval(e['e']))
        if op == '~':
            v = self.rval(e['e'])
            return self.wrap(map1(None, lambda x: num(~int(x.c)), self.tonum(v)), T)
        if op in ('++', '--'):
            a = self.lval(e['e'])
            old = self.load(a)
            new = self.incr(old, T, 1 if op == '++' else -1)
            self.store(a, new)
            return old if e.get('post') else new
        raise Unsupported('unary %s' % op, e.get('loc'))

    def incr(self, old, T, d):
        if T['k'] == 'ptr':
            return self.ptr_add(old, num(d))
        if T['k'] == 'bool':
            return dd.TRUE
        v = dd.add(self.tonum(old), num(d))
        return self.wrap(v, T) if T['k'] in ('int', 'enum') else v

    def l_un(self, e):
        op = e['op']
        if op == '*':
            return self.rval(e['e'])
        if op in ('++', '--'):
            a = self.lval(e['e'])
            T = self.T(e['t'])
            self.store(a, self.incr(self.load(a), T, 1 if op == '++' else -1))
            return a
        if op in ('__real', '__extension__'):
            return self.lval(e['e'])
        raise Unsupported('lvalue unary %s' % op, e.get('loc'))

    def arith(self, op, l, r, T):
        """l, r scalar nodes; T result type"""
        isint = T['k'] in ('int', 'enum', 'bool')
        if op in ('+', '-', '*', '/'):
            l, r = self.tonum(l), self.tonum(r)
        if op == '+':
            v = dd.add(l, r)
        elif op == '-':
            v = dd.sub(l, r)
        elif op == '*':
            v = dd.mul(l, r)
        elif op == '/':
            if not isint:
                return dd.div(l, r)
            z = self.defined(cmp('==', r, dd.N0))
            self.ub(z, 'integer division by zero')
            l, r = restrict(l, self.st.pc), restrict(r, self.st.pc)

            def f(a, b):
                if not isinstance(a, R) or not isinstance(b, R):
                    return dd.UNDEF
                if a.c is None or b.c is None:
                    q = P.rdiv(a, b)
                    return leaf(P.var(P.sym('idiv(%r)' % (q,), 'fn', (('trunc', q),), None)))
                q = abs(int(a.c)) // abs(int(b.c))
                return num(q if (a.c >= 0) == (b.c >= 0) else -q)
            v = map2(None, f, l, r)
        elif op == '%':
            l, r = self.tonum(l), self.tonum(r)
            z = self.defined(cmp('==', r, dd.N0))
            self.ub(z, 'integer division by zero')

            def f(a, b):
                if not isinstance(a, R) or not isinstance(b, R):
                    return dd.UNDEF
                if a.c is None or b.c is None:
                    return leaf(P.var(P.sym('mod(%r,%r)' % (a, b), 'fn', (('mod', a, b),), None)))
                m = abs(int(a.c)) % abs(int(b.c))
                return num(m if a.c >= 0 else -m)
            v = map2(None, f, restrict(l, self.st.pc), restrict(r, self.st.pc))
        elif op in ('&', '|', '^', '<<', '>>'):
            l, r = self.tonum(l), self.tonum(r)

            def f(a, b):
                if not isinstance(a, R) or not isinstance(b, R):
                    return dd.UNDEF
                if a.c is None or b.c is None:
                    raise Unsupported('bit operation on unknowns', self.cur_loc)
                x, y = int(a.c), int(b.c)
                return num({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if 0 <= y < 128 else 0, '>>': x >> y if 0 <= y < 128 else 0}[op])
            v = map2(None, f, l, r)
        else:
            raise Unsupported('operator %s' % op, self.cur_loc)
        return self.wrap(v, T) if T['k'] in ('int', 'enum') else v

    def e_bin(self, e):
        op = e['op']
        if op == ',':
            self.discard(e['l'])
            return self.rval(e['r'])
        if op == '&&':
            l = self.defined(restrict(self.tobool(self.rval(e['l'])), self.st.pc))
            return self.branch(l, lambda: self.defined(self.tobool(self.rval(e['r']))), lambda: dd.FALSE)
        if op == '||':
            l = self.defined(restrict(self.tobool(self.rval(e['l'])), self.st.pc))
            return self.branch(l, lambda: dd.TRUE, lambda: self.defined(self.tobool(self.rval(e['r']))))
        LT, RT = self.T(e['l']['t']), self.T(e['r']['t'])
        if op == '=':
            a = self.lval(e['l'])
            v = self.rval(e['r'])
            self.store(a, v)
            return v
        l = self.rval(e['l'])
        r = self.rval(e['r'])
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return self.compare(op, l, r)
        if LT['k'] == 'ptr' or RT['k'] == 'ptr':
            if LT['k'] == 'ptr' and RT['k'] == 'ptr':
                return self.ptr_diff(l, r)
            if LT['k'] == 'ptr':
                return self.ptr_add(l, r, neg=(op == '-'))
            return self.ptr_add(r, l)
        return self.arith(op, l, r, self.T(e['t']))

    def ptr_diff(self, l, r):
        def f(a, b):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a == b:
                    return dd.N0
                if a.base == b.base and a.path[:-1] == b.path[:-1]:
                    x, y = a.path[-1], b.path[-1]
                    if isinstance(x, int) and isinstance(y, int):
                        return num(x - y)
            if isinstance(a, RevIt) and isinstance(b, RevIt) and isinstance(a.it, Ptr):
                return f(b.it, a.it)
            if a is dd.UNDEF_V or b is dd.UNDEF_V:
                return dd.UNDEF
            raise Unsupported('difference of unrelated pointers', self.cur_loc)
        return map2(None, f, restrict(l, self.st.pc), restrict(r, self.st.pc))

    def compare(self, op, l, r):
        l, r = restrict(l, self.st.pc), restrict(r, self.st.pc)

        def isnum(n):
            return all(isinstance(v, (R, bool)) or v in (dd.UNDEF_V, dd.NAN_V) for v in dd.leaves(n))
        if isnum(l) and isnum(r):
            l, r = self.tonum(l), self.tonum(r)
            return cmp(op, l, r)
        if any(isinstance(v, AC) for n in (l, r) for v in dd.leaves(n)):
            def ac(a, b):
                if isinstance(b, AC):
                    a, b = b, a
                if op in ('==', '!=') and isinstance(b, R) and b.c is not None and chr(int(b.c) & 255) not in '0123456789+-.eEinfa':
                    return dd.FALSE if op == '==' else dd.TRUE
                if isinstance(a, R) and isinstance(b, R):
                    return cmp(op, leaf(a), leaf(b))
                raise Unsupported('comparison of a digit', self.cur_loc)
            return map2(None, ac, l, r)
        if op in ('==', '!='):
            return map2(None, lambda a, b: dd.UNDEF if dd.UNDEF_V in (a, b) else
                        (dd.TRUE if (a == b) == (op == '==') else dd.FALSE), l, r)
        return cmp(op, self.ptr_diff(l, r), dd.N0)

    def l_bin(self, e):
        op = e['op']
        if op == ',':
            self.discard(e['l'])
            return self.lval(e['r'])
        if op == '=':
            v = self.rval(e['r'])
            a = self.lval(e['l'])
            self.store(a, v)
            return a
        raise Unsupported('lvalue operator %s' % op, e.get('loc'))

    def l_cas(self, e):
        a = self.lval(e['l'])
        r = self.rval(e['r'])
        op = e['op'][:-1]
        LT = self.T(e['l']['t'])
        old = self.load(a)
        if LT['k'] == 'ptr':
            new = self.ptr_add(old, r, neg=(op == '-'))
        else:
            CT = self.T(e['ct'])
            new = self.arith(op, old, r, CT)
            if LT['k'] == 'bool':
                new = self.tobool(new)
            elif LT['k'] in ('int', 'enum'):
                if CT['k'] == 'float':
                    new = self.trunc(new, LT)
                new = self.wrap(new, LT)
        self.store(a, new)
        return a

    def e_cas(self, e):
        return self.load(self.l_cas(e))

    def e_cond(self, e):
        c = self.defined(restrict(self.tobool(self.rval(e['c'])), self.st.pc))
        T = self.T(e['t'])
        if T['k'] == 'void':
            self.branch(c, lambda: self.discard(e['l']), lambda: self.discard(e['r']))
            return None
        return self.branch(c, lambda: self.rval(e['l']), lambda: self.rval(e['r']))

    def l_cond(self, e):
        c = self.defined(restrict(self.tobool(self.rval(e['c'])), self.st.pc))

        def side(x):
            if x['k'] == 'throw':
                return self.rval(x)
            return self.lval(x)
        return self.branch(c, lambda: side(e['l']), lambda: side(e['r']))

    # ------------------------------------------------------------ entry
    def run(self, fid, args):
        f = self.p.fn[fid]
        self.init_globals()
        try:
            self.call_function(f, None, args)
        except Dead:
            pass


def q_op(f):
    return f['q'].split('::')[-1]
