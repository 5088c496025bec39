"""Abstract semantics of the library operations the repository uses (std, boost, Eigen, vp_*)."""
from fractions import Fraction
import math
import dd
import poly as P
from poly import R
from dd import leaf, num, ite, AND, OR, NOT, restrict, map1, map2, guards, prune, cmp
from interp import (Ptr, MapIt, RevIt, FnPtr, Str, Clo, NULL, Dead, Unsupported, MatVal, MatRef, Obj,
                    EIGEN_PLAIN, STREAMS, Handler)
import eigen

GLOBALS = {}
MAPS = ('std::map', 'std::unordered_map', 'boost::unordered::unordered_map', 'boost::unordered_map', 'std::set',
        'std::unordered_set')
UNORDERED = ('std::unordered_map', 'boost::unordered::unordered_map', 'boost::unordered_map', 'std::unordered_set')
SETS = ('std::set', 'std::unordered_set')
VECS = ('std::vector', 'std::deque')

mat = eigen.mat
store_matrix = eigen.store_matrix

FN = {}
METH = {}


def fn(*names):
    def d(f):
        for n in names:
            FN[n] = f
        return f
    return d


def meth(cls, *names):
    def d(f):
        for c in (cls if isinstance(cls, tuple) else (cls,)):
            for n in names:
                METH[(c, n)] = f
        return f
    return d


def function(f):
    q = f['q']
    h = FN.get(q)
    if h is not None:
        return h
    if q.startswith('Eigen::'):
        if not f.get('m') or f.get('static'):
            return eigen.static_call
    return None


def method(f, RT):
    q = f['q']
    cls, _, name = q.rpartition('::')
    if q.startswith('Eigen::'):
        return eigen.method_call
    if cls.startswith('std::_Vector_base') or cls == 'std::__cxx11::basic_string':
        cls = cls
    cls = {'std::__cxx11::basic_string': 'std::basic_string'}.get(cls, cls)
    if cls.startswith('__gnu_cxx::__normal_iterator'):
        cls = 'iter'
    elif name == 'operator->' or name == 'operator*':
        if cls in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr'):
            cls = 'ptr'
        elif 'iterator' in cls.lower():
            cls = 'iter'
    h = METH.get((cls, name))
    if h is None and cls in STREAMS:
        h = METH.get(('stream', name))
    if h is None and (cls.startswith('std::basic_') or cls in ('std::ios_base', 'std::__cxx11::ios_base')):
        h = METH.get(('stream', name))
    if h is None and cls in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr'):
        h = METH.get(('ptr', name))
    if h is None and (cls.startswith('google::') or cls in LOCKS):
        h = METH.get(('noop', '*'))
    return h


ATOMICS = ('std::atomic', 'std::__atomic_base', 'boost::atomic', 'boost::atomics::atomic', 'boost::atomics::detail::base_atomic')
LOCKS = ('std::mutex', 'boost::mutex', 'std::lock_guard', 'boost::lock_guard', 'std::unique_lock', 'boost::unique_lock',
         'std::recursive_mutex', 'boost::recursive_mutex', 'std::shared_mutex', 'boost::shared_mutex', 'std::scoped_lock',
         'boost::mutex::scoped_lock', 'boost::shared_lock', 'std::shared_lock')


# ---------------------------------------------------------------- helpers
def objaddr(I, e):
    a = I.rval(e['b']) if e.get('arrow') else I.lval(e['b'])
    a = restrict(a, I.st.pc)
    I.check_base(a)
    return restrict(a, I.st.pc)


def on_obj(I, e, f):
    """f(Ptr) for every possible object address"""
    return I.split(objaddr(I, e), f)


def etype(I, T, i=0):
    return I.T(T['a'][i]['t'])


def rect(I, f):
    return I.T(f['rec'])


def array_info(I, T):
    return int(T['a'][1]['i']), T['a'][0]['t']


def put(I, p, T, expr):
    """construct an object of type T at p from argument expression expr"""
    I.erase(p)
    I.init_into(expr, p, T)


def put_value(I, p, T, v):
    """store a value obtained from rval()/load into a fresh object of type T"""
    I.erase(p)
    if isinstance(v, (MatVal, MatRef)):
        if I.is_plain(T):
            store_matrix(I, p, v, T)
        else:
            I._set(p, leaf(v))
    elif I.is_agg(T):
        copy_construct(I, p, T, v)
    else:
        I._set(p, conv(I, v, T))


def conv(I, v, T):
    if T['k'] == 'bool':
        return I.tobool(v)
    if T['k'] in ('int', 'enum'):
        return I.wrap(I.tonum(v), T)
    if T['k'] == 'float':
        return I.tonum(v)
    return v


def copy_construct(I, p, T, src):
    """copy the aggregate at address node src into p (user copy constructors are run)"""
    c = user_copy(I, T)
    if c is not None:
        I.set_dyn(p, T['rid'])
        I.run_ctor(c, [src], p)
        return
    if T['k'] == 'rec' and T['n'] in VECS and T['a'] and needs_user_copy(I, etype(I, T)):
        ET = etype(I, T)
        snap = I.snapshot(src)
        I.write_snapshot(p, snap)

        def go(n):
            for i in range(I.as_int(n, 'size')):
                I.erase(Ptr(p.base, p.path + (i,)))
                copy_construct(I, Ptr(p.base, p.path + (i,)), ET, I.sub(src, i))
        I.split(I.load(leaf(Ptr(p.base, p.path + ('#',)))), go)
        return
    I.write_snapshot(p, I.snapshot(src))


def user_copy(I, T):
    if T['k'] == 'rec' and T['rid'] in I.p.rec and not I.is_eigen(T) and not T.get('lambda'):
        for f in I.p.fn.values():
            if f.get('ctor') and len(f['params']) == 1 and I.T(f['rec'])['rid'] == T['rid']:
                PT = I.T(f['params'][0]['t'])
                if PT['k'] == 'ref' and not PT.get('rv'):
                    E = I.T(PT['e'])
                    if E.get('rid') == T['rid']:
                        return f
    return None


def needs_user_copy(I, T):
    if T['k'] != 'rec':
        return False
    return user_copy(I, T) is not None


def construct_args(I, T, p, args):
    """object of type T at p from a list of argument expressions (as emplace does)"""
    if len(args) == 1:
        AT = I.p.strip(args[0]['t'])
        if I.is_agg(T):
            if AT.get('rid') == T.get('rid') and T['k'] == 'rec':
                v = I.rval(args[0])
                return put_value(I, p, T, v)
        else:
            return put_value(I, p, T, I.rval(args[0]))
    if not args:
        I.erase(p)
        if T['k'] in ('int', 'float', 'bool', 'ptr', 'enum'):
            return I.zero_into(p, T)
        return I.default_ctor(p, T)
    if T['k'] == 'rec' and T['rid'] in I.p.rec and not I.is_eigen(T):
        best = None
        for f in I.p.fn.values():
            if not f.get('ctor') or I.T(f['rec'])['rid'] != T['rid'] or len(f['params']) != len(args):
                continue
            sc = 0
            for prm, a in zip(f['params'], args):
                PT, AT = I.p.strip(prm['t']), I.p.strip(a['t'])
                if PT['k'] == 'rec' or AT['k'] == 'rec':
                    if PT.get('rid') == AT.get('rid') and PT['k'] == AT['k']:
                        sc += 3
                    else:
                        sc -= 100
                elif PT['k'] == AT['k']:
                    sc += 2
            if sc >= 0 and (best is None or sc > best[0]):
                best = (sc, f)
        if best is not None:
            f = best[1]
            av = [I.arg_value(a, I.T(prm['t'])) for prm, a in zip(f['params'], args)]
            I.erase(p)
            I.set_dyn(p, T['rid'])
            return I.run_ctor(f, av, p)
        raise Unsupported('no constructor of %s for emplace' % T['s'], I.cur_loc)
    if T['k'] == 'rec' and T['n'] == 'std::pair':
        if len(args) == 2:
            I.erase(p)
            construct_args(I, etype(I, T, 0), Ptr(p.base, p.path + ('first',)), args[:1])
            construct_args(I, etype(I, T, 1), Ptr(p.base, p.path + ('second',)), args[1:])
            return
        if len(args) == 1:
            I.erase(p)
            src = I.lval(args[0])
            return I.write_snapshot(p, I.snapshot(src))
    if I.is_plain(T):
        I.erase(p)
        v = eigen.construct(I, T, args)
        return store_matrix(I, p, v, T)
    if T['k'] == 'rec' and T['n'] in VECS:
        I.erase(p)
        return vec_construct(I, T, args, p)
    if T['k'] == 'rec' and len(args) == 1:
        I.erase(p)
        return I.write_snapshot(p, I.snapshot(I.lval(args[0])))
    raise Unsupported('construction of %s' % T['s'], I.cur_loc)


def default_construct(I, T, p, zero):
    n = T['n']
    if n in VECS or n in MAPS or n == 'std::initializer_list':
        if n in MAPS:
            I._set(Ptr(p.base, p.path + ('#m',)), dd.N0)
        else:
            I._set(Ptr(p.base, p.path + ('#',)), dd.N0)
    elif n == 'std::pair':
        I.zero_into(Ptr(p.base, p.path + ('first',)), etype(I, T, 0))
        I.zero_into(Ptr(p.base, p.path + ('second',)), etype(I, T, 1))
    elif n == 'std::array':
        k, et = array_info(I, T)
        for i in range(k):
            q = Ptr(p.base, p.path + (i,))
            if zero:
                I.zero_into(q, I.T(et))
            else:
                I.default_ctor(q, I.T(et))
    elif n == 'std::tuple':
        for i, a in enumerate(T['a'][0]['p']):
            I.zero_into(Ptr(p.base, p.path + (i,)), I.T(a['t']))
    elif n in EIGEN_PLAIN:
        store_matrix(I, p, eigen.undef(I, T), T)
    elif n in STREAMS:
        stream_init(I, p, n)
    elif n == 'std::basic_string':
        I._set(p, leaf(Str(())))
    elif n in ('std::unique_ptr', 'std::shared_ptr'):
        I._set(p, leaf(NULL))
    elif n in ATOMICS:
        I._set(p, dd.N0)
    elif n == 'std::function':
        I._set(p, leaf(NULL))
    else:
        I._set(p, dd.UNDEF if not zero else leaf(Obj('lib', n=n)))


# ---------------------------------------------------------------- vectors
def vsize(I, p):
    return I.load(leaf(Ptr(p.base, p.path + ('#',))))


def set_vsize(I, p, n):
    I._set(Ptr(p.base, p.path + ('#',)), n if not isinstance(n, int) else num(n))


def with_vec(I, e, g):
    """g(Ptr, int size)"""
    return on_obj(I, e, lambda p: I.split(vsize(I, p), lambda n: g(p, I.as_int(n, 'container size'))))


def elem(p, i):
    return Ptr(p.base, p.path + (i,))


def vec_construct(I, T, args, p, e=None):
    ET = etype(I, T)
    # drop allocator
    args = [a for a in args if not I.p.strip(a['t']).get('n', '').startswith('std::allocator')]
    if not args:
        set_vsize(I, p, 0)
        return
    AT = I.p.strip(args[0]['t'])
    if len(args) == 1 and AT.get('n') in VECS:
        src = I.lval(args[0])
        copy_construct(I, p, T, src)
        rt = I.T(args[0]['t'])
        if args[0]['vc'] == 'x' and not I.T(args[0]['t']).get('const'):
            moved_from(I, src, leaf(p), T)
        return
    if AT.get('n') == 'std::initializer_list':
        src = I.rval(args[0])

        def go(v):
            n = I.cint(I._cell(Ptr(v.base, v.path + ('#',))))
            a = I._cell(Ptr(v.base, v.path + ('#p',)))
            set_vsize(I, p, n)
            for i in range(n):
                q = I.sub(a, i)
                put_value(I, elem(p, i), ET, q if I.is_agg(ET) else I.load(q))
        return I.split(src, go)
    if AT['k'] in ('int', 'enum', 'bool'):
        n = I.rval(args[0])
        val = I.rval(args[1]) if len(args) > 1 else None

        def go(v):
            k = I.as_int(v, 'size')
            if k > 1000000 or k < 0:
                I.throw('std::length_error', 'vector of %d elements' % k)
            set_vsize(I, p, k)
            for i in range(k):
                if val is None:
                    vinit(I, elem(p, i), ET)
                else:
                    put_value(I, elem(p, i), ET, val)
        return I.split(n, go)
    if len(args) == 2:
        set_vsize(I, p, 0)
        return append_range(I, p, ET, I.rval(args[0]), I.rval(args[1]))
    raise Unsupported('vector constructor', I.cur_loc)


def vinit(I, p, ET):
    I.erase(p)
    if ET['k'] in ('int', 'float', 'bool', 'ptr', 'enum'):
        I.zero_into(p, ET)
    else:
        I.default_ctor(p, ET)


def clear_vec(I, p):
    I.erase(p)
    set_vsize(I, p, 0)


def iter_range(I, a, b, f):
    """calls f(address node) for every element in [a, b)"""
    cur = [a]
    tmp = Ptr(I.newbase(), ())
    I._set(tmp, a)
    endp = Ptr(I.newbase(), ())
    I._set(endp, b)

    def cond():
        return I.compare('!=', I.load(leaf(tmp)), I.load(leaf(endp)))

    def body():
        f(deref(I, I.load(leaf(tmp))))

    def inc():
        I._set(tmp, step(I, I.load(leaf(tmp)), 1))
    I.loop(cond, body, inc)


def append_range(I, p, ET, a, b):
    def add(addr):
        v = addr if I.is_agg(ET) else I.load(addr)
        push(I, p, ET, v)
    iter_range(I, a, b, add)


def append_chars(I, a, b):
    """text of the characters in [a, b)"""
    import streams
    acc = Ptr(I.newbase(), ())
    I._set(acc, leaf(Str(())))

    def add(addr):
        I._set(acc, streams.concat(I.load(leaf(acc)), streams.render(I, I.load(addr), {'k': 'int', 'bits': 8}, 6)))
    iter_range(I, a, b, add)
    return I.load(leaf(acc))


def push(I, p, ET, v):
    def go(n):
        n = I.as_int(n, 'size')
        put_value(I, elem(p, n), ET, v)
        set_vsize(I, p, n + 1)
    I.split(vsize(I, p), go)


@meth(VECS, 'push_back', 'emplace_back')
def _push(I, e, f, x):
    T = rect(I, f)
    ET = etype(I, T)

    def go(p, n):
        construct_args(I, ET, elem(p, n), e['a'])
        set_vsize(I, p, n + 1)
        return leaf(elem(p, n))
    # evaluate self-referencing arguments before growing is what construct_args does (element n is fresh)
    return with_vec(I, e, go)


@meth(VECS, 'size')
def _size(I, e, f, x):
    return on_obj(I, e, lambda p: vsize(I, p))


@meth(VECS, 'capacity', 'max_size')
def _cap(I, e, f, x):
    return on_obj(I, e, lambda p: vsize(I, p))


@meth(VECS, 'empty')
def _empty(I, e, f, x):
    return on_obj(I, e, lambda p: cmp('==', vsize(I, p), dd.N0))


@meth(VECS, 'reserve', 'shrink_to_fit')
def _reserve(I, e, f, x):
    for a in e['a']:
        v = I.rval(a)
        for w, g in guards(restrict(v, I.st.pc), I.st.pc):
            if isinstance(w, R) and w.c is not None and (w.c > 1 << 40):
                I.split(v, lambda y: I.throw('std::length_error', 'reserve of an excessive size') if isinstance(y, R) and y.c is not None and y.c > 1 << 40 else None)
    objaddr(I, e)
    return None


@meth(VECS, 'clear')
def _clear(I, e, f, x):
    return on_obj(I, e, lambda p: clear_vec(I, p))


@meth(VECS, 'pop_back')
def _pop(I, e, f, x):
    def go(p, n):
        if n == 0:
            I.ub(dd.TRUE, 'pop_back() on an empty vector')
        I.erase(elem(p, n - 1))
        set_vsize(I, p, n - 1)
    return with_vec(I, e, go)


@meth(VECS, 'resize')
def _resize(I, e, f, x):
    ET = etype(I, rect(I, f))

    def go(p, n):
        k = I.rval(e['a'][0])
        val = I.rval(e['a'][1]) if len(e['a']) > 1 else None

        def g(kv):
            m = I.as_int(kv, 'size')
            if m > 1000000:
                I.throw('std::length_error', 'resize')
            for i in range(m, n):
                I.erase(elem(p, i))
            for i in range(n, m):
                if val is None:
                    vinit(I, elem(p, i), ET)
                else:
                    put_value(I, elem(p, i), ET, val)
            set_vsize(I, p, m)
        return I.split(k, g)
    return with_vec(I, e, go)


@meth(VECS, 'assign')
def _assign(I, e, f, x):
    T = rect(I, f)

    def go(p):
        b = I.newbase()
        vec_construct(I, T, e['a'], Ptr(b, ()))
        I.write_snapshot(p, I.snapshot(leaf(Ptr(b, ()))))
    return on_obj(I, e, go)


def index_check(I, p, size, i, throwing, what):
    """addresses of element i (node) of the container at p with size node; out of range is UB/throw"""
    i = restrict(I.tonum(i), I.st.pc)
    bad = I.defined(OR(cmp('>=', i, size), cmp('<', i, dd.N0)))
    bad = restrict(bad, I.st.pc)
    if bad is not dd.FALSE:
        if throwing:
            I.branch(bad, lambda: I.throw('std::out_of_range', what + ' out of range'), lambda: None)
        else:
            I.ub(bad, what + ' out of range')
    i = restrict(i, I.st.pc)

    def f(v):
        if isinstance(v, R) and v.c is not None:
            return leaf(elem(p, int(v.c)))
        raise Unsupported('symbolic index', I.cur_loc)
    return map1(None, f, i)


@meth(VECS, 'at')
def _at(I, e, f, x):
    i = None

    def go(p):
        i = I.rval(e['a'][0])
        return index_check(I, p, vsize(I, p), i, True, 'vector::at')
    return on_obj(I, e, go)


@meth(VECS, 'front')
def _front(I, e, f, x):
    def go(p):
        I.ub(cmp('==', vsize(I, p), dd.N0), 'front() of an empty vector')
        return leaf(elem(p, 0))
    return on_obj(I, e, go)


@meth(VECS, 'back')
def _back(I, e, f, x):
    def go(p, n):
        if n == 0:
            I.ub(dd.TRUE, 'back() of an empty vector')
        return leaf(elem(p, n - 1))
    return with_vec(I, e, go)


@meth(VECS, 'begin', 'cbegin', 'data')
def _begin(I, e, f, x):
    return map1(None, lambda v: leaf(elem(v, 0)), objaddr(I, e))


@meth(VECS, 'end', 'cend')
def _end(I, e, f, x):
    return on_obj(I, e, lambda p: map1(None, lambda n: leaf(elem(p, I.as_int(n, 'size'))), vsize(I, p)))


@meth(VECS, 'rbegin', 'crbegin')
def _rbegin(I, e, f, x):
    return on_obj(I, e, lambda p: map1(None, lambda n: leaf(RevIt(elem(p, I.as_int(n, 'size') - 1))), vsize(I, p)))


@meth(VECS, 'rend', 'crend')
def _rend(I, e, f, x):
    return map1(None, lambda v: leaf(RevIt(elem(v, -1))), objaddr(I, e))


@meth(VECS, 'insert', 'emplace')
def _vinsert(I, e, f, x):
    T = rect(I, f)
    ET = etype(I, T)

    def go(p, n):
        pos = I.rval(e['a'][0])

        def at(v):
            if not isinstance(v, Ptr):
                raise Unsupported('insert position', I.cur_loc)
            k = v.path[-1]
            b = Ptr(I.newbase(), ())
            set_vsize(I, b, 0)
            rest = e['a'][1:]
            if f['q'].endswith('::emplace'):
                construct_args(I, ET, elem(b, 0), rest)
                set_vsize(I, b, 1)
            elif len(rest) == 1 and I.p.strip(rest[0]['t']).get('n') == 'std::initializer_list':
                vec_construct(I, T, rest, b)
            elif len(rest) == 2 and I.p.strip(rest[0]['t'])['k'] != 'int':
                append_range(I, b, ET, I.rval(rest[0]), I.rval(rest[1]))
            elif len(rest) == 1:
                construct_args(I, ET, elem(b, 0), rest)
                set_vsize(I, b, 1)
            elif len(rest) == 2:
                cnt = I.cint(I.rval(rest[0]))
                val = I.rval(rest[1])
                for i in range(cnt):
                    put_value(I, elem(b, i), ET, val)
                set_vsize(I, b, cnt)
            else:
                raise Unsupported('vector::insert', I.cur_loc)

            def ins(m):
                m = I.as_int(m)
                for i in range(n - 1, k - 1, -1):
                    I.write_snapshot(elem(p, i + m), I.snapshot(leaf(elem(p, i))))
                for i in range(m):
                    I.write_snapshot(elem(p, k + i), I.snapshot(leaf(elem(b, i))))
                set_vsize(I, p, n + m)
                return leaf(elem(p, k))
            return I.split(vsize(I, b), ins)
        return I.split(pos, at)
    return with_vec(I, e, go)


@meth(VECS, 'erase')
def _verase(I, e, f, x):
    def go(p, n):
        a = I.rval(e['a'][0])
        b = I.rval(e['a'][1]) if len(e['a']) > 1 else None

        def at(vs):
            i = vs[0].path[-1]
            j = vs[1].path[-1] if len(vs) > 1 else i + 1
            if i > n or j > n or i > j:
                I.ub(dd.TRUE, 'vector::erase out of range')
            for k in range(j, n):
                I.write_snapshot(elem(p, k - (j - i)), I.snapshot(leaf(elem(p, k))))
            for k in range(n - (j - i), n):
                I.erase(elem(p, k))
            set_vsize(I, p, n - (j - i))
            return leaf(elem(p, i))
        return I.split_many([a] + ([b] if b is not None else []), at)
    return with_vec(I, e, go)


@meth(VECS + MAPS + ('std::array', 'std::pair'), 'swap')
def _vswap(I, e, f, x):
    a = objaddr(I, e)
    b = I.lval(e['a'][0])
    swap_objs(I, a, b)


def swap_objs(I, a, b):
    sa, sb = I.snapshot(a), I.snapshot(b)
    I.write_to(a, sb)
    I.write_to(b, sa)
    a, b = restrict(a, I.st.pc), restrict(b, I.st.pc)
    if a.leaf and b.leaf and isinstance(a.v, Ptr) and isinstance(b.v, Ptr) and a.v != b.v:
        relocate(I, [(a.v, b.v), (b.v, a.v)])


def relocate(I, pairs):
    """the elements of the containers at the first addresses now live in those at the second: references and
    iterators to them follow (they stay valid when containers are swapped or moved from)"""
    def one(v):
        if isinstance(v, RevIt):
            w = one(v.it)
            return v if w is v.it else RevIt(w)
        if not isinstance(v, (Ptr, MapIt)):
            return v
        for s, d in pairs:
            n = len(s.path)
            if v.base != s.base or v.path[:n] != s.path:
                continue
            rest = v.path[n:]
            if isinstance(v, MapIt):
                if v.idx is not None:
                    return MapIt(d.base, d.path + rest, v.idx)
            elif rest and ('n' in rest or isinstance(rest[0], int)):
                return Ptr(d.base, d.path + rest)
        return v
    bases = {s.base for s, d in pairs}
    for b in list(I.st.mem):
        m = I.st.mem[b]
        ch = {}
        for k, c in m.items():
            if not any(isinstance(v, (Ptr, MapIt, RevIt)) and (v.it if isinstance(v, RevIt) else v).base in bases for v in dd.leaves(c)):
                continue
            n = map1(None, lambda v: leaf(one(v)), c)
            if n is not c:
                ch[k] = n
        if ch:
            I.st.w(b).update(ch)


def moved_from(I, src, dst, T):
    """after a move construction or assignment of a container: the elements have moved"""
    src, dst = restrict(src, I.st.pc), restrict(dst, I.st.pc)
    if src.leaf and dst.leaf and isinstance(src.v, Ptr) and isinstance(dst.v, Ptr):
        if src.v == dst.v:
            return
        relocate(I, [(src.v, dst.v)])

    def clr(v):
        if isinstance(v, Ptr) and v.base and not (dst.leaf and v == dst.v):
            if T['n'] in VECS:
                clear_vec(I, v)
            else:
                for i in mnodes(I, v):
                    I._set(Ptr(v.base, v.path + ('n', i, 'alive')), dd.FALSE)
    I.split(src, clr)


# std::initializer_list: '#' elements in the array at '#p'
def il_parts(I, v):
    return I.cint(I._cell(Ptr(v.base, v.path + ('#',)))), I._cell(Ptr(v.base, v.path + ('#p',)))


@meth('std::initializer_list', 'size')
def _ilsize(I, e, f, x):
    return on_obj(I, e, lambda p: num(il_parts(I, p)[0]))


@meth('std::initializer_list', 'begin')
def _ilbegin(I, e, f, x):
    return on_obj(I, e, lambda p: I.sub(il_parts(I, p)[1], 0))


@meth('std::initializer_list', 'end')
def _ilend(I, e, f, x):
    def go(p):
        n, a = il_parts(I, p)
        return I.sub(a, n)
    return on_obj(I, e, go)


# std::array
@meth('std::array', 'size', 'max_size')
def _asize(I, e, f, x):
    return num(array_info(I, rect(I, f))[0])


@meth('std::array', 'empty')
def _aempty(I, e, f, x):
    return dd.TRUE if array_info(I, rect(I, f))[0] == 0 else dd.FALSE


@meth('std::array', 'begin', 'cbegin', 'data')
def _abegin(I, e, f, x):
    return map1(None, lambda v: leaf(elem(v, 0)), objaddr(I, e))


@meth('std::array', 'end', 'cend')
def _aend(I, e, f, x):
    n = array_info(I, rect(I, f))[0]
    return map1(None, lambda v: leaf(elem(v, n)), objaddr(I, e))


@meth('std::array', 'rbegin', 'crbegin')
def _arbegin(I, e, f, x):
    n = array_info(I, rect(I, f))[0]
    return map1(None, lambda v: leaf(RevIt(elem(v, n - 1))), objaddr(I, e))


@meth('std::array', 'rend', 'crend')
def _arend(I, e, f, x):
    return map1(None, lambda v: leaf(RevIt(elem(v, -1))), objaddr(I, e))


@meth('std::array', 'front')
def _afront(I, e, f, x):
    return map1(None, lambda v: leaf(elem(v, 0)), objaddr(I, e))


@meth('std::array', 'back')
def _aback(I, e, f, x):
    n = array_info(I, rect(I, f))[0]
    return map1(None, lambda v: leaf(elem(v, n - 1)), objaddr(I, e))


@meth('std::array', 'at')
def _aat(I, e, f, x):
    n = array_info(I, rect(I, f))[0]
    return on_obj(I, e, lambda p: index_check(I, p, num(n), I.rval(e['a'][0]), True, 'array::at'))


@meth('std::array', 'fill')
def _afill(I, e, f, x):
    n, et = array_info(I, rect(I, f))
    v = I.rval(e['a'][0])

    def go(p):
        for i in range(n):
            put_value(I, elem(p, i), I.T(et), v)
    return on_obj(I, e, go)


# ---------------------------------------------------------------- maps
def mnodes(I, p):
    m = I.st.mem.get(p.base, {})
    n = len(p.path)
    out = set()
    for k in m:
        if len(k) == n + 3 and k[n] == 'n' and k[n + 2] == 'alive' and k[:n] == p.path:
            out.add(k[n + 1])
    return sorted(out)


def alive(I, p, i):
    return restrict(I._cell(Ptr(p.base, p.path + ('n', i, 'alive'))), I.st.pc)


def keyof(I, p, i):
    return restrict(I._cell(Ptr(p.base, p.path + ('n', i, 'first'))), I.st.pc)


def live(I, p):
    """[(idx, alive guard, key)] of nodes that may be alive"""
    m = I.st.mem.get(p.base, {})
    n = len(p.path)
    path = p.path
    pc = I.st.pc
    out = []
    for k, a in m.items():
        if len(k) == n + 3 and k[n + 2] == 'alive' and k[n] == 'n' and k[:n] == path:
            a = restrict(a, pc) if not a.leaf else a
            if a is not dd.FALSE:
                i = k[n + 1]
                f = m.get(path + ('n', i, 'first'))
                out.append((i, a, (f if f.leaf else restrict(f, pc)) if f is not None else keyof(I, p, i)))
    out.sort(key=lambda x: x[0])
    return out


def mend(p):
    return leaf(MapIt(p.base, p.path, None))


def number(k):
    """the rational a cell certainly holds, or None"""
    return k.v.c if k.leaf and isinstance(k.v, dd.R) else None


def extreme(I, p, cands, largest=False):
    """iterator to the smallest (largest) of (idx, guard, key); end if none"""
    if all(g is dd.TRUE for _, g, _ in cands):
        ks = [number(k) for _, _, k in cands]
        if ks and all(k is not None for k in ks):
            j = ks.index(max(ks) if largest else min(ks))
            return leaf(MapIt(p.base, p.path, cands[j][0]))
    best, bkey, has = mend(p), dd.N0, dd.FALSE
    op = '>' if largest else '<'
    for i, g, k in cands:
        c = AND(g, OR(NOT(has), cmp(op, k, bkey)))
        c = prune_under(I, c)
        best = ite(c, leaf(MapIt(p.base, p.path, i)), best)
        bkey = ite(c, k, bkey)
        has = OR(has, g)
    return restrict(best, I.st.pc)


def prune_under(I, c):
    """simplify a guard using the path condition and the linear theory"""
    c = restrict(c, I.st.pc)
    if c.leaf:
        return c
    t = prune(AND(I.st.pc, c))
    if t is dd.FALSE:
        return dd.FALSE
    if prune(AND(I.st.pc, NOT(c))) is dd.FALSE:
        return dd.TRUE
    return restrict(t, I.st.pc)


def mfind(I, p, k):
    r = mend(p)
    for i, g, kk in live(I, p):
        c = prune_under(I, AND(g, I.compare('==', kk, k)))
        r = ite(c, leaf(MapIt(p.base, p.path, i)), r)
    return restrict(r, I.st.pc)


def mbegin(I, p, unordered):
    if unordered:
        r = mend(p)
        for i, g, k in reversed(live(I, p)):
            r = ite(g, leaf(MapIt(p.base, p.path, i)), r)
        return r
    return extreme(I, p, live(I, p))


def mbound(I, p, k, op):
    return extreme(I, p, [(i, prune_under(I, AND(g, cmp(op, kk, k))), kk) for i, g, kk in live(I, p)])


def mkind(I, p):
    m = I.st.mem.get(p.base, {})
    return m.get(p.path + ('#u',)) is not None


def beyond(I, op, nodes, ki, i):
    """the candidates on one side of the key ki"""
    c = number(ki)
    out = []
    for j, g, k in nodes:
        if j == i:
            continue
        n = number(k) if c is not None else None
        if n is not None:
            if n > c if op == '>' else n < c:
                out.append((j, g, k))
        else:
            out.append((j, prune_under(I, AND(g, cmp(op, k, ki))), k))
    return out


def mnext(I, p, i):
    if mkind(I, p):
        r = mend(p)
        for j, g, k in reversed(live(I, p)):
            if j > i:
                r = ite(g, leaf(MapIt(p.base, p.path, j)), r)
        return r
    ki = keyof(I, p, i)
    return extreme(I, p, beyond(I, '>', live(I, p), ki, i))


def mprev(I, p, i):
    if i is None:
        r = extreme(I, p, live(I, p), True)
    else:
        ki = keyof(I, p, i)
        r = extreme(I, p, beyond(I, '<', live(I, p), ki, i), True)
    return r


def msize(I, p):
    s = dd.N0
    for i, g, k in live(I, p):
        s = dd.add(s, ite(g, dd.N1, dd.N0))
    return s


def mnew(I, p, T, keynode, guard=None):
    if T['n'] not in UNORDERED:
        k = 1 if T['n'] in SETS else 2
        a = T.get('a') or []
        if len(a) > k and 't' in a[k]:
            c = I.T(a[k]['t'])
            if c.get('n') not in ('std::less', None):
                raise Unsupported('ordered container with the comparator ' + str(c.get('s')))
    I.nodeid += 1
    i = I.nodeid
    I._set(Ptr(p.base, p.path + ('n', i, 'alive')), dd.TRUE if guard is None else guard)
    I._set(Ptr(p.base, p.path + ('n', i, 'first')), keynode)
    if T['n'] in UNORDERED:
        I._set(Ptr(p.base, p.path + ('#u',)), dd.TRUE)
    if T['n'] in SETS:
        I._set(Ptr(p.base, p.path + ('#set',)), dd.TRUE)
    return i


def minsert(I, p, T, keynode, fill):
    """insert unless present; fill(Ptr second) initialises the value; -> (iterator node, inserted node)"""
    it = mfind(I, p, keynode)

    def go(v):
        if v.idx is not None:
            return (leaf(v), dd.FALSE)
        i = mnew(I, p, T, keynode)
        if T['n'] not in SETS:
            fill(Ptr(p.base, p.path + ('n', i, 'second')))
        return (leaf(MapIt(p.base, p.path, i)), dd.TRUE)
    return I.split(it, go)


def madd(I, p, T):
    """f(address of an element): inserts that element"""
    def add(addr):
        if T['n'] in SETS:
            return minsert(I, p, T, I.load(addr), None)
        return minsert(I, p, T, I.load(I.sub(addr, 'first')), lambda q: I.write_snapshot(q, I.snapshot(I.sub(addr, 'second'))))
    return add


def map_types(I, f):
    return rect(I, f)


def mk_pair(I, a, b):
    q = Ptr(I.newbase(), ())
    I._set(Ptr(q.base, ('first',)), a)
    I._set(Ptr(q.base, ('second',)), b)
    return leaf(q)


@meth(MAPS, 'find')
def _mfind(I, e, f, x):
    k = I.rval(e['a'][0])
    return on_obj(I, e, lambda p: mfind(I, p, k))


@meth(MAPS, 'count', 'contains')
def _mcount(I, e, f, x):
    k = I.rval(e['a'][0])
    b = f['q'].endswith('contains')

    def go(p):
        c = map1(None, lambda v: dd.TRUE if v.idx is not None else dd.FALSE, mfind(I, p, k))
        return c if b else I.tonum(c)
    return on_obj(I, e, go)


@meth(MAPS, 'begin', 'cbegin')
def _mbegin(I, e, f, x):
    return on_obj(I, e, lambda p: mbegin(I, p, rect(I, f)['n'] in UNORDERED))


@meth(MAPS, 'end', 'cend')
def _mend(I, e, f, x):
    return map1(None, lambda v: mend(v), objaddr(I, e))


@meth(MAPS, 'rbegin', 'crbegin')
def _mrbegin(I, e, f, x):
    return on_obj(I, e, lambda p: map1(None, lambda v: leaf(RevIt(v)), mprev(I, p, None)))


@meth(MAPS, 'rend', 'crend')
def _mrend(I, e, f, x):
    return map1(None, lambda v: leaf(RevIt(MapIt(v.base, v.path, None))), objaddr(I, e))


@meth(MAPS, 'lower_bound')
def _mlb(I, e, f, x):
    k = I.rval(e['a'][0])
    return on_obj(I, e, lambda p: mbound(I, p, k, '>='))


@meth(MAPS, 'upper_bound')
def _mub(I, e, f, x):
    k = I.rval(e['a'][0])
    return on_obj(I, e, lambda p: mbound(I, p, k, '>'))


@meth(MAPS, 'equal_range')
def _mer(I, e, f, x):
    k = I.rval(e['a'][0])
    return on_obj(I, e, lambda p: mk_pair(I, mbound(I, p, k, '>='), mbound(I, p, k, '>')))


@meth(MAPS, 'size')
def _msize(I, e, f, x):
    return on_obj(I, e, lambda p: msize(I, p))


@meth(MAPS, 'empty')
def _mempty(I, e, f, x):
    return on_obj(I, e, lambda p: NOT(dd.ors([g for _, g, _ in live(I, p)])))


@meth(MAPS, 'reserve', 'rehash')
def _mres(I, e, f, x):
    for a in e['a']:
        I.rval(a)
    objaddr(I, e)


@meth(MAPS, 'clear')
def _mclear(I, e, f, x):
    def go(p):
        for i in mnodes(I, p):
            I._set(Ptr(p.base, p.path + ('n', i, 'alive')), dd.FALSE)
    return on_obj(I, e, go)


@meth(MAPS, 'at')
def _mat(I, e, f, x):
    k = I.rval(e['a'][0])

    def go(p):
        def g(v):
            if v.idx is None:
                I.throw('std::out_of_range', 'map::at of a missing key')
            return leaf(Ptr(p.base, p.path + ('n', v.idx, 'second')))
        return I.split(mfind(I, p, k), g)
    return on_obj(I, e, go)


@meth(MAPS, 'insert', 'emplace', 'emplace_hint', 'try_emplace', 'insert_or_assign')
def _minsert(I, e, f, x):
    T = rect(I, f)
    name = f['q'].split('::')[-1]
    args = list(e['a'])

    def go(p):
        hint = False
        a = args
        if name == 'insert' and len(a) == 1 and I.p.strip(a[0]['t']).get('n') == 'std::initializer_list':
            def each(v):
                n, arr = il_parts(I, v)
                for i in range(n):
                    madd(I, p, T)(I.sub(arr, i))
            return I.split(I.rval(a[0]), each)
        if len(a) >= 2 and is_iter(I.p.strip(a[0]['t'])) and (name in ('insert', 'emplace_hint', 'try_emplace', 'insert_or_assign')):
            if name == 'insert' and is_iter(I.p.strip(a[1]['t'])):
                # range insertion
                iter_range(I, I.rval(a[0]), I.rval(a[1]), madd(I, p, T))
                return None
            h = I.rval(a[0])
            check_live(I, h, True)
            hint = True
            a = a[1:]
        if T['n'] in SETS:
            k = I.rval(a[0])
            it, ins = minsert(I, p, T, k, None)
        elif name in ('insert',) or (name.startswith('emplace') and len(a) == 1):
            src = I.lval(a[0])
            k = I.load(I.sub(src, 'first'))
            snap = None
            VT = etype(I, T, 1)

            def fill(q):
                put_value(I, q, VT, I.sub(src, 'second') if I.is_agg(VT) else I.load(I.sub(src, 'second')))
            it, ins = minsert(I, p, T, k, fill)
        else:
            k = I.rval(a[0])
            VT = etype(I, T, 1)
            it, ins = minsert(I, p, T, k, lambda q: construct_args(I, VT, q, a[1:]))
            if name == 'insert_or_assign':
                def asg(v):
                    construct_args(I, VT, Ptr(p.base, p.path + ('n', v.idx, 'second')), a[1:])
                I.split(it, asg)
        if hint:
            return it
        return mk_pair(I, it, ins)
    return on_obj(I, e, go)


def is_iter(T):
    return T['k'] == 'ptr' or (T['k'] == 'rec' and 'iterator' in T['n'].lower())


def check_live(I, it, end_ok):
    it = restrict(it, I.st.pc)
    for v, g in guards(it, I.st.pc):
        if isinstance(v, MapIt):
            if v.base not in I.st.mem:
                I.ub(g, 'iterator of a destroyed map')
            elif v.idx is None:
                if not end_ok:
                    I.ub(g, 'dereference of the end iterator of a map')
            else:
                I.ub(AND(g, NOT(alive(I, Ptr(v.base, v.path), v.idx))), 'use of an erased map iterator')
        elif v is dd.UNDEF_V:
            I.ub(g, 'use of an uninitialised iterator')
    return restrict(it, I.st.pc)


@meth(MAPS, 'erase')
def _merase(I, e, f, x):
    T = rect(I, f)

    def go(p):
        AT = I.p.strip(e['a'][0]['t'])
        if len(e['a']) == 2:
            b = I.rval(e['a'][1])
            tmp = Ptr(I.newbase(), ())
            I._set(tmp, I.rval(e['a'][0]))

            def cond():
                return I.compare('!=', I.load(leaf(tmp)), b)

            def body():
                it = check_live(I, I.load(leaf(tmp)), False)
                nx = step(I, it, 1)
                kill(it)
                I._set(tmp, nx)
            I.loop(cond, body, None)
            return b
        v = I.rval(e['a'][0])
        if is_iter(AT):
            v = check_live(I, v, False)
            # end iterator
            nx = step(I, v, 1)
            kill(v)
            return nx
        it = mfind(I, p, v)
        kill(it)
        return I.tonum(map1(None, lambda w: dd.TRUE if w.idx is not None else dd.FALSE, it))

    def kill(it):
        for w, g in guards(restrict(it, I.st.pc), I.st.pc):
            if isinstance(w, MapIt) and w.idx is not None:
                q = Ptr(w.base, w.path + ('n', w.idx, 'alive'))
                I._set(q, ite(restrict(g, I.st.pc), dd.FALSE, I._cell(q)))
    return on_obj(I, e, go)


# ---------------------------------------------------------------- iterators
def bounds(I, v, g, slack=0):
    """UB unless the element pointer v is inside its container"""
    if isinstance(v, Ptr) and v.path and isinstance(v.path[-1], int) and v.base in I.st.mem:
        n = I.st.mem[v.base].get(v.path[:-1] + ('#',))
        i = v.path[-1]
        if n is not None:
            bad = cmp('>=', num(i), n) if i >= 0 else dd.TRUE
            I.ub(AND(g, I.defined(restrict(bad, I.st.pc))), 'access past the end of a container (index %d)' % i)
        elif i < 0:
            I.ub(g, 'access before the begin of an array')
        else:
            m = I.st.mem[v.base]
            if not any(k[:len(v.path)] == v.path for k in m):
                I.ub(g, 'access past the end of an array (index %d)' % i)


def deref(I, it):
    it = restrict(it, I.st.pc)
    it = check_live(I, it, False)
    for v, g in guards(it, I.st.pc):
        w = v.it if isinstance(v, RevIt) else v
        if isinstance(w, Ptr):
            bounds(I, w, g)
        elif isinstance(v, RevIt) and isinstance(w, MapIt):
            if w.idx is None:
                I.ub(g, 'dereference of a reverse end iterator')
            else:
                I.ub(AND(g, NOT(alive(I, Ptr(w.base, w.path), w.idx))), 'use of an erased map iterator')
    it = restrict(it, I.st.pc)

    def f(v):
        if isinstance(v, RevIt):
            v = v.it
        if isinstance(v, MapIt):
            if v.idx is None:
                return dd.UNDEF
            if I.st.mem.get(v.base, {}).get(v.path + ('#set',)) is not None:
                return leaf(Ptr(v.base, v.path + ('n', v.idx, 'first')))
            return leaf(Ptr(v.base, v.path + ('n', v.idx)))
        return leaf(v)
    return map1(None, f, it)


def step(I, it, d):
    """++ / -- (d = 1 / -1)"""
    it = restrict(it, I.st.pc)
    ls = dd.leaves(it)
    if all(isinstance(v, Ptr) for v in ls):
        return I.ptr_add(it, num(d))
    it = check_live(I, it, True)
    for v, g in guards(it, I.st.pc):
        rev = isinstance(v, RevIt)
        w = v.it if rev else v
        if isinstance(w, MapIt):
            dd_ = -d if rev else d
            if w.idx is None and dd_ == 1 and not rev:
                I.ub(g, 'increment of the end iterator of a map')
            elif rev and w.idx is None and d == 1:
                I.ub(g, 'increment of the reverse end iterator of a map')
            elif dd_ == -1 and not rev:
                r = mprev(I, Ptr(w.base, w.path), w.idx)
                I.ub(AND(g, map1(None, lambda q: dd.TRUE if q.idx is None else dd.FALSE, r)), 'decrement of the begin iterator of a map')
    it = restrict(it, I.st.pc)

    def f(v):
        if isinstance(v, Ptr):
            return I.ptr_add(leaf(v), num(d))
        if isinstance(v, RevIt):
            if isinstance(v.it, Ptr):
                return map1(None, lambda q: leaf(RevIt(q)), I.ptr_add(leaf(v.it), num(-d)))
            w = v.it
            p = Ptr(w.base, w.path)
            if d == 1:
                return map1(None, lambda q: leaf(RevIt(q)), mprev(I, p, w.idx))
            nx = mbegin(I, p, False) if w.idx is None else mnext(I, p, w.idx)
            return map1(None, lambda q: leaf(RevIt(q)), nx)
        if isinstance(v, MapIt):
            p = Ptr(v.base, v.path)
            if d == 1:
                return mnext(I, p, v.idx) if v.idx is not None else leaf(v)
            return mprev(I, p, v.idx)
        raise Unsupported('step of %r' % (v,), I.cur_loc)
    return restrict(map1(None, f, it), I.st.pc)


def advance(I, it, n):
    it = restrict(it, I.st.pc)
    if all(isinstance(v, Ptr) for v in dd.leaves(it)):
        return I.ptr_add(it, n)

    def go(k):
        k = I.as_int(k, 'distance')
        if k >= 1 << 63:
            k -= 1 << 64
        r = it
        for _ in range(abs(k)):
            r = step(I, r, 1 if k > 0 else -1)
        return r
    return I.split(n, go)


@meth('iter', 'base')
def _ibase(I, e, f, x):
    return obj_value(I, e)


@meth('std::reverse_iterator', 'base')
def _rbase(I, e, f, x):
    it = obj_value(I, e)
    return map1(None, lambda v: step(I, leaf(v.it), 1), it)


def obj_value(I, e):
    """value of a scalar library object that is the object of a method call"""
    b = e['b']
    if e.get('arrow'):
        return I.load(I.rval(b))
    if b['vc'] in 'lx':
        a = I.lval(b)
        return I.load(a)
    return I.rval(b)


# ---------------------------------------------------------------- smart pointers
@meth('ptr', 'get')
def _pget(I, e, f, x):
    return obj_value(I, e)


@meth('ptr', 'operator*', 'operator->')
def _pderef(I, e, f, x):
    return obj_value(I, e)


@meth('ptr', 'operator bool', 'operator conv')
def _pbool(I, e, f, x):
    return I.tobool(obj_value(I, e))


@meth('ptr', 'reset')
def _preset(I, e, f, x):
    a = objaddr(I, e)
    I.store(a, I.rval(e['a'][0]) if e['a'] and I.T(e['a'][0]['t'])['k'] != 'nullptr' else leaf(NULL))


@meth('ptr', 'release')
def _prel(I, e, f, x):
    a = objaddr(I, e)
    v = I.load(a)
    I.store(a, leaf(NULL))
    return v


@fn('std::make_shared', 'std::make_unique', 'boost::make_shared')
def _mkshared(I, e, f, args):
    T = I.T(e['t'])
    ET = etype(I, T)
    b = I.newbase(local=False)
    construct_args(I, ET, Ptr(b, ()), args)
    return leaf(Ptr(b, ()))


# ---------------------------------------------------------------- no-ops
@meth('noop', '*')
def _noop(I, e, f, x):
    if e['vc'] in 'lx':
        b = I.newbase()
        return leaf(Ptr(b, ()))
    T = I.T(e['t'])
    if T['k'] == 'void':
        return None
    if T['k'] == 'bool':
        return dd.TRUE
    return leaf(Obj('lib', n='noop'))


for _c in LOCKS:
    METH[(_c, 'lock')] = METH[(_c, 'unlock')] = METH[(_c, 'try_lock')] = _noop


# ---------------------------------------------------------------- functions
@fn('google::vp_fatal_stream', 'std::terminate', 'abort', 'std::abort', 'exit', 'std::exit', '_exit', 'std::_Exit',
    'std::quick_exit')
def _fatal(I, e, f, args):
    I.abort('fatal check' if 'fatal' in f['q'] else f['q'])


@fn('__assert_fail')
def _assertf(I, e, f, args):
    I.abort('assertion failed')


@fn('google::CheckNotNull')
def _notnull(I, e, f, args):
    ref = e.get('vc') != 'r'
    a = I.lval(args[0]) if ref else None
    v = I.load(a) if ref else I.rval(args[0])
    bad = map1(None, lambda x: dd.TRUE if x == NULL else dd.FALSE, restrict(v, I.st.pc))
    I.branch(bad, lambda: I.abort('fatal check'), lambda: None)
    return restrict(a if ref else v, I.st.pc)


@fn('google::vp_null_stream')
def _nulls(I, e, f, args):
    return leaf(Obj('lib', n='null stream'))


@fn('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof', 'std::__addressof')
def _move(I, e, f, args):
    if len(args) == 3:
        return _copy(I, e, f, args)
    a = I.lval(args[0])
    return a


@fn('std::min', 'std::max', 'std::fmin', 'std::fmax', 'fmin', 'fmax')
def _minmax(I, e, f, args):
    name = f['q'].split('::')[-1]
    mx = name.endswith('max')
    T = I.T(e['t'])
    if e['vc'] in 'lx':
        if len(args) == 1:
            raise Unsupported('min of a list', I.cur_loc)
        a, b = I.lval(args[0]), I.lval(args[1])
        va, vb = I.load(a), I.load(b)
        if len(args) == 3:
            raise Unsupported('min with comparator', I.cur_loc)
        # max(a,b) = (a < b) ? b : a ;  min(a,b) = (b < a) ? b : a
        c = I.compare('<', va, vb) if mx else I.compare('<', vb, va)
        c = I.defined(c)
        return ite(c, b, a)
    if len(args) == 1:
        src = I.rval(args[0])

        def go(v):
            n = I.cint(I._cell(Ptr(v.base, v.path + ('#',))))
            a = I._cell(Ptr(v.base, v.path + ('#p',)))
            r = I.load(I.sub(a, 0))
            for i in range(1, n):
                y = I.load(I.sub(a, i))
                r = ite(I.defined(I.compare('<', r, y) if mx else I.compare('<', y, r)), y, r)
            return r
        return I.split(src, go)
    va, vb = I.rval(args[0]), I.rval(args[1])
    c = I.defined(I.compare('<', va, vb) if mx else I.compare('<', vb, va))
    return ite(c, vb, va)


@fn('std::clamp')
def _clamp(I, e, f, args):
    v, lo, hi = [I.lval(a) for a in args[:3]]
    vv, vl, vh = I.load(v), I.load(lo), I.load(hi)
    return ite(I.defined(I.compare('<', vv, vl)), lo, ite(I.defined(I.compare('<', vh, vv)), hi, v))


def node_abs(v):
    return map1(('abs', len(dd.ASSUME)), lambda x: map1(None, lambda s: leaf(P.rneg(x)) if s < 0 else leaf(x), dd.rsign(x)) if isinstance(x, R) else leaf(x), v)


@fn('std::abs', 'std::fabs', 'fabs', 'abs', 'fabsf', 'labs', 'llabs')
def _abs(I, e, f, args):
    return node_abs(I.tonum(I.rval(args[0])))


def pown(v, n):
    r = dd.N1
    for _ in range(abs(n)):
        r = dd.mul(r, v)
    return r if n >= 0 else dd.div(dd.N1, r)


@fn('boost::math::pow')
def _bpow(I, e, f, args):
    n = None
    for a in f.get('a') or []:
        if 'i' in a:
            n = int(a['i'])
            break
    return pown(I.tonum(I.rval(args[0])), n)


@fn('std::pow', 'pow', 'powf', 'powl')
def _pow(I, e, f, args):
    b = I.tonum(I.rval(args[0]))
    x = I.tonum(I.rval(args[1]))

    def g(a, k):
        if isinstance(k, R) and k.c is not None and k.c.denominator == 1 and abs(k.c) <= 40:
            return pown(leaf(a), int(k.c))
        if isinstance(a, R) and isinstance(k, R):
            return leaf(P.var(P.sym('pow(%r,%r)' % (a, k), 'fn', (('pow', a, k),), None)))
        return dd.UNDEF if dd.UNDEF_V in (a, k) else dd.NAN
    return map2(None, g, b, x)


def unary_fn(name, v, exact=None):
    def g(a):
        if isinstance(a, R):
            if a.c is not None and exact is not None:
                r = exact(a.c)
                if r is not None:
                    return num(r)
            return leaf(P.var(P.sym('%s(%r)' % (name, a), 'fn', ((name, a),), None)))
        return leaf(a)
    return map1(None, g, v)


def ex_sqrt(c):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


@fn('std::sqrt', 'sqrt', 'sqrtf')
def _sqrt(I, e, f, args):
    return unary_fn('sqrt', I.tonum(I.rval(args[0])), ex_sqrt)


for _n, _ex in (('floor', lambda c: Fraction(math.floor(c))), ('ceil', lambda c: Fraction(math.ceil(c))),
                ('round', lambda c: Fraction(math.floor(c + Fraction(1, 2)) if c >= 0 else -math.floor(-c + Fraction(1, 2)))),
                ('trunc', lambda c: Fraction(int(c))), ('nearbyint', lambda c: Fraction(round(c))), ('rint', lambda c: Fraction(round(c))),
                ('sin', lambda c: Fraction(0) if c == 0 else None), ('cos', lambda c: Fraction(1) if c == 0 else None),
                ('tan', lambda c: Fraction(0) if c == 0 else None), ('exp', lambda c: Fraction(1) if c == 0 else None),
                ('log', lambda c: Fraction(0) if c == 1 else None), ('acos', lambda c: None), ('asin', lambda c: None),
                ('atan', lambda c: None), ('cbrt', lambda c: None)):
    def _mk(n, ex):
        def h(I, e, f, args):
            return unary_fn(n, I.tonum(I.rval(args[0])), ex)
        return h
    FN['std::' + _n] = FN[_n] = _mk(_n, _ex)


@fn('std::fmod', 'fmod')
def _fmod(I, e, f, args):
    a, b = I.tonum(I.rval(args[0])), I.tonum(I.rval(args[1]))

    def g(x, y):
        if isinstance(x, R) and isinstance(y, R):
            if x.c is not None and y.c:
                q = x.c / y.c
                return num(x.c - int(q) * y.c)
            return leaf(P.var(P.sym('fmod(%r,%r)' % (x, y), 'fn', (('mod', x, y),), None)))
        return dd.NAN
    return map2(None, g, a, b)


@fn('std::fma', 'fma')
def _fma(I, e, f, args):
    a, b, c = [I.tonum(I.rval(x)) for x in args]
    return dd.add(dd.mul(a, b), c)


@fn('std::isnan', 'isnan', '__builtin_isnan')
def _isnan(I, e, f, args):
    return map1(None, lambda x: dd.TRUE if x is dd.NAN_V else dd.UNDEF if x is dd.UNDEF_V else dd.FALSE, I.rval(args[0]))


@fn('std::isfinite', 'isfinite', '__builtin_isfinite')
def _isfin(I, e, f, args):
    return map1(None, lambda x: dd.FALSE if x is dd.NAN_V else dd.UNDEF if x is dd.UNDEF_V else dd.TRUE, I.rval(args[0]))


@fn('std::isinf', 'isinf', '__builtin_isinf')
def _isinf(I, e, f, args):
    I.rval(args[0])
    return dd.FALSE


@fn('std::signbit')
def _signbit(I, e, f, args):
    return cmp('<', I.tonum(I.rval(args[0])), dd.N0)


@fn('std::numeric_limits::quiet_NaN', 'std::numeric_limits::signaling_NaN', 'std::numeric_limits::infinity', '__builtin_nan',
    '__builtin_huge_val', '__builtin_inf', 'std::nan', 'nan')
def _nan(I, e, f, args):
    return dd.NAN


@fn('std::numeric_limits::epsilon')
def _eps(I, e, f, args):
    return num(Fraction(1, 1 << 52))


@fn('std::numeric_limits::max')
def _nlmax(I, e, f, args):
    T = I.T(e['t'])
    if T['k'] == 'int':
        return num((1 << (T['bits'] - (1 if T['signed'] else 0))) - 1)
    return num(Fraction(1.7976931348623157e308))


@fn('std::numeric_limits::lowest')
def _nllow(I, e, f, args):
    T = I.T(e['t'])
    if T['k'] == 'int':
        return num(-(1 << (T['bits'] - 1)) if T['signed'] else 0)
    return num(-Fraction(1.7976931348623157e308))


@fn('std::numeric_limits::min')
def _nlmin(I, e, f, args):
    T = I.T(e['t'])
    if T['k'] == 'int':
        return num(-(1 << (T['bits'] - 1)) if T['signed'] else 0)
    return num(Fraction(2.2250738585072014e-308))


@fn('std::fill')
def _fill(I, e, f, args):
    a, b = I.rval(args[0]), I.rval(args[1])
    v = I.rval(args[2])
    ET = I.p.strip(args[2]['t'])

    def set_(addr):
        I.store(addr, I.tonum(v)) if not I.is_agg(ET) else I.copy_to(addr, v)
    iter_range(I, a, b, set_)


@fn('std::fill_n')
def _filln(I, e, f, args):
    a = I.rval(args[0])
    n = I.cint(I.rval(args[1]))
    v = I.rval(args[2])
    for i in range(n):
        I.store(deref(I, advance(I, a, num(i))), v)
    return advance(I, a, num(n))


@fn('std::copy_backward', 'std::move_backward')
def _copyback(I, e, f, args):
    a, b, out = (I.rval(x) for x in args[:3])
    ls = dd.leaves(restrict(a, I.st.pc)) + dd.leaves(restrict(b, I.st.pc))
    if not all(isinstance(v, Ptr) for v in ls):
        raise Unsupported('copying backward', I.cur_loc)
    n = I.cint(restrict(I.ptr_diff(b, a), I.st.pc))
    for i in range(1, n + 1):
        assign_out(I, advance(I, out, num(-i)), deref(I, advance(I, b, num(-i))))
    return advance(I, out, num(-n))


@fn('std::copy')
def _copy(I, e, f, args):
    a, b = I.rval(args[0]), I.rval(args[1])
    out = I.rval(args[2])
    tmp = Ptr(I.newbase(), ())
    I._set(tmp, out)

    def one(addr):
        o = I.load(leaf(tmp))
        assign_out(I, o, addr)
        if not (o.leaf and isinstance(o.v, Obj)):
            I._set(tmp, step(I, o, 1))
    iter_range(I, a, b, one)
    return I.load(leaf(tmp))


@fn('std::copy_n')
def _copyn(I, e, f, args):
    a = I.rval(args[0])
    n = I.cint(I.rval(args[1]))
    out = I.rval(args[2])
    for i in range(n):
        src = deref(I, advance(I, a, num(i)))
        if out.leaf and isinstance(out.v, Obj):
            assign_out(I, out, src)
        else:
            assign_out(I, advance(I, out, num(i)), src)
    return out


def assign_out(I, o, src):
    if o.leaf and isinstance(o.v, Obj) and o.v.kind == 'backins':
        return I.split(o.v.addr, lambda p: push(I, p, o.v.et, src if I.is_agg(o.v.et) else I.load(src)))
    if o.leaf and isinstance(o.v, Obj) and o.v.kind == 'ositer':
        return os_put(I, o.v, I.load(src))
    dst = deref(I, o)
    I.write_to(dst, I.snapshot(src))


def os_put(I, o, v):
    import streams
    streams.put_value(I, o.addr, v, o.et)
    if o.delim is not None:
        streams.put_text(I, o.addr, o.delim)


@fn('std::back_inserter')
def _backins(I, e, f, args):
    T = I.p.strip(args[0]['t'])
    return leaf(Obj('backins', addr=I.lval(args[0]), et=etype(I, T)))


@fn('std::distance', 'std::__distance')
def _distance(I, e, f, args):
    a, b = I.rval(args[0]), I.rval(args[1])
    ls = dd.leaves(restrict(a, I.st.pc)) + dd.leaves(restrict(b, I.st.pc))
    if all(isinstance(v, (Ptr,)) for v in ls):
        return I.ptr_diff(b, a)
    cnt = Ptr(I.newbase(), ())
    I._set(cnt, dd.N0)
    iter_range(I, a, b, lambda addr: I._set(cnt, dd.add(I.load(leaf(cnt)), dd.N1)))
    return I.load(leaf(cnt))


@fn('std::__bit_width')
def _bit_width(I, e, f, args):
    return num(I.cint(I.rval(args[0])).bit_length())


# stable sorting without its scratch buffer (libstdc++ falls back to merging in place)
@meth('std::_Temporary_buffer', 'requested_size')
def _tb_req(I, e, f, x):
    return dd.N1


@meth('std::_Temporary_buffer', 'size')
def _tb_size(I, e, f, x):
    return dd.N0


@meth('std::_Temporary_buffer', 'begin', 'end')
def _tb_begin(I, e, f, x):
    return leaf(NULL)


@fn('std::__iterator_category')
def _itercat(I, e, f, args):
    return leaf(Ptr(I.newbase(), ()))        # a tag: overload resolution has already used it


@fn('std::next', 'std::prev', 'boost::next', 'boost::prior')
def _next(I, e, f, args):
    a = I.rval(args[0])
    n = I.rval(args[1]) if len(args) > 1 else num(1)
    if f['q'] in ('std::prev', 'boost::prior'):
        n = dd.neg(n)
    return advance(I, a, n)


@fn('std::advance', 'std::__advance')
def _advance(I, e, f, args):
    a = I.lval(args[0])
    n = I.rval(args[1])
    I.store(a, advance(I, I.load(a), n))


@fn('std::begin', 'std::cbegin', 'std::end', 'std::cend')
def _begin_fn(I, e, f, args):
    T = I.p.strip(args[0]['t'])
    a = I.lval(args[0])
    is_end = f['q'].endswith('end')
    if T['k'] == 'array':
        return I.sub(a, T['n'] if is_end else 0)
    if T['n'] == 'std::array':
        return I.sub(a, array_info(I, T)[0] if is_end else 0)
    if T['n'] in VECS:
        if not is_end:
            return I.sub(a, 0)
        return I.split(a, lambda p: map1(None, lambda n: leaf(elem(p, I.as_int(n))), vsize(I, p)))
    if T['n'] in MAPS:
        if is_end:
            return map1(None, lambda v: mend(v), a)
        return I.split(a, lambda p: mbegin(I, p, T['n'] in UNORDERED))
    raise Unsupported('std::begin', I.cur_loc)


@fn('std::swap', 'std::iter_swap')
def _swap(I, e, f, args):
    if f['q'] == 'std::iter_swap':
        a, b = deref(I, I.rval(args[0])), deref(I, I.rval(args[1]))
        return swap_objs(I, a, b)
    a, b = I.lval(args[0]), I.lval(args[1])
    T = I.p.strip(args[0]['t'])
    if I.is_agg(T):
        return swap_objs(I, a, b)
    va, vb = I.load(a), I.load(b)
    I.store(a, vb)
    I.store(b, va)


@fn('std::exchange')
def _exchange(I, e, f, args):
    a = I.lval(args[0])
    old = I.load(a)
    I.store(a, I.rval(args[1]))
    return old


@fn('std::equal')
def _equal(I, e, f, args):
    a, b, c = I.rval(args[0]), I.rval(args[1]), I.rval(args[2])
    if len(args) > 3:
        raise Unsupported('std::equal with predicate', I.cur_loc)
    n = I.cint(I.ptr_diff(b, a))
    r = dd.TRUE
    for i in range(n):
        x = I.load(deref(I, advance(I, a, num(i))))
        y = I.load(deref(I, advance(I, c, num(i))))
        r = AND(r, I.defined(I.compare('==', x, y)))
    return r


@fn('std::make_pair')
def _mkpair(I, e, f, args):
    T = I.T(e['t'])
    p = Ptr(I.newbase(), ())
    construct_args(I, etype(I, T, 0), Ptr(p.base, ('first',)), args[:1])
    construct_args(I, etype(I, T, 1), Ptr(p.base, ('second',)), args[1:])
    return leaf(p)


@fn('std::make_tuple', 'std::tie', 'std::forward_as_tuple')
def _mktuple(I, e, f, args):
    p = Ptr(I.newbase(), ())
    for i, a in enumerate(args):
        if f['q'] != 'std::make_tuple':
            I._set(Ptr(p.base, (i, 'ref')), I.lval(a))
        else:
            T = I.T(I.T(e['t'])['a'][0]['p'][i]['t'])
            construct_args(I, T, Ptr(p.base, (i,)), [a])
    return leaf(p)


@fn('std::get')
def _get(I, e, f, args):
    a = I.lval(args[0])
    i = int(f['a'][0]['i'])
    T = I.p.strip(args[0]['t'])
    if T['n'] == 'std::pair':
        r = I.sub(a, 'first' if i == 0 else 'second')
    else:
        r = I.sub(a, i)
        m = I.st.mem.get(a.v.base, {}) if a.leaf else {}
        if a.leaf and m.get(a.v.path + (i, 'ref')) is not None:
            return I.load(I.sub(r, 'ref'))
    return r


@fn('memcpy', 'std::memcpy', '__builtin_memcpy', 'memmove', 'std::memmove', '__builtin_memmove')
def _memcpy(I, e, f, args):
    d, s = I.rval(args[0]), I.rval(args[1])
    # whole-object copies only (as synthesised by the compiler for arrays)
    def strip0(v):
        return leaf(Ptr(v.base, v.path[:-1])) if isinstance(v, Ptr) and v.path and v.path[-1] == 0 else leaf(v)
    I.write_to(map1(None, strip0, d), I.snapshot(map1(None, strip0, s)))
    return d


@fn('printf', 'puts', 'std::printf', 'putchar', 'perror', 'std::puts', 'std::perror')
def _printf(I, e, f, args):
    for a in args:
        if a['vc'] in 'lx':
            I.lval(a)
        else:
            I.rval(a)
    return dd.N0


@fn('__builtin_expect')
def _bexpect(I, e, f, args):
    return I.rval(args[0])


@fn('__builtin_unreachable')
def _unreach(I, e, f, args):
    I.ub(dd.TRUE, 'unreachable code reached')


# ---------------------------------------------------------------- specification vocabulary
def str_of(I, a):
    v = I.rval(a)
    return ''.join(v.v.p)


@fn('vp_real')
def _vpreal(I, e, f, args):
    n = str_of(I, args[0]) + ''.join('_%d' % I.cint(I.rval(a)) for a in args[1:])
    return leaf(P.var(P.sym(n, 'real')))


@fn('vp_int')
def _vpint(I, e, f, args):
    n = str_of(I, args[0]) + ''.join('_%d' % I.cint(I.rval(a)) for a in args[1:-2])
    lo, hi = I.cint(I.rval(args[-2])), I.cint(I.rval(args[-1]))
    if hi - lo > 64:
        s = P.sym(n, 'int')
        d = (0, s.idx, ())
        for c in (({d: Fraction(-1)}, Fraction(lo), '<='), ({d: Fraction(1)}, Fraction(-hi), '<=')):
            if c not in dd.ASSUME:
                dd.ASSUME.append(c)
        return leaf(P.var(s))
    out = num(hi)
    for k in range(hi - 1, lo - 1, -1):
        out = dd.ite(dd.boolvar('%s=%d' % (n, k)), num(k), out)
    return out


@fn('vp_rounded')
def _vprounded(I, e, f, args):
    """whether a value read from text is a rendering of another one with six decimals or more"""
    def one(a, b):
        if dd.UNDEF_V in (a, b):
            return dd.UNDEF
        if not isinstance(a, R) or not isinstance(b, R):
            return dd.FALSE
        if a.c is not None and b.c is not None:
            return dd.TRUE if abs(a.c - b.c) <= Fraction(1, 2 * 10 ** 6) else dd.FALSE
        if a.c is None and len(a.num) == 1 and not a.den:
            (m, c), = a.num.items()
            s = P.SYMS[m[0][0]]
            if c == 1 and len(m) == 1 and m[0][1] == 1 and s.kind == 'fn' and s.args[0][0].startswith('round'):
                p = s.args[0][0][5:]
                if p.isdigit() and int(p) >= 15 or p[:1] == 'f' and p[1:].isdigit() and int(p[1:]) >= 6:
                    a = s.args[0][1]
        return cmp('==', leaf(a), leaf(b))
    return map2('rounded', one, I.rval(args[0]), I.rval(args[1]))


@fn('kindr::vp_let')
def _vplet(I, e, f, args):
    """a value of its own: equal to its argument when interpreted, opaque to the algebra"""
    def one(x):
        if not isinstance(x, R) or x.c is not None:
            return leaf(x)
        if len(x.num) == 1 and not x.den and next(iter(x.num.values())) == 1 and len(next(iter(x.num))) == 1:
            return leaf(x)
        return leaf(P.var(P.sym('let', 'fn', (('let', x),), None)))
    return map1(None, one, I.rval(args[0]))


@fn('kindr::vp_quot')
def _vpquot(I, e, f, args):
    def two(a, b):
        if not isinstance(a, R) or not isinstance(b, R):
            return dd.UNDEF
        q = P.rdiv(a, b)
        return leaf(q) if q.c is not None else leaf(P.var(P.sym('let', 'fn', (('let', q),), None)))
    return map2(None, two, I.rval(args[0]), I.rval(args[1]))


@fn('vp_havoc_counter')
def _vphavoc(I, e, f, args):
    """the only mutable integer of static storage gets an arbitrary earlier state; false when there is not exactly one"""
    c = []
    for gid, g in I.p.glob.items():
        if not g.get('user') or g.get('const') or g.get('constexpr') or '/drivers/' in g.get('loc', ''):
            continue
        T = I.T(g['t'])
        if T['k'] == 'int' or (T['k'] == 'rec' and T['n'] in ATOMICS):
            c.append(gid)
        elif T['k'] in ('bool', 'float', 'array', 'enum', 'ptr'):
            return dd.FALSE
    if len(c) != 1:
        return dd.FALSE
    if len(args) > 1:
        I.store(I.globals_ready[c[0]], I.rval(args[1]))
        return dd.TRUE
    s = P.sym(str_of(I, args[0]), 'int')
    d = (0, s.idx, ())
    dd.ASSUME.append(({d: Fraction(-1)}, Fraction(0), '<='))
    I.store(I.globals_ready[c[0]], leaf(P.var(s)))
    return dd.TRUE


@fn('vp_fault')
def _vpfault(I, e, f, args):
    I.opts.setdefault('faults', {})[str_of(I, args[0])] = I.tobool(I.rval(args[1]))


@fn('vp_bool')
def _vpbool(I, e, f, args):
    return dd.boolvar(str_of(I, args[0]))


def assume(I, c):
    c = restrict(I.defined(restrict(c, I.st.pc)), I.st.pc)
    if I.st.pc is dd.TRUE:
        rest = dd.TRUE
        while not c.leaf:
            v = dd.VARS[c.var]
            if v.kind != 'sgn':
                break
            live_ = [(s, x) for s, x in ((-1, c.n), (0, c.z), (1, c.p)) if x is not dd.FALSE]
            if not live_ or any(x is not live_[0][1] for _, x in live_):
                break
            S = frozenset(s for s, _ in live_)
            t, k = v.lin
            nt = {a: -b for a, b in t.items()}
            if S == {-1}:
                dd.ASSUME.append((t, k, '<'))
            elif S == {0}:
                dd.ASSUME.append((t, k, '=='))
            elif S == {1}:
                dd.ASSUME.append((nt, -k, '<'))
            elif S == {-1, 0}:
                dd.ASSUME.append((t, k, '<='))
            elif S == {0, 1}:
                dd.ASSUME.append((nt, -k, '<='))
            else:
                rest = AND(rest, dd.mk(c.var, dd.TRUE, dd.FALSE, dd.TRUE))
            c = live_[0][1]
        c = AND(c, rest)
    I.st.pc = prune(AND(I.st.pc, c))
    if I.st.pc is dd.FALSE or not dd.feasible(I.st.pc):
        raise Dead()


@fn('vp_assume')
def _vpassume(I, e, f, args):
    assume(I, I.tobool(I.rval(args[0])))


def recent(I):
    out = []
    for x in reversed(I.api):
        if x not in out:
            out.append(x)
        if len(out) == 4:
            break
    return out


@fn('vp_check')
def _vpcheck(I, e, f, args):
    c = I.tobool(I.rval(args[0]))
    bad = map1(None, lambda v: dd.FALSE if v is True else dd.TRUE, restrict(c, I.st.pc))
    I.obligations.append((str_of(I, args[1]), 'holds', AND(I.st.pc, bad), recent(I), e.get('loc')))
    return None


@fn('vp_eq')
def _vpeq(I, e, f, args):
    a, b = restrict(I.tonum(I.rval(args[0])), I.st.pc), restrict(I.tonum(I.rval(args[1])), I.st.pc)
    vp_eq(I, a, b, str_of(I, args[2]), e.get('loc'))


def vp_eq(I, a, b, label, loc):
    def g(x, y):
        if isinstance(x, R) and isinstance(y, R):
            if P.requal(x, y):
                return dd.FALSE
            return leaf(('differ', x, y))
        if x is y and x is dd.NAN_V:
            return dd.FALSE
        return dd.TRUE
    d = map2(None, g, a, b)
    # leaves: FALSE (equal), TRUE (one side undefined), ('differ', x, y) to be settled on the guard
    I.obligations.append((label, 'equal', (I.st.pc, d), recent(I), loc))


def depends(node, idx):
    """name of a derived symbol in the value that depends on the variable (directly)"""
    for x in dd.leaves(node):
        if isinstance(x, R) and x.c is None:
            for s in P.rsyms(x):
                S = P.SYMS[s]
                if S.kind == 'fn' and any(isinstance(a, R) and idx in P.rsyms(a) for a in S.args[0][1:]):
                    return S.name
    return None


@fn('vp_diff')
def _vpdiff(I, e, f, args):
    v = I.tonum(I.rval(args[0]))
    x = I.rval(args[1])
    s = x.v.num
    (m, c), = s.items()
    idx = m[0][0]
    dep = depends(v, idx)
    if dep:
        raise Unsupported('derivative of %s' % dep, e.get('loc'))
    return map1(None, lambda r: leaf(P.rdiff(r, idx)) if isinstance(r, R) else leaf(r), restrict(v, I.st.pc))


@fn('vp_aborts')
def _vpaborts(I, e, f, args):
    T = I.p.strip(args[0]['t'])
    clo = I.lval(args[0]) if args[0]['vc'] != 'r' else I.rval(args[0])
    h = Handler(True)
    I.handlers.append(h)
    ok = True
    try:
        I.call_closure(clo, T['rid'], [], evaluated=[])
    except Dead:
        ok = False
    finally:
        I.handlers.remove(h)
    ab = I.merge_states(h.states)
    if ab is None:
        if not ok:
            raise Dead()
        return dd.FALSE
    if not ok:
        I.st = ab
        return dd.TRUE
    cur, c = I._merge2(ab, I.st)
    I.st = cur
    return c


# ---------------------------------------------------------------- operators
def operator(I, e, f, op, probe=False):
    """operator call on library types; with probe only tells whether it would be handled natively"""
    q = f['q']
    A = e['a']
    if probe:
        if q.startswith('google::') or q.startswith('Eigen::'):
            return True
        return None
    if q.startswith('Eigen::') or any(I.is_eigen(I.p.strip(a['t'])) for a in A):
        if not (q.startswith('std::') and op == '<<'):
            return eigen.operator(I, e, f, op)
    if q.startswith('google::'):
        # the stream (a fatal one ends here) and the message operands of a logging stream
        for a in A:
            try:
                if a['vc'] in 'lx':
                    I.lval(a)
                else:
                    I.rval(a)
            except Unsupported:
                pass
        return I.materialise(leaf(Obj('lib', n='null stream')), {'k': 'other'}) if e['vc'] != 'r' else None
    T0 = I.p.strip(A[0]['t'])
    n0 = T0.get('n', '')
    if n0 == 'std::ostream_iterator' and op in ('*', '++', '='):
        a = I.lval(A[0])
        if op == '=' and I.p.strip(A[1]['t']).get('n') != n0:
            v = I.rval(A[1])
            I.split(I.load(a), lambda o: os_put(I, o, v))
            return a
        if op == '=':
            I.store(a, I.rval(A[1]))
            return a
        return I.load(a) if op == '++' and len(A) == 2 else a
    if n0 == 'std::back_insert_iterator' and op in ('*', '++', '='):
        a = I.lval(A[0])
        if op == '=' and I.p.strip(A[1]['t']).get('n') != n0:
            def ins(o):
                if not isinstance(o, Obj) or o.kind != 'backins':
                    raise Unsupported('insert iterator', I.cur_loc)

                def at(p):
                    def put(n):
                        n = I.as_int(n, 'size')
                        construct_args(I, o.et, elem(p, n), A[1:])
                        set_vsize(I, p, n + 1)
                    I.split(vsize(I, p), put)
                return I.split(o.addr, at)
            I.split(I.load(a), ins)
            return a
        if op == '=':
            I.store(a, I.rval(A[1]))
            return a
        return I.load(a) if op == '++' and len(A) == 2 else a
    if op == '[]':
        if n0 in VECS:
            a = I.lval(A[0])
            i = I.rval(A[1])
            return I.split(a, lambda p: index_check(I, p, vsize(I, p), i, False, 'vector index'))
        if n0 == 'std::array':
            a = I.lval(A[0])
            i = I.rval(A[1])
            return I.split(a, lambda p: index_check(I, p, num(array_info(I, T0)[0]), i, False, 'array index'))
        if n0 in MAPS:
            k = I.rval(A[1])
            a = I.lval(A[0])

            def go(p):
                VT = etype(I, T0, 1)

                def fill(qq):
                    vinit(I, qq, VT)
                it, _ = minsert(I, p, T0, k, fill)
                return map1(None, lambda v: leaf(Ptr(p.base, p.path + ('n', v.idx, 'second'))), it)
            return I.split(a, go)
        if is_iter(T0):
            it = I.rval(A[0])
            return deref(I, advance(I, it, I.rval(A[1])))
        if n0 == 'std::basic_string':
            import streams
            a, i = restrict(I.lval(A[0]), I.st.pc), I.cint(I.rval(A[1]))
            return I.split(a, lambda p: streams.char_at(I, p, i, 'operator[]'))
        if n0 in ('std::unique_ptr',):
            return I.ptr_add(I.rval(A[0]), I.rval(A[1]))
    if op == '=':
        if I.is_agg(T0):
            dst = I.lval(A[0])
            AT = I.p.strip(A[1]['t'])
            if AT.get('n') == 'std::initializer_list':
                b = Ptr(I.newbase(), ())
                vec_construct(I, T0, [A[1]], b)
                I.write_to(dst, I.snapshot(leaf(b)))
                return dst
            if T0['n'] == 'std::tuple':
                return assign_tuple(I, dst, I.lval(A[1]), T0, AT)
            src = I.lval(A[1])
            if T0['n'] in VECS and needs_user_copy(I, etype(I, T0)):
                b = Ptr(I.newbase(), ())
                copy_construct(I, b, T0, src)
                src = leaf(b)
            I.write_to(dst, I.snapshot(src))
            if A[1]['vc'] == 'x' and not I.T(A[1]['t']).get('const') and (T0['n'] in VECS or T0['n'] in MAPS):
                moved_from(I, src, dst, T0)
            return dst
        dst = I.lval(A[0])
        v = I.rval(A[1])
        if n0 == 'std::basic_string' and not isinstance(v, (dd.Leaf, dd.Br)):
            raise Unsupported('string assignment', I.cur_loc)
        if n0 in ('std::unique_ptr', 'std::shared_ptr') and I.T(A[1]['t'])['k'] == 'nullptr':
            v = leaf(NULL)
        I.store(dst, v)
        return dst
    if n0 in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr') and op in ('*', '->'):
        return I.rval(A[0])
    if n0 in ('std::unique_ptr', 'std::shared_ptr') and op in ('==', '!='):
        return I.compare(op, I.rval(A[0]), I.rval(A[1]))
    if any(I.p.strip(x['t']).get('n') == 'std::basic_string' for x in A) and op in ('==', '!=', '<', '>', '<=', '>=', '+', '+='):
        import streams
        return streams.string_op(I, e, op, A)
    if is_iter(T0) or (len(A) > 1 and is_iter(I.p.strip(A[1]['t'])) and op == '+'):
        if op in ('*', '->') and len(A) == 1:
            return deref(I, I.rval(A[0]))
        if op in ('++', '--'):
            a = I.lval(A[0])
            old = I.load(a)
            new = step(I, old, 1 if op == '++' else -1)
            I.store(a, new)
            return old if len(A) == 2 else a
        if op in ('==', '!=', '<', '<=', '>', '>='):
            l, r = I.rval(A[0]), I.rval(A[1])
            for v in (l, r):
                for w, g in guards(restrict(v, I.st.pc), I.st.pc):
                    if w is dd.UNDEF_V:
                        I.ub(g, 'comparison of an uninitialised iterator')
            return I.compare(op, l, r)
        if op == '+':
            if is_iter(T0):
                return advance(I, I.rval(A[0]), I.rval(A[1]))
            return advance(I, I.rval(A[1]), I.rval(A[0]))
        if op == '-':
            if is_iter(I.p.strip(A[1]['t'])):
                return I.ptr_diff(I.rval(A[0]), I.rval(A[1]))
            return advance(I, I.rval(A[0]), dd.neg(I.rval(A[1])))
        if op in ('+=', '-='):
            a = I.lval(A[0])
            n = I.rval(A[1])
            I.store(a, advance(I, I.load(a), n if op == '+=' else dd.neg(n)))
            return a
    if n0 == 'std::function' and op == '()':
        v = I.load(I.lval(A[0]))
        return I.call_value(v, A[1:], e)
    if n0 in ATOMICS and op in ('++', '--', '+=', '-='):
        a = I.lval(A[0])
        old = I.load(a)
        d = I.rval(A[1]) if op in ('+=', '-=') else dd.N1
        new = dd.add(old, d) if op[0] == '+' else dd.sub(old, d)
        I.store(a, new)
        return old if (op in ('++', '--') and len(A) == 2) else new
    import streams
    if op == '<<' and (n0 in STREAMS or n0.startswith('std::basic_o') or n0.startswith('std::basic_i')):
        return streams.insert(I, e, f, A)
    if op == '>>' and n0 in STREAMS:
        return streams.extract(I, e, f, A)
    if op == '!' and n0 in STREAMS:
        return streams.failed(I, I.lval(A[0]))
    if n0 in STREAMS and op == '=':
        raise Unsupported('stream assignment', I.cur_loc)
    if op in ('==', '!=', '<', '>', '<=', '>=', '+', '+='):
        r = streams.string_op(I, e, op, A)
        if r is not None:
            return r
    if op in ('==', '!=') and n0 in VECS + ('std::array', 'std::pair') + MAPS:
        r = I.split_many([I.lval(A[0]), I.lval(A[1])], lambda v: agg_equal(I, T0, v[0], v[1]))
        return r if op == '==' else NOT(r)
    if op in ('<', '>', '<=', '>=') and n0 == 'std::pair':
        a, b = I.lval(A[0]), I.lval(A[1])
        fa, fb = I.load(I.sub(a, 'first')), I.load(I.sub(b, 'first'))
        sa, sb = I.load(I.sub(a, 'second')), I.load(I.sub(b, 'second'))
        if op in ('>', '<='):
            fa, fb, sa, sb = fb, fa, sb, sa
        lt = OR(I.compare('<', fa, fb), AND(I.compare('==', fa, fb), I.compare('<', sa, sb)))
        return lt if op in ('<', '>') else NOT(lt)
    raise Unsupported('operator %s of %s' % (op, q), I.cur_loc)


def assign_tuple(I, dst, src, T0, AT):
    n = len(T0['a'][0]['p'])
    vals = []
    for i in range(n):
        if AT['n'] == 'std::pair':
            s = I.sub(src, 'first' if i == 0 else 'second')
        else:
            s = I.sub(src, i)
        vals.append(I.snapshot(s))
    for i in range(n):
        d = I.sub(dst, i)
        r = I._cell(Ptr(d.v.base, d.v.path + ('ref',))) if d.leaf else dd.UNDEF
        if r is not dd.UNDEF:
            d = r
        I.write_to(d, vals[i])
    return dst


def agg_equal(I, T, a, b):
    """element-wise equality of library aggregates at a, b"""
    n = T.get('n')
    if n in VECS or n == 'std::array':
        ET = etype(I, T)
        if n == 'std::array':
            ka = kb = num(array_info(I, T)[0])
        else:
            ka, kb = vsize(I, a), vsize(I, b)

        def go(v):
            x, y = I.as_int(v[0]), I.as_int(v[1])
            if x != y:
                return dd.FALSE
            return dd.ands([agg_equal(I, ET, elem(a, i), elem(b, i)) for i in range(x)])
        return I.split_many([ka, kb], go)
    if n == 'std::pair':
        return AND(agg_equal(I, etype(I, T, 0), Ptr(a.base, a.path + ('first',)), Ptr(b.base, b.path + ('first',))),
                   agg_equal(I, etype(I, T, 1), Ptr(a.base, a.path + ('second',)), Ptr(b.base, b.path + ('second',))))
    if I.is_plain(T):
        x, y = mat(I, leaf(a)), mat(I, leaf(b))
        if (x.r, x.c) != (y.r, y.c):
            return dd.FALSE
        return dd.ands([I.compare('==', p, q) for p, q in zip(x.d, y.d)])
    if not I.is_agg(T):
        return I.defined(I.compare('==', I.load(leaf(a)), I.load(leaf(b))))
    raise Unsupported('equality of %s' % T.get('s'), I.cur_loc)


# ---------------------------------------------------------------- constructors
def construct(I, T, f, args, p, e):
    """aggregate library object at p"""
    n = T['n']
    if n in VECS:
        return vec_construct(I, T, args, p, e)
    if n in MAPS:
        args = [a for a in args if I.p.strip(a['t']).get('n') in MAPS or is_iter(I.p.strip(a['t'])) or I.p.strip(a['t']).get('n') == 'std::initializer_list']
        if not args:
            return default_construct(I, T, p, False)
        if I.p.strip(args[0]['t']).get('n') in MAPS:
            src = I.lval(args[0])
            snap = I.snapshot(src)
            I.write_snapshot(p, snap)
            I._set(Ptr(p.base, p.path + ('#m',)), dd.N0)
            if args[0]['vc'] == 'x' and not I.T(args[0]['t']).get('const'):
                moved_from(I, src, leaf(p), T)
            return
        default_construct(I, T, p, False)
        if len(args) == 2:
            return iter_range(I, I.rval(args[0]), I.rval(args[1]), madd(I, p, T))
        if len(args) == 1:
            def go(v):
                n, a = il_parts(I, v)
                for i in range(n):
                    madd(I, p, T)(I.sub(a, i))
            return I.split(I.rval(args[0]), go)
        raise Unsupported('map constructor', I.cur_loc)
    if n == 'std::pair':
        if not args:
            return default_construct(I, T, p, True)
        return construct_args(I, T, p, args) if len(args) == 2 else I.write_snapshot(p, I.snapshot(I.lval(args[0])))
    if n == 'std::array':
        if not args:
            return default_construct(I, T, p, bool(e.get('zero') or e.get('list')))
        return I.write_snapshot(p, I.snapshot(I.lval(args[0])))
    if n == 'std::tuple':
        if len(args) == 1 and I.p.strip(args[0]['t']).get('n') == 'std::tuple':
            return I.write_snapshot(p, I.snapshot(I.lval(args[0])))
        for i, a in enumerate(args):
            construct_args(I, I.T(T['a'][0]['p'][i]['t']), Ptr(p.base, p.path + (i,)), [a])
        return
    if n == 'std::initializer_list':
        v = I.rval(args[0])
        return I.write_snapshot(p, I.snapshot(v))
    if n in STREAMS:
        import streams
        return streams.construct(I, T, args, p)
    if I.is_plain(T):
        return store_matrix(I, p, eigen.construct(I, T, args), T)
    raise Unsupported('constructor of %s' % n, I.cur_loc)


def construct_value(I, T, f, args, e):
    """scalar library value"""
    n = T.get('n', '')
    if I.is_eigen(T):
        return eigen.construct(I, T, args)
    if n == 'std::basic_string':
        import streams
        return streams.string_ctor(I, args)
    if n == 'std::ostream_iterator' and args and I.p.strip(args[0]['t']).get('n') != n:
        import streams
        return leaf(Obj('ositer', addr=streams.stream_addr(I, args[0]), et=I.T(T['a'][0]['t']), delim=I.rval(args[1]) if len(args) > 1 else None))
    if is_iter(T) or n in ('std::unique_ptr', 'std::shared_ptr', 'std::reverse_iterator'):
        args = [a for a in args if not (I.T(a['t'])['k'] == 'rec' and I.T(a['t'])['n'].startswith('std::allocator'))]
        if not args:
            return leaf(NULL) if n in ('std::unique_ptr', 'std::shared_ptr') else dd.UNDEF
        if I.T(args[0]['t'])['k'] == 'nullptr':
            return leaf(NULL)
        v = I.rval(args[0])
        if args[0]['vc'] == 'x' and n == 'std::unique_ptr':
            I.store(I.lval(args[0]), leaf(NULL))
        if n == 'std::unique_ptr' and len(args) > 1:
            # an owner that closes a C file: its writes are complete when the owner goes out of scope
            I.split(v, lambda w: isinstance(w, Ptr) and w.base and I.st.mem.get(w.base, {}).get(w.path + ('cfile',)) is not None
                    and I._set(Ptr(w.base, w.path + ('auto',)), dd.TRUE) or None)
        if n == 'std::reverse_iterator' and I.p.strip(args[0]['t']).get('n') != 'std::reverse_iterator':
            return map1(None, lambda w: leaf(RevIt(w)), step(I, v, -1))
        return v
    if n == 'std::function':
        if not args:
            return leaf(NULL)
        AT = I.p.strip(args[0]['t'])
        if AT.get('lambda'):
            a = I.lval(args[0]) if args[0]['vc'] != 'r' else I.rval(args[0])
            if not a.leaf:
                raise Unsupported('guarded closure', I.cur_loc)
            b = I.newbase(local=False)
            I.write_snapshot(Ptr(b, ()), I.snapshot(a))
            return leaf(Clo(b, (), AT['rid']))
        return I.rval(args[0])
    if n in ATOMICS:
        return I.rval(args[0]) if args else dd.N0
    if n in LOCKS or n.startswith('std::') or n.startswith('boost::') or n.startswith('google::'):
        for a in args:
            try:
                if a['vc'] in 'lx':
                    I.lval(a)
                else:
                    I.rval(a)
            except Unsupported:
                pass
        if len(args) == 1 and I.p.strip(args[0]['t']).get('n') == n:
            return I.rval(args[0])
        return leaf(Obj('lib', n=n))
    if len(args) == 1:
        return I.rval(args[0])
    raise Unsupported('constructor of %s' % T.get('s'), I.cur_loc)


@meth(ATOMICS, 'load', 'operator conv')
def _aload(I, e, f, x):
    return obj_value(I, e)


@meth(ATOMICS, 'store', 'operator=')
def _astore(I, e, f, x):
    I.store(objaddr(I, e), I.rval(e['a'][0]))


@meth(ATOMICS, 'fetch_add', 'fetch_sub', 'exchange', 'operator++', 'operator--')
def _afetch(I, e, f, x):
    a = objaddr(I, e)
    old = I.load(a)
    n = f['q'].split('::')[-1]
    if n == 'exchange':
        I.store(a, I.rval(e['a'][0]))
        return old
    d = I.rval(e['a'][0]) if n.startswith('fetch') else dd.N1
    new = dd.add(old, d) if n in ('fetch_add', 'operator++') else dd.sub(old, d)
    I.store(a, new)
    return old if n.startswith('fetch') or e['a'] else new


def stream_init(I, p, n):
    import streams
    streams.init(I, p, n)


def attach():
    import streams
    streams.register(FN, METH)
