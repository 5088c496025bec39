"""Abstract semantics of the Eigen operations: matrices of guarded value numbers."""
from fractions import Fraction
import dd
import poly as P
from poly import R
from dd import leaf, num, ite, AND, OR, NOT, restrict, map1, map2, guards, cmp
from interp import Ptr, Unsupported, MatVal, MatRef, Obj, EIGEN_PLAIN


def isnode(v):
    return isinstance(v, (dd.Leaf, dd.Br))


def targ(T, i):
    a = T['a'][i]
    if 'i' in a:
        return int(a['i'])
    return None


def tdims(T):
    """compile-time (rows, cols), -1 dynamic"""
    r, c = targ(T, 1), targ(T, 2)
    return r, c


def rowmajor(T):
    try:
        o = targ(T, 3)
        return bool(o & 1) if o is not None else False
    except (IndexError, KeyError, TypeError):
        return False


def plain_of(I, T):
    """plain matrix type behind Map/Ref/Block/..., or None"""
    if I.is_plain(T):
        return T
    if T['k'] == 'rec' and T.get('a') and 't' in T['a'][0]:
        X = I.T(T['a'][0]['t'])
        if X['k'] == 'rec' and X['n'].startswith('Eigen::'):
            return plain_of(I, X)
    return None


def unit_stride(T):
    return T['n'] == 'Eigen::Stride' and [x.get('i') for x in T['a'][:2]] in ([0, 0], ['0', '0'])


def undef(I, T):
    r, c = tdims(T)
    r, c = max(r, 0), max(c, 0)
    if tdims(T)[0] < 0 and tdims(T)[1] == 1:
        return MatVal(0, 1, [])
    if tdims(T)[1] < 0 and tdims(T)[0] == 1:
        return MatVal(1, 0, [])
    return MatVal(r, c, [dd.UNDEF] * (r * c))


def el(p, i, j):
    return Ptr(p.base, p.path + (('e', i, j),))


def view_at(I, p):
    """view of the matrix object at Ptr p"""
    m = I.st.mem.get(p.base, {})
    o = m.get(p.path)
    if o is not None:
        o = restrict(o, I.st.pc)
        if o.leaf and isinstance(o.v, (MatVal, MatRef)):
            return o.v
        if not o.leaf:
            return merge_views(I, o)
        if o.leaf and isinstance(o.v, Ptr):
            return view_at(I, o.v)
    rn, cn = m.get(p.path + ('R',)), m.get(p.path + ('C',))
    if rn is None or cn is None:
        raise Unsupported('not a matrix object', I.cur_loc)
    rn, cn = restrict(rn, I.st.pc), restrict(cn, I.st.pc)
    if not rn.leaf or not cn.leaf:
        raise Unsupported('matrix of guarded size', I.cur_loc)
    r, c = int(rn.v.c), int(cn.v.c)
    return MatRef(r, c, [leaf(el(p, i, j)) for i in range(r) for j in range(c)])


def merge_views(I, node):
    out = None
    for v, g in guards(node, I.st.pc):
        if isinstance(v, Ptr):
            if v.base == 0:
                I.ub(g, 'null matrix pointer')
                continue
            x = view_at(I, v)
        elif isinstance(v, (MatVal, MatRef)):
            x = v
        else:
            if v is dd.UNDEF_V:
                I.ub(g, 'use of an uninitialised matrix reference')
                continue
            raise Unsupported('matrix of kind %r' % (v,), I.cur_loc)
        if out is None:
            out = x
        else:
            if type(out) is not type(x):
                out, x = mat(I, out), mat(I, x)
            if (out.r, out.c) != (x.r, x.c):
                raise Unsupported('join of matrices of different size', I.cur_loc)
            c = restrict(g, I.st.pc)
            out = type(out)(x.r, x.c, [ite(c, a, b) for a, b in zip(x.d, out.d)])
    if out is None:
        from interp import Dead
        raise Dead()
    return out


def view(I, v):
    """MatRef (or MatVal for pure values)"""
    if isinstance(v, (MatVal, MatRef)):
        return v
    if isnode(v):
        v = restrict(v, I.st.pc)
        if v.leaf:
            if isinstance(v.v, (MatVal, MatRef)):
                return v.v
            if isinstance(v.v, Ptr):
                I.check_base(v)
                return view_at(I, v.v)
        else:
            return merge_views(I, v)
    raise Unsupported('matrix operand %r' % (v,), I.cur_loc)


def mat(I, v):
    x = view(I, v)
    if isinstance(x, MatRef):
        return MatVal(x.r, x.c, [I.load(a) for a in x.d])
    return x


def store_matrix(I, p, v, T):
    """v into the plain matrix object of type T at p (resizing)"""
    v = mat(I, v)
    r, c = tdims(T)
    vr, vc = v.r, v.c
    if (r == 1 and vr != 1 and vc == 1 and c != 1) or (c == 1 and vc != 1 and vr == 1 and r != 1):
        vr, vc = vc, vr           # vectors may be assigned across orientation
    if (r >= 0 and vr != r) or (c >= 0 and vc != c):
        I.ub(dd.TRUE, 'matrix of size %dx%d assigned to a %dx%d matrix' % (vr, vc, r, c))
    I.erase(p)
    m = I.st.w(p.base)
    m[p.path + ('R',)] = num(vr)
    m[p.path + ('C',)] = num(vc)
    k = 0
    for i in range(vr):
        for j in range(vc):
            m[p.path + (('e', i, j),)] = v.d[k]
            k += 1


def write_view(I, x, v):
    """assign value v to the non-resizable view x"""
    v = mat(I, v)
    if not isinstance(x, MatRef):
        raise Unsupported('assignment to a matrix value', I.cur_loc)
    if (x.r, x.c) != (v.r, v.c):
        if not (x.r * x.c == v.r * v.c and 1 in (x.r, x.c) and 1 in (v.r, v.c)):
            I.ub(dd.TRUE, 'matrix of size %dx%d assigned to a %dx%d block' % (v.r, v.c, x.r, x.c))
    for a, y in zip(x.d, v.d):
        I.store(a, y)


def assign(I, dst, v, T):
    """dst: lvalue node of an Eigen object of static type T"""
    v = mat(I, v)
    if isnode(dst) and plain_object(I, dst):
        for p, g in guards(restrict(dst, I.st.pc), I.st.pc):
            x = view_at(I, p)
            PT = T if I.is_plain(T) else None
            if (x.r, x.c) == (v.r, v.c):
                write_view(I, x, v)
            elif PT is not None and dst_leaf(I, dst):
                store_matrix(I, p, v, PT)
            elif x.r * x.c == v.r * v.c and 1 in (x.r, x.c) and 1 in (v.r, v.c):
                write_view(I, x, v)
            elif PT is None and dst_leaf(I, dst):
                # through MatrixBase<Derived>&: derived plain type decides
                D = plain_of(I, T)
                if D is not None:
                    store_matrix(I, p, v, D)
                else:
                    I.ub(dd.TRUE, 'matrix size mismatch in assignment')
            else:
                raise Unsupported('resizing assignment through a guarded reference', I.cur_loc)
        return dst
    write_view(I, view(I, dst), v)
    return dst


def dst_leaf(I, dst):
    return restrict(dst, I.st.pc).leaf


def plain_object(I, dst):
    dst = restrict(dst, I.st.pc)
    for v in dd.leaves(dst):
        if not isinstance(v, Ptr):
            return False
        m = I.st.mem.get(v.base, {})
        if v.path + ('R',) not in m:
            return False
    return True


# ---------------------------------------------------------------- values
def const_mat(r, c, x):
    return MatVal(r, c, [x] * (r * c))


def ident(r, c):
    return MatVal(r, c, [dd.N1 if i == j else dd.N0 for i in range(r) for j in range(c)])


def transpose(v):
    return type(v)(v.c, v.r, [v.d[i * v.c + j] for j in range(v.c) for i in range(v.r)])


def sub_block(I, v, i, j, r, c):
    if i < 0 or j < 0 or r < 0 or c < 0 or i + r > v.r or j + c > v.c:
        I.ub(dd.TRUE, 'block (%d,%d) of size %dx%d outside a %dx%d matrix' % (i, j, r, c, v.r, v.c))
    return type(v)(r, c, [v.d[(i + a) * v.c + (j + b)] for a in range(r) for b in range(c)])


def zipmap(I, a, b, f):
    a, b = mat(I, a), mat(I, b)
    if (a.r, a.c) != (b.r, b.c):
        I.ub(dd.TRUE, 'matrix operands of size %dx%d and %dx%d' % (a.r, a.c, b.r, b.c))
    return MatVal(a.r, a.c, [f(x, y) for x, y in zip(a.d, b.d)])


def matmul(I, a, b):
    if a.c != b.r:
        I.ub(dd.TRUE, 'matrix product of size %dx%d and %dx%d' % (a.r, a.c, b.r, b.c))
    out = []
    for i in range(a.r):
        for j in range(b.c):
            s = dd.N0
            for k in range(a.c):
                s = dd.add(s, dd.mul(a.at(i, k), b.at(k, j)))
            out.append(s)
    return MatVal(a.r, b.c, out)


def fold(xs, f, init):
    r = init
    for x in xs:
        r = f(r, x)
    return r


def dot(I, a, b):
    if len(a.d) != len(b.d):
        I.ub(dd.TRUE, 'dot product of vectors of size %d and %d' % (len(a.d), len(b.d)))
    return fold([dd.mul(x, y) for x, y in zip(a.d, b.d)], dd.add, dd.N0)


DECOMP = {'colPivHouseholderQr': 'lsq', 'fullPivHouseholderQr': 'lsq', 'jacobiSvd': 'lsq', 'bdcSvd': 'lsq',
          'completeOrthogonalDecomposition': 'lsq', 'fullPivLu': 'any', 'householderQr': 'reg', 'partialPivLu': 'reg',
          'lu': 'reg', 'ldlt': 'sym', 'llt': 'sym'}
DECOMP_T = {'Eigen::ColPivHouseholderQR': 'lsq', 'Eigen::FullPivHouseholderQR': 'lsq', 'Eigen::JacobiSVD': 'lsq',
            'Eigen::BDCSVD': 'lsq', 'Eigen::CompleteOrthogonalDecomposition': 'lsq', 'Eigen::FullPivLU': 'any',
            'Eigen::HouseholderQR': 'reg', 'Eigen::PartialPivLU': 'reg', 'Eigen::LDLT': 'sym', 'Eigen::LLT': 'sym'}


def solve(I, kind, A, b):
    """opaque value numbers for the solution of A x = b (hash-consed by content)"""
    if A.r != b.r:
        I.ub(dd.TRUE, 'linear system with %d rows and a right-hand side of %d' % (A.r, b.r))
    pc = I.st.pc
    ad = [restrict(x, pc) for x in A.d]
    bd = [restrict(x, pc) for x in b.d]
    bad_u, bad_n = dd.FALSE, dd.FALSE
    for x in ad + bd:
        for v in dd.leaves(x):
            if v is dd.UNDEF_V:
                bad_u = OR(bad_u, map1(None, lambda w: dd.TRUE if w is dd.UNDEF_V else dd.FALSE, x))
            elif v is dd.NAN_V:
                bad_n = OR(bad_n, map1(None, lambda w: dd.TRUE if w is dd.NAN_V else dd.FALSE, x))
    key = (kind, A.r, A.c, b.c, tuple(x.id for x in ad), tuple(x.id for x in bd))
    s = I.solve_tab.get(key)
    if s is None:
        n = len(I.solves)
        syms = [P.sym('x%d_%d_%d' % (n, i, j), 'solve', (n, i, j)) for i in range(A.c) for j in range(b.c)]
        s = dict(kind=kind, r=A.r, c=A.c, k=b.c, A=ad, b=bd, syms=syms, loc=I.cur_loc)
        I.solves.append(s)
        I.solve_tab[key] = s
    out = []
    for y in s['syms']:
        v = leaf(P.var(y))
        if bad_n is not dd.FALSE:
            v = ite(bad_n, dd.NAN, v)
        if bad_u is not dd.FALSE:
            v = ite(bad_u, dd.UNDEF, v)
        out.append(v)
    return MatVal(A.c, b.c, out)


# ---------------------------------------------------------------- construction
def is_decomp(T):
    return T['k'] == 'rec' and T['n'] in DECOMP_T


def construct(I, T, args):
    n = T['n']
    if n in EIGEN_PLAIN:
        return construct_plain(I, T, args)
    if n in DECOMP_T:
        if not args:
            return leaf(Obj('dec', m='dec', dk=DECOMP_T[n], A=None))
        A = I.rval(args[0])
        if I.p.strip(args[0]['t'])['k'] != 'rec':
            return leaf(Obj('dec', m='dec', dk=DECOMP_T[n], A=None))
        if isnode(A) and A.leaf and isinstance(A.v, Obj):
            return A
        return leaf(Obj('dec', m='dec', dk=DECOMP_T[n], A=mat(I, A)))
    if n == 'Eigen::Map':
        PT = plain_of(I, T)
        r, c = tdims(PT)
        AT = I.p.strip(args[0]['t'])
        if AT['k'] == 'rec':
            return view(I, I.rval(args[0]))
        ptr = I.rval(args[0])
        dims = [I.cint(I.rval(a), 'map size') for a in args[1:] if I.p.strip(a['t'])['k'] in ('int', 'enum')]
        if len(dims) == 2:
            rr, cc = dims
        elif len(dims) == 1:
            rr, cc = (dims[0], 1) if c == 1 else (1, dims[0])
        else:
            rr, cc = r, c
        if (r >= 0 and rr != r) or (c >= 0 and cc != c):
            I.ub(dd.TRUE, 'map of size %dx%d for a %dx%d type' % (rr, cc, r, c))
        if any(I.p.strip(a['t'])['k'] == 'rec' and not unit_stride(I.p.strip(a['t'])) for a in args[1:]):
            raise Unsupported('strided map', I.cur_loc)
        rm = rowmajor(PT)
        d = []
        for i in range(rr):
            for j in range(cc):
                k = i * cc + j if rm else j * rr + i
                d.append(I.ptr_add(ptr, num(k)))
        check_extent(I, d)
        return MatRef(rr, cc, d)
    if n in ('Eigen::Ref', 'Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Transpose', 'Eigen::NoAlias', 'Eigen::ArrayWrapper',
             'Eigen::MatrixWrapper', 'Eigen::Diagonal'):
        if n in ('Eigen::Block', 'Eigen::VectorBlock') and len(args) > 1:
            v = view(I, I.rval(args[0]))
            ix = [I.cint(I.rval(a)) for a in args[1:]]
            if len(ix) == 4:
                return sub_block(I, v, *ix)
            raise Unsupported('block constructor', I.cur_loc)
        return view(I, I.rval(args[0]))
    if len(args) == 1:
        return mat(I, I.rval(args[0]))
    raise Unsupported('Eigen constructor of %s' % T.get('s'), I.cur_loc)


def check_extent(I, d):
    """UB unless every mapped address lies in its array"""
    import lib
    for a in d:
        for v, g in guards(restrict(a, I.st.pc), I.st.pc):
            if isinstance(v, Ptr):
                if v.base == 0:
                    I.ub(g, 'map of a null pointer')
                elif v.base not in I.st.mem:
                    I.ub(g, 'map of an array after its lifetime ended')
                elif v.path and isinstance(v.path[-1], int):
                    lib.bounds(I, v, g)
            elif v is dd.UNDEF_V:
                I.ub(g, 'map of an uninitialised pointer')


def construct_plain(I, T, args):
    r, c = tdims(T)
    if not args:
        return undef(I, T)
    ts = [I.p.strip(a['t']) for a in args]
    if len(args) == 1:
        t = ts[0]
        if t['k'] == 'rec' and t['n'] == 'std::initializer_list':
            src = I.rval(args[0])
            if not src.leaf:
                raise Unsupported('guarded initialiser list', I.cur_loc)
            n = I.cint(I._cell(Ptr(src.v.base, src.v.path + ('#',))))
            a = I._cell(Ptr(src.v.base, src.v.path + ('#p',)))
            it = I.T(t['a'][0]['t'])
            if it['k'] == 'rec':
                raise Unsupported('nested initialiser list', I.cur_loc)
            vals = [I.tonum(I.load(I.sub(a, i))) for i in range(n)]
            return MatVal(1, n, vals) if r == 1 else MatVal(n, 1, vals)
        if t['k'] == 'rec':
            v = I.rval(args[0])
            if isnode(v) and v.leaf and isinstance(v.v, Obj):
                if v.v.kind == 'comma':
                    return mat(I, v.v.view)
                raise Unsupported('matrix from %s' % v.v.kind, I.cur_loc)
            return mat(I, v)
        if t['k'] in ('int', 'enum'):
            if r >= 0 and c >= 0:
                if r * c == 1:
                    return MatVal(r, c, [I.tonum(I.rval(args[0]))])
                n = I.cint(I.rval(args[0]), 'size')
                return MatVal(r, c, [dd.UNDEF] * (r * c))
            n = I.cint(I.rval(args[0]), 'matrix size')
            if n < 0 or n > 100000:
                I.ub(dd.TRUE, 'matrix of size %d' % n)
            return MatVal(n, 1, [dd.UNDEF] * n) if c == 1 else MatVal(1, n, [dd.UNDEF] * n) if r == 1 else MatVal(n, n, [dd.UNDEF] * n * n)
        if t['k'] == 'float':
            return MatVal(max(r, 1), max(c, 1), [I.rval(args[0])] * (max(r, 1) * max(c, 1)))
        if t['k'] == 'ptr':
            p = I.rval(args[0])
            rm = rowmajor(T)
            return MatVal(r, c, [I.load(I.ptr_add(p, num(i * c + j if rm else j * r + i))) for i in range(r) for j in range(c)])
        raise Unsupported('matrix constructor', I.cur_loc)
    if len(args) == 2 and r < 0 or (len(args) == 2 and c < 0):
        a, b = I.cint(I.rval(args[0]), 'rows'), I.cint(I.rval(args[1]), 'cols')
        if a < 0 or b < 0 or a > 100000 or b > 100000:
            I.ub(dd.TRUE, 'matrix of size %dx%d' % (a, b))
        return MatVal(a, b, [dd.UNDEF] * (a * b))
    vals = [I.tonum(I.rval(a)) for a in args]
    if r * c != len(vals):
        if len(vals) == 2 and all(x.leaf for x in vals):
            return undef(I, T)
        I.ub(dd.TRUE, 'matrix constructor with %d coefficients' % len(vals))
    return MatVal(r, c, vals)


def call_dims(I, T, args):
    """dims for static factories / setZero(...)"""
    ix = [I.cint(I.rval(a), 'size') for a in args if I.p.strip(a['t'])['k'] in ('int', 'enum')]
    for x in ix:
        if x < 0 or x > 100000:
            I.ub(dd.TRUE, 'matrix size %d' % x)
    r, c = tdims(T)
    if len(ix) == 2:
        return ix[0], ix[1]
    if len(ix) == 1:
        return (1, ix[0]) if r == 1 and c != 1 else (ix[0], 1)
    return max(r, 0), max(c, 0)


def static_call(I, e, f, args):
    name = f['q'].split('::')[-1]
    T = I.T(e['t'])
    PT = plain_of(I, T)
    if name in ('Zero', 'Ones', 'Identity', 'Constant', 'Random', 'UnitX', 'UnitY', 'UnitZ', 'Unit', 'LinSpaced'):
        # result type is CwiseNullaryOp<..., Plain>
        if PT is None:
            for a in T.get('a') or []:
                if 't' in a:
                    X = I.T(a['t'])
                    if X['k'] == 'rec' and plain_of(I, X) is not None:
                        PT = plain_of(I, X)
        if PT is None and f.get('rec') is not None:
            PT = plain_of(I, I.T(f['rec']))
        if PT is None:
            raise Unsupported('Eigen factory %s' % name, I.cur_loc)
        if name == 'Constant':
            r, c = call_dims(I, PT, args[:-1])
            return const_mat(r, c, I.tonum(I.rval(args[-1])))
        if name.startswith('Unit'):
            r, c = tdims(PT)
            k = {'UnitX': 0, 'UnitY': 1, 'UnitZ': 2}.get(name)
            if k is None:
                ix = [I.cint(I.rval(a)) for a in args]
                k = ix[-1]
                if len(ix) == 2:
                    r, c = (ix[0], 1) if c == 1 else (1, ix[0])
            return MatVal(r, c, [dd.N1 if i == k else dd.N0 for i in range(r * c)])
        r, c = call_dims(I, PT, args)
        if name == 'Zero':
            return const_mat(r, c, dd.N0)
        if name == 'Ones':
            return const_mat(r, c, dd.N1)
        if name == 'Identity':
            return ident(r, c)
    if name == 'Map':
        return construct(I, T, args)
    if name in ('RowsAtCompileTime', 'ColsAtCompileTime'):
        pass
    raise Unsupported('Eigen function %s' % f['q'], I.cur_loc)


# ---------------------------------------------------------------- methods
def base_of(I, e):
    b = e['b']
    if e.get('arrow'):
        return I.rval(b)
    if b['vc'] == 'r':
        return I.rval(b)
    return I.lval(b)


def as_lvalue(I, e, v):
    """result v (value node) of an expression that may be expected as an address"""
    if e['vc'] in 'lx':
        return I.materialise(v, {'k': 'float'})
    return v


def element(I, e, x, idx, what='matrix index'):
    """x: view; idx: list of index nodes"""
    def addr(vals):
        ks = []
        for v in vals:
            if not isinstance(v, R) or v.c is None:
                if v is dd.UNDEF_V:
                    I.ub(dd.TRUE, 'uninitialised index')
                raise Unsupported('symbolic matrix index', I.cur_loc)
            k = int(v.c)
            ks.append(k - (1 << 64) if k >= 1 << 63 else k)
        if len(ks) == 1:
            if x.c == 1:
                i, j = ks[0], 0
            elif x.r == 1:
                i, j = 0, ks[0]
            elif x.r * x.c == 0:
                i, j = ks[0], 0
            else:
                i, j = ks[0] % x.r, ks[0] // x.r
        else:
            i, j = ks
        if not (0 <= i < x.r and 0 <= j < x.c):
            I.ub(dd.TRUE, '%s (%s) outside a %dx%d matrix' % (what, ','.join(map(str, ks)), x.r, x.c))
        a = x.at(i, j)
        if isinstance(x, MatRef):
            return a if e['vc'] in 'lx' else I.load(a)
        return as_lvalue(I, e, a)
    return I.split_many([I.tonum(i) for i in idx], addr)


def method_call(I, e, f, x):
    name = f['q'].split('::')[-1]
    A = e['a']
    b = base_of(I, e)
    BT = I.p.strip(e['b']['t'])
    if e.get('arrow') and BT['k'] == 'ptr':
        BT = I.T(BT['e'])
    # opaque objects
    o = None
    if isnode(b):
        rb = restrict(b, I.st.pc)
        if rb.leaf and isinstance(rb.v, Obj):
            o = rb.v
        elif rb.leaf and isinstance(rb.v, Ptr):
            cell = I.st.mem.get(rb.v.base, {}).get(rb.v.path)
            if cell is not None and cell.leaf and isinstance(cell.v, Obj):
                o = cell.v
    if o is not None:
        return obj_method(I, e, f, name, o, b)
    if name in ('derived', 'const_cast_derived', 'const_derived', 'noalias', 'array', 'matrix', 'eval', 'real', 'finished',
                'nestedExpression', 'cast', 'nestByValue', 'conjugate', 'base'):
        if name == 'eval':
            return mat(I, b)
        if isnode(b):
            return b if e['vc'] in 'lx' or name in ('noalias', 'array', 'matrix') and not isnode(b) else view(I, b)
        return b
    if name.startswith('operator'):
        op = name[len('operator'):]
        return operator_on(I, e, f, op, [b] + [None] * len(A), [None] + A, BT)
    v = view(I, b)
    if name in ('rows', 'cols', 'size', 'nonZeros', 'innerSize', 'outerSize', 'rowStride', 'colStride'):
        if name == 'rows':
            return num(v.r)
        if name == 'cols':
            return num(v.c)
        if name == 'size':
            return num(v.r * v.c)
        raise Unsupported(name, I.cur_loc)
    if name in ('x', 'y', 'z', 'w'):
        return element(I, e, v, [num('xyzw'.index(name))])
    if name in ('coeff', 'coeffRef', 'value'):
        if name == 'value':
            return as_lvalue(I, e, mat(I, v).d[0])
        return element(I, e, v, [I.rval(a) for a in A])
    if name == 'data':
        if isinstance(v, MatRef) and v.d:
            return v.d[0]
        raise Unsupported('data()', I.cur_loc)
    if name in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity', 'resize', 'conservativeResize', 'setUnit'):
        return mutate(I, e, f, name, b, v, BT, A)
    if name in ('segment', 'head', 'tail', 'block', 'row', 'col', 'topRows', 'bottomRows', 'leftCols', 'rightCols',
                'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'middleRows', 'middleCols'):
        return sub_view(I, e, f, name, v, A)
    if name == 'transpose' or name == 'adjoint':
        return transpose(v)
    if name == 'diagonal':
        k = min(v.r, v.c)
        return type(v)(k, 1, [v.at(i, i) for i in range(k)])
    if name == 'asDiagonal':
        w = mat(I, v)
        n = len(w.d)
        return MatVal(n, n, [w.d[i] if i == j else dd.N0 for i in range(n) for j in range(n)])
    if name == 'reshaped':
        raise Unsupported('reshaped', I.cur_loc)
    w = mat(I, v)
    if name in DECOMP:
        return leaf(Obj('dec', m=name, dk=DECOMP[name], A=w))
    if name == 'inverse':
        return solve(I, 'reg', w, ident(w.r, w.r))
    if name == 'dot':
        return dot(I, w, mat(I, I.rval(A[0])))
    if name == 'cross':
        u = mat(I, I.rval(A[0]))
        a, c = w.d, u.d
        s = [dd.sub(dd.mul(a[1], c[2]), dd.mul(a[2], c[1])), dd.sub(dd.mul(a[2], c[0]), dd.mul(a[0], c[2])),
             dd.sub(dd.mul(a[0], c[1]), dd.mul(a[1], c[0]))]
        return MatVal(w.r, w.c, s)
    if name == 'squaredNorm':
        return dot(I, w, w)
    if name in ('norm', 'stableNorm', 'blueNorm'):
        import lib
        return lib.unary_fn('sqrt', dot(I, w, w), lib.ex_sqrt)
    if name in ('normalized', 'normalize'):
        import lib
        n = lib.unary_fn('sqrt', dot(I, w, w), lib.ex_sqrt)
        z = MatVal(w.r, w.c, [dd.div(a, n) for a in w.d])
        if name == 'normalize':
            write_view(I, v, z)
            return None
        return z
    if name == 'sum':
        return fold(w.d, dd.add, dd.N0)
    if name == 'prod':
        return fold(w.d, dd.mul, dd.N1)
    if name == 'mean':
        return dd.div(fold(w.d, dd.add, dd.N0), num(len(w.d)))
    if name == 'trace':
        return fold([w.at(i, i) for i in range(min(w.r, w.c))], dd.add, dd.N0)
    if name in ('minCoeff', 'maxCoeff'):
        if A:
            raise Unsupported(name + ' with index', I.cur_loc)
        op = '<' if name == 'minCoeff' else '>'
        if not w.d:
            I.ub(dd.TRUE, name + ' of an empty matrix')
        return fold(w.d[1:], lambda r, y: ite(I.defined(I.compare(op, y, r)), y, r), w.d[0])
    if name in ('cwiseProduct',):
        return zipmap(I, w, I.rval(A[0]), dd.mul)
    if name in ('cwiseQuotient',):
        return zipmap(I, w, I.rval(A[0]), dd.div)
    if name in ('cwiseMin', 'cwiseMax'):
        op = '<' if name == 'cwiseMin' else '>'
        return zipmap(I, w, I.rval(A[0]), lambda p, q: ite(I.defined(I.compare(op, q, p)), q, p))
    if name in ('cwiseAbs', 'abs'):
        import lib
        return MatVal(w.r, w.c, [lib.node_abs(a) for a in w.d])
    if name in ('cwiseInverse',):
        return MatVal(w.r, w.c, [dd.div(dd.N1, a) for a in w.d])
    if name in ('cwiseAbs2', 'square', 'abs2'):
        return MatVal(w.r, w.c, [dd.mul(a, a) for a in w.d])
    if name in ('cube',):
        return MatVal(w.r, w.c, [dd.mul(a, dd.mul(a, a)) for a in w.d])
    if name == 'reverse':
        return MatVal(w.r, w.c, list(reversed(w.d)))
    if name == 'replicate':
        raise Unsupported(name, I.cur_loc)
    if name in ('allFinite',):
        bad = dd.ors([map1(None, lambda q: dd.TRUE if q is dd.NAN_V else dd.FALSE, a) for a in w.d])
        return NOT(bad)
    if name == 'hasNaN':
        return dd.ors([map1(None, lambda q: dd.TRUE if q is dd.NAN_V else dd.FALSE, a) for a in w.d])
    if name == 'isZero':
        return dd.ands([I.defined(I.compare('==', a, dd.N0)) for a in w.d])
    if name == 'isApprox':
        u = mat(I, I.rval(A[0]))
        return dd.ands([I.defined(I.compare('==', p, q)) for p, q in zip(w.d, u.d)])
    if name == 'determinant':
        return det(w)
    if name in ('all',):
        return dd.ands([I.tobool(a) for a in w.d])
    if name in ('any',):
        return dd.ors([I.tobool(a) for a in w.d])
    if name == 'swap':
        u = view(I, I.lval(A[0]))
        y = mat(I, u)
        if plain_object(I, b) and (w.r, w.c) != (y.r, y.c):
            assign(I, b, y, BT)
            assign(I, I.lval(A[0]), w, I.p.strip(A[0]['t']))
            return None
        write_view(I, v, y)
        write_view(I, u, w)
        return None
    raise Unsupported('Eigen method %s' % f['q'], I.cur_loc)


def det(w):
    n = w.r
    if n == 1:
        return w.d[0]
    s = dd.N0
    for j in range(n):
        m = MatVal(n - 1, n - 1, [w.at(i, k) for i in range(1, n) for k in range(n) if k != j])
        t = dd.mul(w.at(0, j), det(m))
        s = dd.add(s, t) if j % 2 == 0 else dd.sub(s, t)
    return s


def tmpl_ints(f):
    return [int(a['i']) for a in (f.get('a') or []) if isinstance(a, dict) and 'i' in a]


def sub_view(I, e, f, name, v, A):
    ix = [I.rval(a) for a in A]
    ti = tmpl_ints(f)

    def go(vals):
        k = []
        for y in vals:
            n = I.as_int(y, 'block index')
            k.append(n - (1 << 64) if n >= 1 << 63 else n)
        # int/unsigned conversions
        def vec(i, n):
            if v.r == 1 and v.c != 1 or (v.r == 1 and v.c == 1):
                return sub_block(I, v, 0, i, 1, n) if v.r == 1 else sub_block(I, v, i, 0, n, 1)
            return sub_block(I, v, i, 0, n, 1)
        L = v.r * v.c
        if name == 'segment':
            return vec(k[0], k[1] if len(k) > 1 else ti[0])
        if name == 'head':
            return vec(0, k[0] if k else ti[0])
        if name == 'tail':
            n = k[0] if k else ti[0]
            return vec(L - n, n)
        if name == 'block':
            if len(k) == 4:
                return sub_block(I, v, *k)
            return sub_block(I, v, k[0], k[1], ti[0], ti[1])
        if name == 'row':
            return sub_block(I, v, k[0], 0, 1, v.c)
        if name == 'col':
            return sub_block(I, v, 0, k[0], v.r, 1)
        n = k[0] if k else (ti[0] if ti else 0)
        if name == 'topRows':
            return sub_block(I, v, 0, 0, n, v.c)
        if name == 'bottomRows':
            return sub_block(I, v, v.r - n, 0, n, v.c)
        if name == 'leftCols':
            return sub_block(I, v, 0, 0, v.r, n)
        if name == 'rightCols':
            return sub_block(I, v, 0, v.c - n, v.r, n)
        if name == 'middleRows':
            return sub_block(I, v, k[0], 0, k[1] if len(k) > 1 else ti[0], v.c)
        if name == 'middleCols':
            return sub_block(I, v, 0, k[0], v.r, k[1] if len(k) > 1 else ti[0])
        a, b = (k if len(k) == 2 else ti[:2])
        if name == 'topLeftCorner':
            return sub_block(I, v, 0, 0, a, b)
        if name == 'topRightCorner':
            return sub_block(I, v, 0, v.c - b, a, b)
        if name == 'bottomLeftCorner':
            return sub_block(I, v, v.r - a, 0, a, b)
        return sub_block(I, v, v.r - a, v.c - b, a, b)
    return I.split_many(ix, go)


def mutate(I, e, f, name, b, v, BT, A):
    PT = plain_of(I, BT) or BT
    plain = isnode(b) and plain_object(I, b)

    def result():
        return b if isnode(b) else v
    if name in ('setConstant', 'fill'):
        val = I.tonum(I.rval(A[-1]))
        dims = A[:-1]
    else:
        val = dd.N0 if name == 'setZero' else dd.N1
        dims = A
    if name in ('resize', 'conservativeResize'):
        if not plain:
            raise Unsupported('resize of a view', I.cur_loc)
        r, c = call_dims(I, PT, dims)
        if len(dims) < 2 and tdims(PT)[0] < 0 and tdims(PT)[1] < 0:
            raise Unsupported('resize', I.cur_loc)
        if len(dims) == 1 and tdims(PT)[1] > 1:
            raise Unsupported('resize', I.cur_loc)
        if (r, c) == (v.r, v.c):
            return None
        w = mat(I, v)
        d = [w.at(i, j) if name == 'conservativeResize' and i < w.r and j < w.c else dd.UNDEF for i in range(r) for j in range(c)]
        assign(I, b, MatVal(r, c, d), PT)
        return None
    if dims:
        r, c = call_dims(I, PT, dims)
    else:
        r, c = v.r, v.c
    if name == 'setIdentity':
        z = ident(r, c)
    else:
        z = const_mat(r, c, val)
    if plain:
        assign(I, b, z, PT)
    else:
        write_view(I, v, z)
    return result()


def obj_method(I, e, f, name, o, b):
    A = e['a']
    if o.kind == 'dec':
        if name == 'solve':
            if o.A is None:
                I.ub(dd.TRUE, 'solve before compute')
            r = mat(I, I.rval(A[0]))
            kind = o.dk
            return solve(I, kind, o.A, r)
        if name == 'inverse':
            return solve(I, 'reg', o.A, ident(o.A.r, o.A.r))
        if name == 'compute':
            n = leaf(Obj('dec', m=o.m, dk=o.dk, A=mat(I, I.rval(A[0]))))
            if isnode(b) and b.leaf and isinstance(b.v, Ptr):
                I._set(b.v, n)
                return b
            return I.materialise(n, {'k': 'other'}) if e['vc'] in 'lx' else n
        if name == 'setThreshold':
            return b
        raise Unsupported('decomposition method %s' % name, I.cur_loc)
    if o.kind == 'comma':
        if name == 'finished':
            if o.k != o.view.r * o.view.c:
                I.ub(dd.TRUE, 'comma initialiser with too few coefficients')
            return o.addr if e['vc'] in 'lx' and o.addr is not None else o.view
        if name == 'operator,':
            return comma_next(I, e, b, o, A[0])
    raise Unsupported('method %s of %s' % (name, o.kind), I.cur_loc)


# ---------------------------------------------------------------- comma initialiser
def comma_put(I, o, v):
    """place scalar node or MatVal; returns the successor object"""
    view_ = o.view
    row, col, bh = o.row, o.col, o.bh
    if isnode(v):
        v = MatVal(1, 1, [v])
    if v.r * v.c == 0:
        return o
    if col == view_.c and not (o.k == 0):
        row += bh
        col = 0
        bh = v.r
    if o.k == 0:
        bh = v.r
    if row + v.r > view_.r or col + v.c > view_.c or (col > 0 and v.r != bh):
        I.ub(dd.TRUE, 'comma initialiser with too many coefficients')
    for i in range(v.r):
        for j in range(v.c):
            I.store(view_.at(row + i, col + j), v.at(i, j))
    return Obj('comma', view=view_, addr=o.addr, row=row, col=col + v.c, bh=bh, k=o.k + v.r * v.c)


def comma_value(I, a):
    if I.is_eigen(I.p.strip(a['t'])):
        return mat(I, I.rval(a))
    return I.tonum(I.rval(a))


def comma_next(I, e, b, o, arg):
    n = leaf(comma_put(I, o, comma_value(I, arg)))
    if isnode(b) and b.leaf and isinstance(b.v, Ptr):
        I._set(b.v, n)
        return b
    return I.materialise(n, {'k': 'other'}) if e['vc'] in 'lx' else n


# ---------------------------------------------------------------- operators
def operator(I, e, f, op):
    A = e['a']
    T0 = I.p.strip(A[0]['t'])
    return operator_on(I, e, f, op, [None] * len(A), A, T0)


def operator_on(I, e, f, op, vals, A, T0):
    vals = list(vals)

    def lv(i):
        if vals[i] is None:
            vals[i] = I.lval(A[i])
        return vals[i]

    def rv(i):
        if vals[i] is None:
            vals[i] = I.rval(A[i])
        return vals[i]

    def ismat(i):
        if A[i] is None:
            return True
        return I.is_eigen(I.p.strip(A[i]['t']))
    n = len(A)
    if op in ('()', '[]'):
        b = lv(0)
        return element(I, e, view(I, b), [I.rval(a) for a in A[1:]])
    if op == '<<':
        b = lv(0)
        v = view(I, b)
        if isinstance(v, MatVal):
            # temporary
            addr = I.materialise(v, T0)
            v = view(I, addr)
            b = addr
        o = Obj('comma', view=v, addr=b if isnode(b) else None, row=0, col=0, bh=1, k=0)
        r = leaf(comma_put(I, o, comma_value(I, A[1])))
        return I.materialise(r, {'k': 'other'}) if e['vc'] in 'lx' else r
    if op == ',':
        b = lv(0)
        o = None
        if isnode(b) and b.leaf:
            if isinstance(b.v, Obj):
                o = b.v
            elif isinstance(b.v, Ptr):
                c = I._cell(b.v)
                o = c.v if c.leaf and isinstance(c.v, Obj) else None
        if o is None or o.kind != 'comma':
            raise Unsupported('comma operator', I.cur_loc)
        return comma_next(I, e, b, o, A[1])
    if op == '=':
        dst = lv(0)
        if is_decomp(T0):
            v = rv(1)
            I.store(dst, v)
            return dst
        src = rv(1)
        if isnode(src) and src.leaf and isinstance(src.v, Obj) and src.v.kind == 'comma':
            src = src.v.view
        if not ismat(1) and isnode(src) and not I.p.strip(A[1]['t'])['k'] == 'rec':
            x = view(I, dst)
            write_view(I, x, const_mat(x.r, x.c, I.tonum(src)))
            return dst
        v = mat(I, src)
        if isnode(dst):
            return assign(I, dst, v, T0)
        write_view(I, view(I, dst), v)
        return dst
    if op in ('+=', '-=', '*=', '/='):
        dst = lv(0)
        x = view(I, dst)
        w = mat(I, x)
        if ismat(1):
            u = mat(I, rv(1))
            if op == '*=':
                if T0['n'] in ('Eigen::Array', 'Eigen::ArrayWrapper'):
                    z = zipmap(I, w, u, dd.mul)
                else:
                    z = matmul(I, w, u)
            else:
                z = zipmap(I, w, u, {'+=': dd.add, '-=': dd.sub, '/=': dd.div}[op])
        else:
            s = I.tonum(rv(1))
            g = {'+=': dd.add, '-=': dd.sub, '*=': dd.mul, '/=': dd.div}[op]
            z = MatVal(w.r, w.c, [g(a, s) for a in w.d])
        write_view(I, x, z)
        return dst if isnode(dst) else x
    if n == 1:
        w = mat(I, rv(0))
        if op == '-':
            return MatVal(w.r, w.c, [dd.neg(a) for a in w.d])
        if op == '+':
            return w
        if op.strip() == 'conv' and w.r == 1 and w.c == 1:
            # a 1x1 product or expression used as its scalar
            return w.d[0]
        raise Unsupported('unary matrix operator %s' % op, I.cur_loc)
    m0, m1 = ismat(0), ismat(1)
    a = mat(I, rv(0)) if m0 else I.tonum(rv(0))
    b = mat(I, rv(1)) if m1 else I.tonum(rv(1))
    if op in ('==', '!=') and m0 and m1:
        if (a.r, a.c) != (b.r, b.c):
            r = dd.FALSE
            I.ub(dd.TRUE, 'comparison of matrices of different size')
        else:
            r = dd.ands([I.defined(I.compare('==', x, y)) for x, y in zip(a.d, b.d)])
        return r if op == '==' else NOT(r)
    arr = 'Array' in T0.get('n', '') or (n > 1 and A[1] is not None and 'Array' in I.p.strip(A[1]['t']).get('n', ''))
    if m0 and m1:
        if op == '+':
            return zipmap(I, a, b, dd.add)
        if op == '-':
            return zipmap(I, a, b, dd.sub)
        if op == '*':
            return zipmap(I, a, b, dd.mul) if arr else matmul(I, a, b)
        if op == '/':
            return zipmap(I, a, b, dd.div)
    elif m0:
        g = {'*': dd.mul, '/': dd.div, '+': dd.add, '-': dd.sub}.get(op)
        if g:
            return MatVal(a.r, a.c, [g(x, b) for x in a.d])
    else:
        g = {'*': dd.mul, '/': dd.div, '+': dd.add, '-': dd.sub}.get(op)
        if g:
            return MatVal(b.r, b.c, [g(a, x) for x in b.d])
    raise Unsupported('matrix operator %s' % op, I.cur_loc)
