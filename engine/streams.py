"""Abstract semantics of strings, streams and files.

A string is a sequence of literal text and of renderings of numbers ('num', value, precision); a
rendering contains none of the characters ',', '\\n', blank.  A file is a cell of the abstract file
system holding such a string.  Faults of the environment (a file that cannot be opened, a write that
cannot be completed) are boolean unknowns that a specification context switches on with vp_fault().
"""
from fractions import Fraction
import re
import dd
import poly as P
from poly import R
from dd import leaf, num, ite, AND, OR, NOT, restrict, map1, map2, guards, cmp
from interp import Ptr, Str, Unsupported, Obj, STREAMS, NULL, Clo, FnPtr, AC

FS = 'fs'

# A rendered number counts as this many characters (the longest rendering of a double with 17 digits);
# a piece of it is a ('frag', number, i, j), from which no value is ever read.
NOMINAL = 24


def cell(p, n):
    return Ptr(p.base, p.path + (n,))


def get(I, p, n, d=None):
    v = I.st.mem.get(p.base, {}).get(p.path + (n,))
    if v is None:
        return d
    return restrict(v, I.st.pc)


def norm(ps):
    out = []
    for x in ps:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        elif x[0] == 'frag':
            y = out[-1] if out else None
            if isinstance(y, tuple) and y[0] == 'frag' and y[1] == x[1] and y[3] == x[2]:
                out.pop()
                x = ('frag', x[1], y[2], x[3])
            if x[2] == 0 and x[3] == NOMINAL:
                x = x[1]
        out.append(x)
    return Str(tuple(out))


def expand(s):
    """characters of a text"""
    out = []
    for x in s.p:
        if isinstance(x, str):
            out.extend(x)
        elif x[0] == 'frag':
            out.extend(('frag', x[1], k, k + 1) for k in range(x[2], x[3]))
        else:
            out.extend(('frag', x, k, k + 1) for k in range(NOMINAL))
    return out


def char_node(c):
    return num(ord(c)) if isinstance(c, str) else leaf(AC(c[1], c[2]))


def spread(I, p):
    """lay the characters of the string at p out as elements; the address of the first"""
    v = restrict(I._cell(p), I.st.pc)

    def go(s):
        if not isinstance(s, Str):
            raise Unsupported('characters of %r' % (s,), I.cur_loc)
        m = I.st.w(p.base)
        cs = expand(s)
        for k in [k for k in m if k[:len(p.path) + 1] == p.path + ('ch',)]:
            del m[k]
        for i, c in enumerate(cs):
            m[p.path + ('ch', i)] = char_node(c)
        m[p.path + ('ch', '#')] = num(len(cs))
        return len(cs)
    if not v.leaf:
        raise Unsupported('characters of a text that depends on the path', I.cur_loc)
    return go(v.v)


def char_at(I, p, i, n):
    """address of character i of the string at p"""
    k = spread(I, p)
    if i >= k and n == 'at':
        I.throw('std::out_of_range', 'string::at')
    if i == k and n == 'operator[]':
        return I.materialise(num(0), {'k': 'int'})
    if i >= k:
        I.ub(dd.TRUE, 'access past the end of a string')
    return leaf(Ptr(p.base, p.path + ('ch', i)))


def ctext(I, v):
    """text a character pointer points to (filled by the printf family)"""
    def f(x):
        if isinstance(x, Ptr) and x.base and x.path:
            c = I.st.mem.get(x.base, {}).get(x.path[:-1] + ('cstr',))
            if c is not None and x.path[-1] == 0:
                return restrict(c, I.st.pc)
        return leaf(x)
    return map1(None, f, restrict(v, I.st.pc))


def concat(a, b):
    def f(x, y):
        if isinstance(x, Str) and isinstance(y, Str):
            return leaf(norm(x.p + y.p))
        if dd.UNDEF_V in (x, y):
            return dd.UNDEF
        raise Unsupported('text of %r %r' % (x, y))
    return map2('concat', f, a, b)


def init(I, p, n):
    I.erase(p)
    I._set(cell(p, 'buf'), leaf(Str(())))
    I._set(cell(p, 'prec'), num(6))
    for k in ('fail', 'bad', 'eof', 'open', 'dirty'):
        I._set(cell(p, k), dd.FALSE)
    I._set(cell(p, 'mode'), leaf(''))


def fault(I, name):
    return I.opts.setdefault('faults', {}).get(name, dd.FALSE)


APP, ATE, BIN, IN, OUT, TRUNC = 1, 2, 4, 8, 16, 32      # std::ios_base::openmode


def openmode(I, n, arg):
    """'r', 'w' (truncating) or 'a' for an open of stream class n with mode expression arg (None: the default)"""
    bits = None
    if arg is not None:
        bits = I.cint(I.rval(arg), 'open mode')
    if 'ofstream' in n:
        bits = (bits or 0) | OUT
    elif 'ifstream' in n:
        bits = (bits or 0) | IN
    elif bits is None:
        bits = IN | OUT
    bits &= ~BIN
    if bits in (IN, ):
        return 'r'
    if bits in (OUT, OUT | TRUNC, OUT | ATE, OUT | TRUNC | ATE):
        return 'w'
    if bits in (OUT | APP, APP, OUT | APP | ATE):
        return 'a'
    if bits in (IN | OUT, ):
        return 'r+'
    raise Unsupported('open mode %d' % bits, I.cur_loc)


def do_open(I, p, name, mode):
    """name: node of Str"""
    I.st.w(FS)

    def go(s):
        if s is dd.UNDEF_V:
            I.ub(dd.TRUE, 'use of an uninitialised file name')
        f = Ptr(FS, (s,))
        if mode == 'r+':        # only ever opens a file that exists; what was in it stays unless overwritten
            cur = restrict(I._cell(f), I.st.pc)
            missing = map1(None, lambda v: dd.TRUE if v is dd.UNDEF_V else dd.FALSE, cur)
            bad = OR(missing, fault(I, 'open_write'))
            held = map1(None, lambda v: dd.FALSE if v is dd.UNDEF_V or v == Str(()) else dd.TRUE, cur)
            if restrict(AND(held, NOT(bad)), I.st.pc) is not dd.FALSE:
                raise Unsupported('writing into an existing file', I.cur_loc)
            I._set(cell(p, 'fail'), OR(get(I, p, 'fail', dd.FALSE), bad))
            I._set(cell(p, 'open'), NOT(bad))
            I._set(cell(p, 'file'), leaf(f))
        elif mode in ('w', 'a'):
            bad = fault(I, 'open_write')
            I._set(cell(p, 'fail'), OR(get(I, p, 'fail', dd.FALSE), bad))
            I._set(cell(p, 'open'), NOT(bad))
            old = I._cell(f)
            new = leaf(Str(())) if mode == 'w' else map1(None, lambda v: leaf(Str(())) if v is dd.UNDEF_V else leaf(v), restrict(old, I.st.pc))
            I._set(f, ite(bad, old, new))
            I._set(cell(p, 'file'), leaf(f))
        else:
            cur = restrict(I._cell(f), I.st.pc)
            missing = map1(None, lambda v: dd.TRUE if v is dd.UNDEF_V else dd.FALSE, cur)
            bad = OR(missing, fault(I, 'open_read'))
            I._set(cell(p, 'fail'), OR(get(I, p, 'fail', dd.FALSE), bad))
            I._set(cell(p, 'open'), NOT(bad))
            I._set(cell(p, 'buf'), ite(bad, leaf(Str(())), map1(None, lambda v: leaf(Str(())) if v is dd.UNDEF_V else leaf(v), cur)))
        I._set(cell(p, 'mode'), leaf('w' if mode in ('a', 'r+') else mode))
    I.split(name, go)


def construct(I, T, args, p):
    n = T['n']
    init(I, p, n)
    args = [a for a in args]
    if not args:
        return
    if 'fstream' in n:
        name = I.rval(args[0])
        return do_open(I, p, name, openmode(I, n, args[1] if len(args) > 1 else None))
    AT = I.p.strip(args[0]['t'])
    if AT.get('n') == 'std::basic_string' or AT['k'] in ('ptr', 'array'):
        I._set(cell(p, 'buf'), I.rval(args[0]))
        if 'ostringstream' in n or 'basic_stringstream' in n:
            pass


def is_console(I, e):
    """lvalue expression naming cout/cerr/clog"""
    x = e
    while x['k'] in ('cast', 'mat'):
        x = x['e']
    if x['k'] == 'opcall' and x['op'] == '<<':
        return is_console(I, x['a'][0])
    return x['k'] == 'var' and x.get('q', '').startswith('std::') and x['n'] in ('cout', 'cerr', 'clog', 'wcout')


def console(I):
    return I.materialise(leaf(Obj('lib', n='console')), {'k': 'other'})


def render(I, v, T, prec):
    """text node of value node v of type T"""
    def f(x):
        if isinstance(x, Str):
            return leaf(x)
        if isinstance(x, AC):
            return leaf(Str((('frag', x.part, x.k, x.k + 1),)))
        if x is dd.UNDEF_V:
            return dd.UNDEF
        if x is dd.NAN_V:
            return leaf(Str(('nan',)))
        if isinstance(x, bool):
            return leaf(Str(('1' if x else '0',)))
        if isinstance(x, R):
            if T['k'] == 'float':
                if x.c is not None:
                    try:
                        fl = float(x.c)
                        if isinstance(prec, int) and prec and Fraction(fl) == x.c and fl == int(fl) and abs(fl) < 10 ** min(prec, 15):
                            return leaf(Str((str(int(fl)),)))
                    except (OverflowError, ValueError):
                        pass
                return leaf(Str((('num', x, prec),)))
            if x.c is not None:
                if T.get('bits') == 8:
                    return leaf(Str((chr(int(x.c) & 255),)))
                return leaf(Str((str(int(x.c)),)))
            return leaf(Str((('num', x, 'int'),)))
        if isinstance(x, Ptr):
            return leaf(Str(('0x1',)))
        raise Unsupported('text of %r' % (x,), I.cur_loc)
    return map1(None, f, v)


def stream_addr(I, x):
    a = restrict(I.lval(x), I.st.pc)
    I.check_base(a)
    return restrict(a, I.st.pc)


def put_text(I, a, text):
    def go(p):
        if get(I, p, 'buf') is None:
            return                       # console
        mode = get(I, p, 'mode', leaf(''))
        ok = AND(NOT(get(I, p, 'fail', dd.FALSE)), NOT(get(I, p, 'bad', dd.FALSE)))
        if mode.leaf and mode.v == 'w':
            op = get(I, p, 'open', dd.FALSE)
            fp = get(I, p, 'file')
            I._set(cell(p, 'bad'), OR(get(I, p, 'bad', dd.FALSE), AND(ok, NOT(op))))
            ok = AND(ok, op)
            if fp is not None:
                for f, g in guards(fp, I.st.pc):
                    cur = restrict(I._cell(f), I.st.pc)
                    c = restrict(AND(ok, restrict(g, I.st.pc)), I.st.pc)
                    if c is dd.FALSE:
                        continue
                    cur2 = map1(None, lambda v: leaf(Str(())) if v is dd.UNDEF_V else leaf(v), cur)
                    I._set(f, ite(c, concat(cur2, text), cur))
            I._set(cell(p, 'dirty'), OR(get(I, p, 'dirty', dd.FALSE), ok))
        elif mode.leaf and mode.v == '':
            cur = get(I, p, 'buf')
            I._set(cell(p, 'buf'), ite(ok, concat(cur, text), cur))
        else:
            # never opened for writing
            I._set(cell(p, 'bad'), dd.TRUE)
    I.split(a, go)


def flush(I, a):
    def go(p):
        if get(I, p, 'buf') is None:
            return
        mode = get(I, p, 'mode', leaf(''))
        if mode.leaf and mode.v == 'w':
            c = AND(get(I, p, 'dirty', dd.FALSE), fault(I, 'write'))
            I._set(cell(p, 'bad'), OR(get(I, p, 'bad', dd.FALSE), c))
            I._set(cell(p, 'dirty'), dd.FALSE)
    I.split(a, go)


def insert(I, e, f, A):
    T0 = I.p.strip(A[0]['t'])
    if is_console(I, A[0]):
        x = A[1]
        try:
            if x['k'] not in ('fnref',) and not (x['k'] == 'cast' and x['e']['k'] == 'fnref'):
                if x['vc'] in 'lx':
                    I.lval(x)
                else:
                    I.rval(x)
        except Unsupported:
            pass
        return console(I)
    a = stream_addr(I, A[0])
    if a.leaf and isinstance(I._cell(a.v).v if I._cell(a.v).leaf else None, Obj):
        return a
    x = A[1]
    AT = I.p.strip(x['t'])
    y = x
    while y['k'] in ('cast', 'mat'):
        y = y['e']
    if y['k'] == 'fnref':
        n = y['f']['q'].split('::')[-1]
        if n == 'endl':
            put_text(I, a, leaf(Str(('\n',))))
            flush(I, a)
        elif n == 'flush':
            flush(I, a)
        elif n in ('scientific', 'fixed', 'hexfloat', 'boolalpha', 'left', 'right', 'defaultfloat', 'noboolalpha', 'dec', 'showpoint'):
            if n not in ('dec', 'left', 'right', 'defaultfloat'):
                fmt(I, a, n)
        elif n == 'ends':
            raise Unsupported('std::ends', I.cur_loc)
        else:
            raise Unsupported('manipulator %s' % n, I.cur_loc)
        return a
    if AT.get('n') == 'std::_Setprecision':
        v = I.rval(x)
        if not (v.leaf and isinstance(v.v, Obj)):
            raise Unsupported('setprecision', I.cur_loc)
        I.split(a, lambda p: I._set(cell(p, 'prec'), v.v.prec))
        return a
    if AT.get('n', '').startswith('std::_Set'):
        I.rval(x)
        return a
    if I.is_eigen(AT):
        raise Unsupported('text of a matrix', I.cur_loc)
    put_value(I, a, I.rval(x), AT)
    return a


def put_value(I, a, v, AT):
    v = ctext(I, v)

    def go(p):
        prec = get(I, p, 'prec', num(6))
        ff = get(I, p, 'fmt')
        pr = I.cint(prec, 'precision')
        if ff is not None and ff.leaf:
            pr = 99 if ff.v == 'hexfloat' else pr + 1 if ff.v == 'scientific' else ('f', pr) if ff.v == 'fixed' else pr
        elif pr == 0:
            pr = 1
        put_text(I, leaf(p), render(I, v, AT, pr))
    I.split(a, go)


def fmt(I, a, n):
    I.split(a, lambda p: I._set(cell(p, 'fmt'), leaf(n)))


def failed_at(I, p):
    return OR(get(I, p, 'fail', dd.FALSE), get(I, p, 'bad', dd.FALSE))


def failed(I, addr):
    return I.split(restrict(addr, I.st.pc), lambda p: failed_at(I, p))


# ---------------------------------------------------------------- reading
def cut(s, delims):
    """(head, rest or None) at the first delimiter character"""
    head = []
    for i, x in enumerate(s.p):
        if isinstance(x, str):
            m = re.search('[' + re.escape(delims) + ']', x)
            if m:
                head.append(x[:m.start()])
                return norm(head), norm((x[m.end():],) + s.p[i + 1:])
        head.append(x)
    return norm(head), None


def getline(I, e, f, args):
    a = stream_addr(I, args[0])
    dst = I.lval(args[1])
    delim = '\n'
    if len(args) > 2:
        d = I.rval(args[2])
        delim = chr(I.cint(d, 'delimiter'))

    def go(p):
        buf = get(I, p, 'buf')
        if buf is None:
            raise Unsupported('getline on the console', I.cur_loc)
        bad = OR(failed_at(I, p), get(I, p, 'eof', dd.FALSE))

        def skip():
            I._set(cell(p, 'fail'), dd.TRUE)

        def read():
            mode = get(I, p, 'mode', leaf(''))
            if mode.leaf and mode.v == 'r':
                return I.branch(fault(I, 'read'), broken, lambda: read1())
            return read1()

        def broken():
            I._set(cell(p, 'bad'), dd.TRUE)
            I.store(dst, leaf(Str(())))

        def read1():
            def one(s):
                if not isinstance(s, Str):
                    raise Unsupported('reading %r' % (s,), I.cur_loc)
                if not s.p:
                    I._set(cell(p, 'eof'), dd.TRUE)
                    I._set(cell(p, 'fail'), dd.TRUE)
                    I.store(dst, leaf(Str(())))
                    return
                h, r = cut(s, delim)
                I.store(dst, leaf(h))
                if r is None:
                    I._set(cell(p, 'eof'), dd.TRUE)
                    I._set(cell(p, 'buf'), leaf(Str(())))
                else:
                    I._set(cell(p, 'buf'), leaf(r))
            I.split(get(I, p, 'buf'), one)
        I.branch(bad, skip, read)
    I.split(a, go)
    return a


NUMRE = re.compile(r'\s*([+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?)')


def round_trip(x, prec):
    """value read back from a rendering of x with the given precision"""
    if prec == 'int' or (isinstance(prec, int) and prec >= 17):
        return leaf(x)
    if x.c is not None and isinstance(prec, int):
        return num(Fraction(float(('%%.%dg' % prec) % float(x.c))))
    if x.c is not None and isinstance(prec, tuple):
        return num(Fraction(('%%.%df' % prec[1]) % float(x.c)))
    return leaf(P.var(P.sym('round%s(%r)' % (prec, x), 'fn', (('round%s' % (prec if isinstance(prec, int) else 'f%s' % prec[1] if isinstance(prec, tuple) else prec), x),), None)))


def parse_num(s):
    """(value node, consumed ok)"""
    if not s.p:
        return None
    x = s.p[0]
    if isinstance(x, tuple):
        if len(s.p) > 1 and isinstance(s.p[1], tuple):
            return None
        if x[0] == 'frag':
            raise Unsupported('number from a part of a rendered number')
        if len(s.p) > 1 and s.p[1][0] in '0123456789.eE':
            return None
        return round_trip(x[1], x[2])
    if not x.strip() and len(s.p) > 1:
        return parse_num(Str(s.p[1:]))
    m = NUMRE.match(x)
    if not m:
        return None
    if m.end() == len(x) and len(s.p) > 1:
        raise Unsupported('number spliced from text')
    return num(Fraction(m.group(1)))


def atof(I, e, f, args):
    v = ctext(I, I.rval(args[0]))
    isint = f['q'].split('::')[-1] in ('atoi', 'atol', 'stoi', 'stol', 'stoul', 'strtol')
    sto = 'sto' in f['q']

    def go(s):
        if not isinstance(s, Str):
            raise Unsupported('number from %r' % (s,), I.cur_loc)
        r = parse_num(s)
        if r is None:
            if s.p and s.p[0] == 'nan':
                return dd.NAN
            if sto:
                I.throw('std::invalid_argument', 'text is not a number')
            return dd.N0
        if isint:
            return I.trunc(r, I.T(e['t']))
        if f['q'].split('::')[-1] in ('stof', 'strtof'):
            return map1(None, lambda x: x if not isinstance(x, R) else leaf(P.var(P.sym('float32(%r)' % (x,), 'fn', (('float32', x),), None))) if x.c is None else leaf(x), r)
        return r
    return I.split(v, go)


def extract(I, e, f, A):
    a = stream_addr(I, A[0])
    dst = I.lval(A[1])
    T = I.p.strip(A[1]['t'])

    def go(p):
        bad = OR(failed_at(I, p), get(I, p, 'eof', dd.FALSE))

        def one(s):
            if not isinstance(s, Str):
                raise Unsupported('reading %r' % (s,), I.cur_loc)
            ps = list(s.p)
            while ps and isinstance(ps[0], str):
                ps[0] = ps[0].lstrip()
                if ps[0]:
                    break
                ps.pop(0)
            s = norm(ps)
            if not s.p:
                I._set(cell(p, 'fail'), dd.TRUE)
                I._set(cell(p, 'eof'), dd.TRUE)
                return
            if T.get('bits') == 8 and T['k'] == 'int':
                x = s.p[0]
                if not isinstance(x, str):
                    raise Unsupported('character of a number', I.cur_loc)
                I.store(dst, num(ord(x[0])))
                I._set(cell(p, 'buf'), leaf(norm((x[1:],) + s.p[1:])))
                return
            if T.get('n') == 'std::basic_string':
                h, r = cut(s, ' \t\n')
                I.store(dst, leaf(h))
                sep = None
            else:
                x = s.p[0]
                if isinstance(x, tuple):
                    if x[0] == 'frag':
                        raise Unsupported('number from a part of a rendered number', I.cur_loc)
                    v = round_trip(x[1], x[2])
                    rest = norm(s.p[1:])
                else:
                    m = NUMRE.match(x)
                    if not m:
                        I._set(cell(p, 'fail'), dd.TRUE)
                        I.store(dst, dd.N0)
                        return
                    if m.end() == len(x) and len(s.p) > 1:
                        raise Unsupported('number spliced from text', I.cur_loc)
                    v = num(Fraction(m.group(1)))
                    rest = norm((x[m.end():],) + s.p[1:])
                if T['k'] == 'int':
                    v = I.trunc(v, T)
                I.store(dst, v)
                I._set(cell(p, 'buf'), leaf(rest))
                if not rest.p:
                    I._set(cell(p, 'eof'), dd.TRUE)
                return
            if r is None:
                I._set(cell(p, 'eof'), dd.TRUE)
                r = Str(())
            I._set(cell(p, 'buf'), leaf(r))

        def read():
            I.split(get(I, p, 'buf'), one)
        I.branch(bad, lambda: I._set(cell(p, 'fail'), dd.TRUE), read)
    I.split(a, go)
    return a


# ---------------------------------------------------------------- strings
def text_of(I, x):
    T = I.p.strip(x['t'])
    v = I.rval(x)
    if T['k'] == 'int' and T.get('bits') == 8:
        return render(I, v, T, 6)
    return ctext(I, v)


def is_text(I, x):
    T = I.p.strip(x['t'])
    return T.get('n') == 'std::basic_string' or (T['k'] in ('ptr', 'array') and I.T(T['e']).get('bits') == 8)


def string_op(I, e, op, A):
    if not any(I.p.strip(x['t']).get('n') == 'std::basic_string' for x in A):
        return None
    if op == '+':
        return concat(text_of(I, A[0]), text_of(I, A[1]))
    if op == '+=':
        a = I.lval(A[0])
        I.store(a, concat(I.load(a), text_of(I, A[1])))
        return a
    l, r = text_of(I, A[0]), text_of(I, A[1])
    if op in ('==', '!='):
        def f(x, y):
            if not isinstance(x, Str) or not isinstance(y, Str):
                raise Unsupported('comparison of text', I.cur_loc)
            if x == y:
                return dd.TRUE if op == '==' else dd.FALSE
            if all(isinstance(q, str) for q in x.p + y.p):
                return dd.TRUE if (op == '!=') else dd.FALSE
            raise Unsupported('comparison of rendered numbers', I.cur_loc)
        return map2(None, f, restrict(l, I.st.pc), restrict(r, I.st.pc))

    def g(x, y):
        if all(isinstance(q, str) for q in x.p + y.p):
            a, b = ''.join(x.p), ''.join(y.p)
            return dd.TRUE if {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op] else dd.FALSE
        raise Unsupported('order of rendered numbers', I.cur_loc)
    return map2(None, g, restrict(l, I.st.pc), restrict(r, I.st.pc))


def string_ctor(I, args):
    args = [a for a in args if not I.p.strip(a['t']).get('n', '').startswith('std::allocator')]
    if not args:
        return leaf(Str(()))
    if len(args) == 1 and is_text(I, args[0]):
        v = ctext(I, I.rval(args[0]))
        for w, g in guards(restrict(v, I.st.pc), I.st.pc):
            if w == NULL:
                I.ub(g, 'string from a null pointer')
        return restrict(v, I.st.pc)
    if len(args) == 2 and is_text(I, args[0]) and I.p.strip(args[1]['t'])['k'] in ('int', 'enum'):
        # (characters, count)
        n = I.cint(I.rval(args[1]))
        return map1(None, lambda s: leaf(norm(expand(s)[:n])), ctext(I, I.rval(args[0])))
    if len(args) in (2, 3) and I.p.strip(args[0]['t']).get('n') == 'std::basic_string':
        i = I.cint(I.rval(args[1]))
        n = I.cint(I.rval(args[2])) if len(args) > 2 else None

        def sub(s):
            t = expand(s)
            if i > len(t):
                I.throw('std::out_of_range', 'string')
            return leaf(norm(t[i:] if n is None else t[i:i + n]))
        return I.split(I.rval(args[0]), sub)
    if len(args) == 2 and I.p.strip(args[0]['t'])['k'] == 'int':
        n = I.cint(I.rval(args[0]))
        c = chr(I.cint(I.rval(args[1])))
        return leaf(Str((c * n,) if n else ()))
    if len(args) == 2:
        import lib
        return lib.append_chars(I, I.rval(args[0]), I.rval(args[1]))
    raise Unsupported('string constructor', I.cur_loc)


def plain(I, s):
    if not isinstance(s, Str) or any(not isinstance(x, str) for x in s.p):
        raise Unsupported('characters of a rendered number', I.cur_loc)
    return ''.join(s.p)


def register(FN, METH):
    import lib
    from lib import objaddr, obj_value, on_obj
    B = 'std::basic_string'

    def m(cls, *names):
        def d(f):
            for n in names:
                METH[(cls, n)] = f
            return f
        return d

    @m(B, 'c_str', 'data')
    def _cstr(I, e, f, x):
        return obj_value(I, e)

    @m(B, 'empty')
    def _empty(I, e, f, x):
        return map1(None, lambda s: dd.UNDEF if s is dd.UNDEF_V else dd.FALSE if s.p else dd.TRUE, obj_value(I, e))

    @m(B, 'size', 'length')
    def _size(I, e, f, x):
        return map1(None, lambda s: num(len(expand(s))), obj_value(I, e))

    @m(B, 'clear')
    def _clear(I, e, f, x):
        I.store(objaddr(I, e), leaf(Str(())))

    @m(B, 'reserve', 'shrink_to_fit')
    def _res(I, e, f, x):
        return None

    @m(B, 'append', 'push_back')
    def _app(I, e, f, x):
        a = objaddr(I, e)
        if len(e['a']) == 1:
            new = text_of(I, e['a'][0])
        else:
            new = string_ctor(I, e['a'])
        I.store(a, concat(I.load(a), new))
        return a

    @m(B, 'pop_back')
    def _popb(I, e, f, x):
        a = objaddr(I, e)

        def g(s):
            if not s.p:
                I.ub(dd.TRUE, 'pop_back() on an empty string')
            if not isinstance(s.p[-1], str):
                raise Unsupported('characters of a rendered number', I.cur_loc)
            I.store(a, leaf(norm(s.p[:-1] + (s.p[-1][:-1],))))
        return I.split(I.load(a), g)

    @m(B, 'back')
    def _back(I, e, f, x):
        def g(s):
            if not s.p:
                I.ub(dd.TRUE, 'back() on an empty string')
            if not isinstance(s.p[-1], str):
                raise Unsupported('characters of a rendered number', I.cur_loc)
            return I.materialise(num(ord(s.p[-1][-1])), {'k': 'int'})
        return I.split(obj_value(I, e), g)

    @m(B, 'assign', 'operator=')
    def _asg(I, e, f, x):
        a = objaddr(I, e)
        I.store(a, text_of(I, e['a'][0]))
        return a

    @m(B, 'compare')
    def _cmp(I, e, f, x):
        if len(e['a']) == 3 and I.p.strip(e['a'][2]['t'])['k'] not in ('int', 'enum'):
            i, n = I.cint(I.rval(e['a'][0])), I.rval(e['a'][1])
            r = text_of(I, e['a'][2])
            n = I.cint(n)

            def g(a, b):
                a, b = plain(I, a), plain(I, b)
                if i > len(a):
                    I.throw('std::out_of_range', 'compare')
                a = a[i:i + n]
                return num(0 if a == b else -1 if a < b else 1)
            return map2(None, g, obj_value(I, e), r)
        if len(e['a']) != 1:
            raise Unsupported('string comparison', I.cur_loc)
        l, r = obj_value(I, e), text_of(I, e['a'][0])
        return map2(None, lambda a, b: num(0) if a == b else num(-1 if plain(I, a) < plain(I, b) else 1), l, r)

    NPOS = (1 << 64) - 1

    @m(B, 'find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of')
    def _finds(I, e, f, x):
        n = f['q'].split('::')[-1]
        if len(e['a']) > 2:
            raise Unsupported('string method %s' % n, I.cur_loc)
        needle = text_of(I, e['a'][0])
        pos = I.cint(I.rval(e['a'][1])) if len(e['a']) > 1 else None
        back = n in ('rfind', 'find_last_of', 'find_last_not_of')

        def g(s, k):
            t, w = expand(s), plain(I, k)
            if any(c in '0123456789+-.eE' for c in w) and any(not isinstance(c, str) for c in t):
                raise Unsupported('characters of a rendered number', I.cur_loc)
            if n in ('find', 'rfind'):
                hits = [i for i in range(len(t) - len(w) + 1) if all(a == b for a, b in zip(t[i:], w))]
            else:
                hits = [i for i, c in enumerate(t) if (c in w if isinstance(c, str) else False) == ('not' not in n)]
            if pos is not None:
                hits = [i for i in hits if (i <= pos if back else i >= pos)]
            return num((hits[-1] if back else hits[0]) if hits else NPOS)
        return map2(None, g, obj_value(I, e), needle)

    @m(B, 'substr')
    def _substr(I, e, f, x):
        b = [I.rval(a) for a in e['a']]
        o = obj_value(I, e)

        def g(ks):
            s, b = ks[0], [int(k.c) for k in ks[1:]]
            t = expand(s)
            i = b[0] if b else 0
            if i > len(t):
                I.throw('std::out_of_range', 'substr')
            return leaf(norm(t[i:] if len(b) < 2 else t[i:i + b[1]]))
        return I.split_many([o] + b, g)

    @m(B, 'erase')
    def _serase(I, e, f, x):
        if e['a'] and I.p.strip(e['a'][0]['t'])['k'] != 'int':
            raise Unsupported('string erase', I.cur_loc)
        a = objaddr(I, e)
        b = [I.cint(I.rval(y)) for y in e['a']]

        def g(s):
            t = expand(s)
            i = b[0] if b else 0
            if i > len(t):
                I.throw('std::out_of_range', 'erase')
            I.store(a, leaf(norm(t[:i] + (t[i + b[1]:] if len(b) > 1 else []))))
        I.split(I.load(a), g)
        return a

    @m(B, 'begin', 'cbegin', 'end', 'cend')
    def _sbegin(I, e, f, x):
        n = f['q'].split('::')[-1]

        def g(p):
            k = spread(I, p)
            return leaf(Ptr(p.base, p.path + ('ch', k if 'end' in n else 0)))
        return on_obj(I, e, g)

    @m(B, 'at', 'operator[]', 'front')
    def _char(I, e, f, x):
        n = f['q'].split('::')[-1]
        i = I.cint(I.rval(e['a'][0])) if e['a'] else 0

        return on_obj(I, e, lambda p: char_at(I, p, i, n))

    @m(B, 'insert', 'replace', 'resize', 'swap')
    def _chars(I, e, f, x):
        raise Unsupported('string method %s' % f['q'], I.cur_loc)

    # streams
    @m('stream', 'str')
    def _str(I, e, f, x):
        a = objaddr(I, e)
        if e['a']:
            v = text_of(I, e['a'][0])

            def g(p):
                I._set(cell(p, 'buf'), v)
            return I.split(a, g)
        return I.split(a, lambda p: get(I, p, 'buf'))

    @m('stream', 'precision')
    def _prec(I, e, f, x):
        a = objaddr(I, e)
        if is_console(I, e['b']):
            return num(6)
        v = I.rval(e['a'][0]) if e['a'] else None

        def g(p):
            old = get(I, p, 'prec', num(6))
            if v is not None:
                I._set(cell(p, 'prec'), v)
            return old
        return I.split(a, g)

    @m('stream', 'open')
    def _open(I, e, f, x):
        a = objaddr(I, e)
        name = I.rval(e['a'][0])
        n = I.p.strip(e['b']['t']).get('n', '') if not e.get('arrow') else f['q']
        mode = openmode(I, f['q'], e['a'][1] if len(e['a']) > 1 else None)

        def g(p):
            already = get(I, p, 'open', dd.FALSE)
            I.branch(already, lambda: I._set(cell(p, 'fail'), dd.TRUE), lambda: do_open(I, p, name, mode))
        I.split(a, g)

    @m('stream', 'is_open')
    def _isopen(I, e, f, x):
        return on_obj(I, e, lambda p: get(I, p, 'open', dd.FALSE))

    @m('stream', 'good')
    def _good(I, e, f, x):
        return on_obj(I, e, lambda p: NOT(OR(failed_at(I, p), get(I, p, 'eof', dd.FALSE))))

    @m('stream', 'fail')
    def _fail(I, e, f, x):
        return on_obj(I, e, lambda p: failed_at(I, p))

    @m('stream', 'operator!')
    def _not(I, e, f, x):
        return on_obj(I, e, lambda p: failed_at(I, p))

    @m('stream', 'operator conv', 'operator bool')
    def _bool(I, e, f, x):
        return on_obj(I, e, lambda p: NOT(failed_at(I, p)))

    @m('stream', 'bad')
    def _bad(I, e, f, x):
        return on_obj(I, e, lambda p: get(I, p, 'bad', dd.FALSE))

    @m('stream', 'eof')
    def _eof(I, e, f, x):
        return on_obj(I, e, lambda p: get(I, p, 'eof', dd.FALSE))

    @m('stream', 'clear')
    def _clr(I, e, f, x):
        def g(p):
            for k in ('fail', 'bad', 'eof'):
                I._set(cell(p, k), dd.FALSE)
        return on_obj(I, e, g)

    @m('stream', 'close')
    def _close(I, e, f, x):
        a = objaddr(I, e)
        flush_close(I, a)

    def flush_close(I, a):
        def g(p):
            mode = get(I, p, 'mode', leaf(''))
            op = get(I, p, 'open', dd.FALSE)
            bad = NOT(op)
            if mode.leaf and mode.v == 'w':
                bad = OR(bad, AND(get(I, p, 'dirty', dd.FALSE), fault(I, 'write')))
                I._set(cell(p, 'dirty'), dd.FALSE)
            I._set(cell(p, 'fail'), OR(get(I, p, 'fail', dd.FALSE), bad))
            I._set(cell(p, 'open'), dd.FALSE)
        I.split(a, g)

    @m('stream', 'flush')
    def _flush(I, e, f, x):
        a = objaddr(I, e)
        if not is_console(I, e['b']):
            flush(I, a)
        return a

    @m('stream', 'put', 'write')
    def _put(I, e, f, x):
        if f['q'].endswith('write'):
            raise Unsupported('unformatted write', I.cur_loc)
        a = objaddr(I, e)
        put_text(I, a, text_of(I, e['a'][0]))
        return a

    @m('stream', 'exceptions', 'setf', 'width', 'fill', 'imbue', 'unsetf', 'flags')
    def _fmt(I, e, f, x):
        raise Unsupported('stream method %s' % f['q'], I.cur_loc)

    FN['std::getline'] = getline
    for n in ('atof', 'std::atof', 'strtod', 'std::strtod', 'std::stod', 'std::stof', 'std::stold', 'atoi', 'std::atoi', 'std::stoi',
              'std::stol', 'std::stoul', 'strtof', 'std::strtof', 'strtol'):
        FN[n] = atof

    def _setprec(I, e, f, args):
        return leaf(Obj('lib', n='setprecision', prec=I.rval(args[0])))
    FN['std::setprecision'] = _setprec

    def _setw(I, e, f, args):
        return leaf(Obj('lib', n='setw'))
    FN['std::setw'] = FN['std::setfill'] = _setw

    def _tostr(I, e, f, args):
        T = I.p.strip(args[0]['t'])
        return render(I, I.rval(args[0]), T, ('f', 6) if T['k'] == 'float' else 6)
    FN['std::to_string'] = _tostr

    def formatted(I, form, rest):
        """text of a printf format node and its argument expressions"""
        if not (form.leaf and isinstance(form.v, Str)):
            raise Unsupported('format text', I.cur_loc)
        text = leaf(Str(()))
        rest = list(rest)
        for m in re.finditer(r'%(%|([-+ #0]*)(\d*|\*)(?:\.(\d+|\*))?(hh|h|ll|l|z|L)?([a-zA-Z]))|[^%]+', plain(I, form.v)):
            if m.group(1) is None or m.group(1) == '%':
                text = concat(text, leaf(Str((m.group(0) if m.group(1) is None else '%',))))
                continue
            if m.group(2) or m.group(3) == '*':
                raise Unsupported('format %s' % m.group(0), I.cur_loc)
            pr = m.group(4)
            if pr == '*':
                pr = I.cint(I.rval(rest.pop(0)))
            pr = None if pr is None else int(pr)
            if not rest:
                I.ub(dd.TRUE, 'a format names more arguments than there are')
            a = rest.pop(0)
            c = m.group(6)
            v = I.rval(a)
            AT = I.p.strip(a['t'])
            if c in 'gGeEfFaA' and AT['k'] != 'float' or c in 'diuc' and AT['k'] not in ('int', 'bool', 'enum') or c == 's' and AT['k'] not in ('ptr', 'array'):
                I.ub(dd.TRUE, 'a format does not fit its argument')
            if c in 'gGeEfF':
                pr = 6 if pr is None else pr
                pr = max(pr, 1) if c in 'gG' else pr + 1 if c in 'eE' else ('f', pr)
                text = concat(text, render(I, v, {'k': 'float'}, pr))
            elif c in 'aA':
                text = concat(text, render(I, v, {'k': 'float'}, 99))
            elif c in 'diu':
                text = concat(text, render(I, v, {'k': 'int', 'bits': 64}, 'int'))
            elif c == 'c':
                text = concat(text, render(I, v, {'k': 'int', 'bits': 8}, 'int'))
            elif c == 's':
                text = concat(text, ctext(I, v))
            else:
                raise Unsupported('format %s' % m.group(0), I.cur_loc)
        for a in rest:
            I.rval(a)
        return text

    def _snprintf(I, e, f, args):
        n = f['q'].split('::')[-1]
        k = 1 if n == 'sprintf' else 2
        dst = I.rval(args[0])
        size = I.cint(I.rval(args[1])) if k == 2 else None
        text = full = formatted(I, I.rval(args[k]), args[k + 1:])
        if size is not None:
            text = map1(None, lambda s: leaf(norm(expand(s)[:max(size - 1, 0)])), text)

        def put(q):
            if not isinstance(q, Ptr) or not q.base or not q.path:
                raise Unsupported('%s to %r' % (n, q), I.cur_loc)
            if q.path[-1] != 0:
                raise Unsupported('%s into the middle of a buffer' % n, I.cur_loc)
            I._set(Ptr(q.base, q.path[:-1] + ('cstr',)), text)
        I.split(dst, put)
        return map1(None, lambda s: num(len(expand(s))), full)
    for n in ('snprintf', 'std::snprintf', 'sprintf', 'std::sprintf'):
        FN[n] = _snprintf

    # C files: writes are pending until the file is flushed or closed; a fault makes that fail
    def _std(x):
        while x['k'] in ('cast', 'mat'):
            x = x['e']
        return x['k'] == 'var' and x['n'] in ('stderr', 'stdout')

    def _handle(I, x):
        v = restrict(I.rval(x), I.st.pc)
        I.check_base(v)
        v = restrict(v, I.st.pc)

        def g(p):
            if get(I, p, 'cfile') is None:
                raise Unsupported('a FILE that was not opened here', I.cur_loc)
            c = get(I, p, 'closed', dd.FALSE)
            if c is not dd.FALSE:
                I.ub(c, 'use of a closed file')
            return dd.TRUE
        I.split(v, g)
        return restrict(v, I.st.pc)

    def _sync(I, v):
        def g(p):
            pend = get(I, p, 'pend', leaf(Str(())))
            bad = AND(map1(None, lambda s: dd.TRUE if s.p else dd.FALSE, pend), fault(I, 'write'))
            fp = get(I, p, 'file')
            for f, gd in guards(fp, I.st.pc):
                cur = restrict(I._cell(f), I.st.pc)
                cur2 = map1(None, lambda w: leaf(Str(())) if w is dd.UNDEF_V else leaf(w), cur)
                I._set(f, ite(restrict(AND(gd, NOT(bad)), I.st.pc), concat(cur2, pend), cur))
            I._set(cell(p, 'pend'), leaf(Str(())))
            I._set(cell(p, 'bad'), OR(get(I, p, 'bad', dd.FALSE), bad))
            return ite(bad, num(-1), num(0))
        return I.split(v, g)

    def _write(I, v, text):
        def g(p):
            # a fault hits either while writing (only the error indicator and the result of this call tell) or on closing
            early = AND(fault(I, 'write'), dd.boolvar('the fault hits before the file is closed'))
            I._set(cell(p, 'bad'), OR(get(I, p, 'bad', dd.FALSE), early))
            pend = get(I, p, 'pend', leaf(Str(())))
            I._set(cell(p, 'pend'), ite(early, pend, concat(pend, text)))
            if get(I, p, 'auto') is not None:
                _sync(I, leaf(p))
            return early
        return I.split(v, g)

    def _fopen(I, e, f, args):
        name, mode = ctext(I, I.rval(args[0])), I.rval(args[1])
        if not (mode.leaf and isinstance(mode.v, Str)):
            raise Unsupported('mode of fopen', I.cur_loc)
        md = plain(I, mode.v).replace('b', '').replace('t', '').replace('e', '')
        md = {'w+': 'w', 'a+': 'a'}.get(md, md)
        if md not in ('w', 'a', 'r+'):
            raise Unsupported('fopen mode %r' % md, I.cur_loc)
        b = I.newbase(local=False)
        p = Ptr(b, ())
        I._set(cell(p, 'buf'), leaf(Str(())))
        I._set(cell(p, 'cfile'), dd.TRUE)
        for k in ('fail', 'bad', 'open'):
            I._set(cell(p, k), dd.FALSE)
        do_open(I, p, name, md)
        return ite(get(I, p, 'fail', dd.FALSE), leaf(NULL), leaf(p))
    FN['fopen'] = FN['std::fopen'] = _fopen

    def _fprintf(I, e, f, args):
        if _std(args[0]):
            for a in args[1:]:
                I.lval(a) if a['vc'] in 'lx' else I.rval(a)
            return dd.N0
        v = _handle(I, args[0])
        t = formatted(I, I.rval(args[1]), args[2:])
        bad = _write(I, v, t)
        return ite(bad, num(-1), map1(None, lambda s: num(len(expand(s))), t))
    FN['fprintf'] = FN['std::fprintf'] = _fprintf

    def _fputs(I, e, f, args):
        if _std(args[1]):
            I.rval(args[0])
            return num(1)
        one = f['q'].split('::')[-1] != 'fputs'
        t = render(I, I.rval(args[0]), {'k': 'int', 'bits': 8}, 'int') if one else ctext(I, I.rval(args[0]))
        v = _handle(I, args[1])
        bad = _write(I, v, t)
        return ite(bad, num(-1), I.rval(args[0]) if one else num(1))
    for n in ('fputs', 'std::fputs', 'fputc', 'std::fputc', 'putc', 'std::putc'):
        FN[n] = _fputs

    def _fwrite(I, e, f, args):
        t = ctext(I, I.rval(args[0]))
        k = I.rval(args[1]), I.rval(args[2])
        if not (t.leaf and isinstance(t.v, Str) and k[0].leaf and k[1].leaf and len(expand(t.v)) == I.cint(k[0]) * I.cint(k[1])):
            raise Unsupported('fwrite', I.cur_loc)
        v = _handle(I, args[3])
        bad = _write(I, v, t)
        return ite(bad, num(0), k[1])
    FN['fwrite'] = FN['std::fwrite'] = _fwrite

    def _fflush(I, e, f, args):
        if _std(args[0]):
            return dd.N0
        return _sync(I, _handle(I, args[0]))
    FN['fflush'] = FN['std::fflush'] = _fflush

    def _ferror(I, e, f, args):
        v = _handle(I, args[0])
        return I.split(v, lambda p: ite(get(I, p, 'bad', dd.FALSE), num(1), num(0)))
    FN['ferror'] = FN['std::ferror'] = _ferror

    def _fclose(I, e, f, args):
        v = _handle(I, args[0])
        r = _sync(I, v)
        I.split(v, lambda p: I._set(cell(p, 'closed'), dd.TRUE))
        return r
    FN['fclose'] = FN['std::fclose'] = _fclose

    def _lexcast(I, e, f, args):
        T = I.T(e['t'])
        T = I.p.strip(e['t'])
        AT = I.p.strip(args[0]['t'])
        v = text_of(I, args[0])
        if T.get('n') == B:
            return v if is_text(I, args[0]) else render(I, v, AT, 17 if AT['k'] == 'float' else 'int')

        def g(s):
            if not isinstance(s, Str):
                return leaf(s)
            r = parse_num(s) if len(s.p) == 1 and not (isinstance(s.p[0], str) and not NUMRE.fullmatch(s.p[0])) else None
            if r is None or isinstance(s.p[0], str) and s.p[0][:1].isspace():
                I.throw('boost::bad_lexical_cast', 'text is not a number')
            return I.trunc(r, T) if T['k'] == 'int' else r
        return I.split(v, g)
    FN['boost::lexical_cast'] = _lexcast

    def _join(I, e, f, args):
        src = I.lval(args[0])
        sep = text_of(I, args[1])

        def go(p):
            k = I.cint(lib.vsize(I, p))
            out = leaf(Str(()))
            for i in range(k):
                if i:
                    out = concat(out, sep)
                out = concat(out, I.load(leaf(lib.elem(p, i))))
            return out
        return I.split(src, go)
    FN['boost::algorithm::join'] = _join

    def _isany(I, e, f, args):
        return leaf(Obj('lib', n='is_any_of', chars=text_of(I, args[0])))
    FN['boost::algorithm::is_any_of'] = _isany

    def _bsplit(I, e, f, args):
        dst, src = I.lval(args[0]), I.rval(args[1])
        pred = I.rval(args[2])
        if not (pred.leaf and isinstance(pred.v, Obj) and getattr(pred.v, 'n', '') == 'is_any_of'):
            raise Unsupported('boost::split predicate', I.cur_loc)
        if len(args) > 3 and I.cint(I.rval(args[3])) != 1:
            raise Unsupported('boost::split token_compress', I.cur_loc)
        chars = plain(I, pred.v.chars.v)

        def go(vs):
            p, s = vs
            ET = lib.etype(I, I.p.strip(args[0]['t']))
            lib.clear_vec(I, p)
            field = []
            for c in expand(s) + [None]:
                if c is None or (isinstance(c, str) and c in chars):
                    lib.push(I, p, ET, leaf(norm(field)))
                    field = []
                else:
                    field.append(c)
        I.split_many([dst, src], go)
        return dst
    FN['boost::algorithm::split'] = _bsplit
