"""Structural rules: properties decided over the exported program as a whole rather than in contexts.

C19  every public operation compiles for every supported order and type, and everything it refers to is defined
C20  lock discipline of the key generator
C27  effect analysis of the read-only operations
"""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
import run
import effects
import locks
from run import REPO, rel

HEADERS = ['curves/polynomial_splines_containers.hpp', 'curves/polynomial_splines.hpp', 'curves/PolynomialSplineScalarCurve.hpp',
           'curves/PolynomialSplineVectorSpaceCurve.hpp', 'curves/LocalSupport2CoefficientManager.hpp', 'curves/SamplingPolicy.hpp',
           'curves/KeyGenerator.hpp', 'curves/helpers.hpp']
COEFF = '''struct VpCoefficient { double v; bool operator==(const VpCoefficient& o) const { return v == o.v; }
  VpCoefficient() : v(0) {} };
inline std::ostream& operator<<(std::ostream& s, const VpCoefficient& c) { return s << c.v; }
'''


def instantiations(orders=(1, 2, 3, 4, 5), dims=(1, 2, 3, 4)):
    out = []
    for n in orders:
        out += ['template class curves::PolynomialSpline<%d>;' % n, 'template class curves::PolynomialSplineContainer<%d>;' % n,
                'template class curves::PolynomialSplineScalarCurve<curves::PolynomialSplineContainer<%d>>;' % n,
                'template class curves::PolynomialSplineVectorSpaceCurve<curves::PolynomialSpline<%d>, 3>;' % n]
    for d in dims:
        if d != 3:
            out.append('template class curves::PolynomialSplineVectorSpaceCurve<curves::PolynomialSpline<5>, %d>;' % d)
    out += ['template class curves::LocalSupport2CoefficientManager<double>;', 'template class curves::LocalSupport2CoefficientManager<VpCoefficient>;',
            'template class curves::LocalSupport2CoefficientManager<Eigen::Vector3d>;']
    return '\n'.join(out) + '\n'


def sources():
    """(kindr-free sources, sources that need kindr) of the library, as listed in its build file"""
    txt = re.sub(r'#[^\n]*', '', open(os.path.join(REPO, 'curves', 'CMakeLists.txt')).read())
    m = re.search(r'add_library\s*\(([^)]*)\)', txt)
    fs = re.findall(r'src/[\w./-]+\.cpp', m.group(1)) if m else []
    free, kindr = [], []
    for f in fs:
        p = os.path.join(REPO, 'curves', f)
        if not os.path.exists(p):
            continue
        (kindr if re.search(r'SE3|E3Curve|SE2', f) else free).append('curves/' + f)
    return free, kindr


def unit(tmp, name, text):
    p = os.path.join(tmp, name)
    with open(p, 'w') as f:
        f.write(text)
    return p


def heads():
    return ''.join('#include <%s>\n' % h for h in HEADERS if os.path.exists(os.path.join(REPO, 'curves/include', h)))


def units(tmp, kindr=True):
    """exported programs: all instantiations, and every source file of the library"""
    free, kin = sources()
    todo = [('all', unit(tmp, 'unit_all.cpp', heads() + COEFF + ''.join('#include "%s"\n' % s for s in free) + instantiations(dims=(3,))))]
    for s in (kin if kindr else []):
        todo.append((s, unit(tmp, 'unit_%s' % os.path.basename(s), '#include "%s"\n' % s)))
    out, err = [], []

    def go(x):
        n, p = x
        try:
            return n, run.export(p, p + '.json', all_=True), None
        except run.ExportError as ex:
            return n, None, str(ex)
    with ThreadPoolExecutor(8) as ex:
        for n, j, e in ex.map(go, todo):
            if j is None:
                err.append('%s: %s' % (n, (e or '')[-600:]))
            else:
                out.append((n, j))
    return out, err


def C20(tier, tmp):
    free, kin = sources()
    # the generator together with everything that hands keys on
    p = unit(tmp, 'unit_keys.cpp', '#include <curves/LocalSupport2CoefficientManager.hpp>\n' + COEFF + ''.join('#include "%s"\n' % s for s in free) +
             'template class curves::LocalSupport2CoefficientManager<double>;\n')
    try:
        j = run.export(p, p + '.json', all_=True)
    except run.ExportError as ex:
        return dict(undecided=['unit does not compile: %s' % str(ex)[-300:]], held=0)
    v, u, h, c = locks.check(effects.Program(j), rel)
    return dict(violations=v, undecided=u, held=h, coverage=dict(rule='every access to the shared key counter happens under one common static lock, or is one atomic '
                'read-modify-write; the counter is wide enough never to start over', **c))


def C27(tier, tmp):
    us, err = units(tmp)
    viol, und, seen = [], ['not analysed: ' + e for e in err], set()
    held, queries, fns = 0, set(), set()
    for name, j in us:
        P = effects.Program(j)
        for f in j['functions']:
            if not f['loc'].startswith(REPO) or not f.get('m') or f.get('ctor'):
                continue
            if not (f.get('const') or f.get('static')) or f['q'].startswith('curves::KeyGenerator::'):
                continue
            fns.add(f['q'])
            w, _ = P.summary(f['id'])
            ok = True
            for x in w.values():
                if x.atom == effects.THIS:
                    what = 'the object it is called on'
                elif x.atom[0] == 'global':
                    g = P.G.get(x.atom[1], {})
                    if 'KeyGenerator' in g.get('q', ''):
                        continue
                    if g.get('tls'):
                        und.append('%s keeps per-thread state in %s' % (f['q'], g.get('q')))
                        continue
                    what = 'the shared variable %s' % g.get('q')
                elif x.atom[0] == 'unknown':
                    und.append('%s: effect not understood at %s' % (f['q'], rel(x.loc)))
                    continue
                else:
                    continue
                if x.locked:
                    und.append('%s changes %s under a lock at %s' % (f['q'], what, rel(x.loc)))
                    continue
                ok = False
                key = (f['q'], f['loc'], x.loc, what)
                if key not in seen:
                    seen.add(key)
                    viol.append(dict(kind='effect', text='the read-only operation %s changes %s (%s)' % (f['q'], what, x.what), loc=rel(x.loc),
                                     where=['%s @ %s' % (f['q'], rel(f['loc']))] + [rel(y) for y in x.path], context='any call', witness='any two concurrent calls'))
            if ok:
                held += 1
                queries.add(f['q'] + ' @ ' + rel(f['loc']))
    return dict(violations=viol, undecided=und, held=held, coverage=dict(
        rule='no const or static member writes to its receiver or to a variable of static storage, directly or through what it calls (output arguments excepted)',
        units=[n for n, _ in us], read_only_operations=len(queries), operations=sorted(queries)[:400]))


ERR = re.compile(r'^([^\s:]+):(\d+):\d+: (?:fatal )?error: (.*)$', re.M)


def C19(tier, tmp):
    """compile-time witnesses: explicit instantiation of every class for every order, and a link without undefined or duplicate symbols"""
    free, kin = sources()
    viol, und, held = [], [], 0
    cov = dict(rule='all members of all supported instantiations compile; every declared public operation and constant is defined by the library; two users of '
                    'all headers link together with it')
    body = heads() + COEFF + instantiations()

    def V(text, loc, wh=None):
        if not any(v['text'] == text and v['loc'] == loc for v in viol):
            viol.append(dict(kind='compile', text=text, loc=loc, where=wh or [loc], context='explicit instantiation', witness='any program using it'))
    # 1. does every class instantiate?  (one unit per header first, so that headers are usable on their own)
    jobs = []
    for h in HEADERS:
        if os.path.exists(os.path.join(REPO, 'curves/include', h)):
            pre = '#include <curves/LocalSupport2CoefficientManager.hpp>\n' if 'SamplingPolicy' in h else ''
            jobs.append(('header ' + h, unit(tmp, 'h_%s.cpp' % os.path.basename(h), pre + '#include <%s>\n' % h), None))
    inst = [l for l in instantiations().splitlines() if l]
    groups = [inst[i::6] for i in range(6)]
    for i, g in enumerate(groups):
        jobs.append(('instances %d' % i, unit(tmp, 'i_%d.cpp' % i, heads() + COEFF + '\n'.join(g) + '\n'), g))
    inc = ['-std=gnu++14', '-w', '-I' + REPO + '/curves/include', '-I' + REPO, '-isystem', '/usr/include/eigen3']

    def syntax(j):
        n, p, g = j
        r = subprocess.run(['g++', '-O0', '-c', '-fmax-errors=20', '-o', p + '.o'] + inc + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return n, p, g, r.returncode, r.stdout
    objs = []
    with ThreadPoolExecutor(8) as ex:
        for n, p, g, rc, out in ex.map(syntax, jobs):
            if rc == 0:
                held += len(g) if g else 1
                if g:
                    objs.append(p + '.o')
                continue
            errs = ERR.findall(out)
            mine = [e for e in errs if e[0].startswith(REPO)]
            inst_at = re.findall(r'^(%s[^\s:]*):(\d+):\d+:\s+required from' % re.escape(REPO), out, re.M)
            if mine:
                for f, l, m in mine[:5]:
                    V('does not compile when used (%s): %s' % (n, m[:200]), rel(f) + ':' + l)
            elif inst_at and errs:
                V('does not compile when used (%s): %s' % (n, errs[0][2][:200]), rel(inst_at[0][0]) + ':' + inst_at[0][1])
            else:
                und.append('%s: %s' % (n, out[-300:]))
    # 2. everything declared is defined
    p = unit(tmp, 'whole.cpp', body + ''.join('#include "%s"\n' % s for s in free))
    try:
        j = run.export(p, p + '.json', all_=True)
        names = set()
        for u in j['undefined']:
            if not u['loc'].startswith(REPO) or u['access'] != 'public':
                continue
            V('%s is declared but the library does not define it' % u['q'], rel(u['loc']))
        for r in j['records']:
            if r.get('loc', '').startswith(REPO):
                for m in r['methods']:
                    if m['access'] == 'public' and not m.get('implicit'):
                        names.add(r['n'] + '::' + m['n'])
        held += len(names)
        cov['public_operations'] = sorted(names)
    except run.ExportError as ex:
        if not viol:
            und.append('whole-library unit: ' + str(ex)[-300:])
    # 3. link: users of all headers in two units, against the library's own sources
    if not viol and len(objs) == len(groups):
        one = unit(tmp, 'user1.cpp', heads() + 'int vp_user1() { return 0; }\n')
        two = unit(tmp, 'user2.cpp', heads() + use_everything() + 'int vp_user1();\nint main() { vp_use(); return vp_user1(); }\n')
        cmds = [(one, one + '.o'), (two, two + '.o')] + [(os.path.join(REPO, s), os.path.join(tmp, 'lib_' + os.path.basename(s) + '.o')) for s in free]

        def comp(c):
            return subprocess.run(['g++', '-O0', '-c', '-o', c[1]] + inc + [c[0]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(comp, cmds))
        bad = [(c, r) for c, r in zip(cmds, rs) if r.returncode]
        if bad:
            for c, r in bad:
                mine = [e for e in ERR.findall(r.stdout) if e[0].startswith(REPO)]
                if mine:
                    V('does not compile: %s' % mine[0][2][:200], rel(mine[0][0]) + ':' + mine[0][1])
                else:
                    und.append('%s: %s' % (c[0], r.stdout[-300:]))
        else:
            r = subprocess.run(['g++', '-o', os.path.join(tmp, 'witness')] + [c[1] for c in cmds] + objs + ['-lglog', '-lboost_system', '-lboost_thread', '-lpthread'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                und_ref = sorted(set(re.findall(r"undefined reference to `([^']*)'", r.stdout)))
                dup = sorted(set(re.findall(r"multiple definition of `([^']*)'", r.stdout)))
                for s in und_ref:
                    if 'curves::' in s:
                        V('%s is used but the library does not define it' % s, 'curves/CMakeLists.txt')
                for s in dup:
                    V('%s is defined in every unit that includes its header' % s, 'curves/include')
                if not und_ref and not dup:
                    und.append('link: ' + r.stdout[-300:])
            else:
                held += 2
                cov['link'] = 'two users of all headers, %d instantiation units and %d library sources link' % (len(objs), len(free))
    cov['instantiations'] = inst
    return dict(violations=viol, undecided=und, held=held, coverage=cov)


def use_everything():
    """odr-uses of the constants and of the member templates, which explicit instantiation does not reach"""
    out = ['template <class T> void vp_ref(const T&);', 'template <class T> void vp_ref(const T&) {}', 'void vp_use() {']
    for n in (1, 2, 3, 4, 5):
        S, C = 'curves::PolynomialSpline<%d>' % n, 'curves::PolynomialSplineContainer<%d>' % n
        out += ['{ vp_ref(%s::splineOrder); vp_ref(%s::coefficientCount); vp_ref(%s::undefinedValue);' % (S, S, C),
                '%s c; %s s; const %s k; c.addSpline(s); c.addSpline(k); c.addSpline(%s()); }' % (C, S, S, S)]
    out += ['{ const void* p[] = {' + ', '.join('(const void*)&curves::spline_traits::spline_rep<double, %d>::%s' % (n, x) for n in (1, 2, 3, 4, 5)
            for x in ('tauZero', 'dtauZero', 'ddtauZero')) + '}; vp_ref(p); }']
    out.append('}')
    return '\n'.join(out) + '\n'
