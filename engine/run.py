"""Runs the specification contexts of one property over the exported program."""
import json
import os
import random
import re
import subprocess
import sys
import time
import traceback
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
sys.path.insert(0, HERE)

CXX13 = '*/c++/13/bits/'
LIBSRC = [CXX13 + 'stl_algo.h', CXX13 + 'stl_numeric.h', CXX13 + 'predefined_ops.h', CXX13 + 'stl_function.h',
          CXX13 + 'stl_algobase.h']


def flags():
    return ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-std=gnu++14', '-w', '-I' + VERIF + '/stubs', '-I' + VERIF + '/drivers',
            '-I' + REPO + '/curves/include', '-I' + REPO + '/curves_ros/include', '-I' + REPO, '-isystem', '/usr/include/eigen3', '-ferror-limit=5']


def ensure_tool():
    t = os.path.join(BUILD, 'cxdump')
    src = os.path.join(VERIF, 'cxdump', 'cxdump.cpp')
    if not os.path.exists(t) or os.path.getmtime(t) < os.path.getmtime(src):
        import fcntl
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, 'lock'), 'w') as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            if not os.path.exists(t) or os.path.getmtime(t) < os.path.getmtime(src):
                subprocess.check_call(['bash', os.path.join(VERIF, 'cxdump', 'build.sh'), t])
    return t


class ExportError(Exception):
    pass


def export(driver, out, all_=False, extra=()):
    t = ensure_tool()
    cmd = [t, '-o', out] + (['--all'] if all_ else []) + ['--user', REPO + '/', '--user', VERIF + '/drivers/', '--user', VERIF + '/stubs/kindr', '--user', VERIF + '/stubs/ros',
                                                         '--user', VERIF + '/stubs/trajectory_msgs', '--user', VERIF + '/stubs/std_msgs']
    for l in LIBSRC:
        cmd += ['--user', l]
    cmd += [driver, '--'] + flags() + list(extra)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise ExportError(r.stdout[-3000:])
    return json.load(open(out))


ENTRY = re.compile(r'^VP_(RUN|MORE)\(\s*(\w+)\s*,\s*([^)]*)\)', re.M)


def entries(pid=None):
    """[(driver, entry, [arg tokens], thorough only)] from the lines  VP_RUN(entry, n, a..b, @)"""
    out = []
    d = os.path.join(VERIF, 'drivers')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.cpp'):
            continue
        txt = open(os.path.join(d, fn)).read()
        for m in ENTRY.finditer(txt):
            name = m.group(2)
            p = name.split('_')[2]
            if pid is not None and p != pid:
                continue
            a = [x.strip() for x in m.group(3).split(',') if x.strip()]
            out.append((fn, name, a, m.group(1) == 'MORE'))
    return out


def expand(tokens, sizes=(), consts=()):
    """argument values; '@' stands for the sizes harvested from the code's own thresholds, '#' for its larger constants"""
    out = []
    for t in tokens:
        if t == '@':
            out += [s for s in sizes if s not in out]
        elif t == '#':
            out += [s for s in consts if s not in out]
        elif '..' in t:
            a, b = t.split('..')
            out += list(range(int(a), int(b) + 1))
        else:
            out.append(int(t))
    return out


def literals(js):
    """small integer constants of the repository's code (possible size thresholds)"""
    out = set()

    def walk(e):
        if isinstance(e, dict):
            if e.get('k') == 'int':
                try:
                    out.add(int(e['v']))
                except (ValueError, KeyError):
                    pass
            for v in e.values():
                walk(v)
        elif isinstance(e, list):
            for v in e:
                walk(v)
    for f in js['functions']:
        if (f.get('loc') or '').startswith(REPO):
            walk(f.get('body'))
    for g in js.get('globals', ()):
        if (g.get('loc') or '').startswith(REPO):
            walk(g.get('init'))
    return out


def constants(js):
    """the value just below every larger integer constant of the repository's code"""
    out = set()

    def walk(e):
        if isinstance(e, dict):
            if e.get('k') == 'int':
                try:
                    v = int(e['v'])
                    if v >= 16:
                        out.update((v - 2, v - 1))
                except (ValueError, KeyError):
                    pass
            for v in e.values():
                walk(v)
        elif isinstance(e, list):
            for v in e:
                walk(v)
    for f in js['functions']:
        if (f.get('loc') or '').startswith(REPO):
            walk(f.get('body'))
    for g in js.get('globals', ()):
        if (g.get('loc') or '').startswith(REPO):
            walk(g.get('init'))
    return sorted(out)[:40]


def rel(loc):
    return (loc or '').replace(REPO + '/', '')


def _roomy(f, x):
    return f(x)


try:
    # CPython maps and unmaps a 16 kB piece of its frame stack at every call that crosses the end of one; a caller with a large
    # frame makes it provide one large piece up front
    _roomy.__code__ = _roomy.__code__.replace(co_stacksize=1 << 18)
except (AttributeError, TypeError, ValueError):
    pass


def analyse(job):
    """one context: (json path, entry name, args, seed, opts)"""
    return _roomy(_analyse, job)


def _analyse(job):
    path, name, args, seed, opts = job
    t0 = time.time()
    import dd
    import poly as P
    import interp
    import lib
    import decide
    dd.reset()
    lib.attach()
    js = json.load(open(path))
    prog = interp.Prog(js)
    fid = None
    for f in js['functions']:
        if f['n'] == name:
            fid = f['id']
    res = dict(entry=name, args=args, held=0, ident=0, vacuous=0, unknown=[], refuted=[], functions=[], branches=0, labels=[], error=None)
    if fid is None:
        res['error'] = 'entry not found'
        return res
    I = interp.Interp(prog, lib, {'repo': REPO})
    dd.LIMIT[0] = opts.get('limit', 3_000_000)
    I.deadline = t0 + opts.get('timeout', 240)
    trace = ''
    try:
        I.run(fid, [dd.num(a) for a in args])
    except interp.Unsupported as ex:
        res['error'] = 'not analysed: %s (%s)' % (ex, rel(ex.loc or I.cur_loc))
        trace = traceback.format_exc()
    except (dd.Budget, interp.Timeout) as ex:
        res['error'] = 'budget: %s (%s)' % (ex, rel(I.cur_loc))
    except RecursionError:
        res['error'] = 'recursion limit (%s)' % rel(I.cur_loc)
    except Exception as ex:          # a defect of the analyser must never look like one of the program
        res['error'] = 'internal: %s: %s (%s)' % (type(ex).__name__, ex, rel(I.cur_loc))
        trace = traceback.format_exc()
    if trace and os.environ.get('VP_TRACE'):
        print(trace)
    D = decide.Decider(I, seed, samples=opts.get('samples', 3), maxpaths=opts.get('maxpaths', 3000))
    D.deadline = time.time() + opts.get('timeout', 240)
    for ev in I.events:
        kind, g, loc, text, where = ev
        try:
            r = D.event(ev)
        except Exception as ex:
            r = ('unknown', 'internal: %r' % (ex,))
        if r[0] == 'refuted':
            res['refuted'].append(dict(kind=kind, text=text, loc=rel(loc), where=where, witness=D.witness(r[1])))
        elif r[0] == 'unknown':
            res['unknown'].append('%s %s at %s: %s' % (kind, text, rel(loc), r[1]))
    for ob in I.obligations:
        try:
            if ob[1] == 'equal' and not dd.feasible(ob[2][0]):
                res['vacuous'] += 1
                continue
            r = D.obligation(ob)
        except Exception as ex:
            r = ('unknown', 'internal: %s %s' % (type(ex).__name__, ex), None)
            if os.environ.get('VP_TRACE'):
                traceback.print_exc()
        if r[0] == 'held':
            res['held'] += 1
            if r[1] == 'identity':
                res['ident'] += 1
        elif r[0] == 'refuted':
            res['refuted'].append(dict(kind='obligation', text='%s: %s' % (ob[0], r[1]), label=ob[0], loc=rel(ob[4]), where=[rel(x) for x in ob[3]], witness=D.witness(r[2])))
        else:
            res['unknown'].append('%s: %s' % (ob[0], r[1]))
        res['labels'].append(ob[0])
    res['labels'] = sorted(set(res['labels']))
    res['functions'] = sorted({prog.fn[i]['q'] + ' @ ' + rel(prog.fn[i]['loc']) for i in I.touched if (prog.fn[i].get('loc') or '').startswith(REPO)})
    res['branches'] = len(I.branch_sites)
    res['sites'] = sorted(rel(x) for x in I.branch_sites)
    res['regions'] = D.regions
    res['points'] = D.points
    res['solves'] = len(I.solves)
    res['nodes'] = dd._ctr[0]
    res['fm'] = dd.FM_CALLS[0]
    res['wall'] = round(time.time() - t0, 2)
    return res

