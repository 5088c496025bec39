#!/usr/bin/env python3
"""check <property> [--tier quick|thorough]: decides one property on /repo's current source.

Exit 0: held on everything analysed.  Exit 1 with a VIOLATION line: a construct violates it.
Exit 2: nothing could be decided (never counted as a pass).
"""
import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import run
from run import VERIF, REPO, BUILD

TRUSTED = ['clang 18 front end (name lookup, overload resolution, template instantiation)', 'cxdump (exporter of the resolved program)',
           'engine/ (abstract semantics of C++, of the standard containers, of Eigen and of streams)',
           'real-number semantics for double arithmetic (rounding is C30, not claimed)']


def known():
    out = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].split(' | ')[0].split() if '=' in x)
                d['text'] = l.split(' | ', 2)[1] if ' | ' in l else ''
                d['what'] = l.split(' | ', 2)[2] if l.count(' | ') >= 2 else l
                out.append(d)
    return out


def engine_check(pid, tier, seed, tmp):
    """contexts of the abstract interpreter"""
    todo = [e for e in run.entries(pid) if tier == 'thorough' or not e[3]]
    drivers = sorted({e[0] for e in todo})
    if not todo:
        return None
    js = {}
    errs = []
    with Pool(min(8, len(drivers))) as pool:
        rs = [(d, pool.apply_async(_export, (d, os.path.join(tmp, d + '.json')))) for d in drivers]
        for d, r in rs:
            ok, x = r.get()
            if ok:
                js[d] = x
            else:
                errs.append('%s: %s' % (d, x))
    jobs = []
    for d, name, toks, more in todo:
        if d not in js:
            continue
        lits = js[d]['sizes'] if '@' in toks else []
        for a in run.expand(toks, lits, js[d]['consts'] if '#' in toks else []):
            jobs.append((os.path.join(tmp, d + '.json'), name, [a], seed, {'timeout': 100 if tier == 'quick' else 600}))
    jobs = list(dict((json.dumps(j[:3]), j) for j in jobs).values())
    # long contexts first is not known in advance; spread them
    limit = 600 if tier == 'quick' else 6000
    t0 = time.time()
    results = []
    skipped = 0
    with Pool(8, maxtasksperchild=40) as pool:
        it = pool.imap_unordered(run.analyse, jobs, chunksize=1)
        for _ in jobs:
            try:
                results.append(it.next(timeout=max(1, limit - (time.time() - t0))))
            except Exception as ex:
                skipped = len(jobs) - len(results)
                errs.append('stopped: %s' % type(ex).__name__)
                pool.terminate()
                break
    results.sort(key=lambda r: (r['entry'], r['args']))
    return dict(results=results, errors=errs, skipped=skipped, jobs=len(jobs))


def _export(driver, out):
    try:
        j = run.export(os.path.join(VERIF, 'drivers', driver), out)
        lits = run.literals(j)
        sizes = sorted({c + k for c in lits for k in (0, 1, 2, 3) if 4 <= c and 5 <= c + k <= 68})
        return True, dict(functions=len(j['functions']), records=len(j['records']), sizes=sizes[:24], consts=run.constants(j),
                          repo=len([f for f in j['functions'] if (f.get('loc') or '').startswith(REPO)]))
    except run.ExportError as ex:
        return False, str(ex)[-1500:]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    run.ensure_tool()
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid, dir=BUILD)
    viol, undecided, cov, nheld = [], [], {}, 0
    try:
        e = engine_check(pid, tier, seed, tmp)
        if e is not None:
            held = ident = vac = regions = points = 0
            fns, sites, labels, ctxs = set(), set(), {}, 0
            for r in e['results']:
                held += r['held']
                ident += r['ident']
                vac += r['vacuous']
                regions += r.get('regions', 0)
                points += r.get('points', 0)
                fns |= set(r['functions'])
                sites |= set(r.get('sites', ()))
                for l in r['labels']:
                    labels[l] = labels.get(l, 0) + 1
                ctx = '%s(%s)' % (r['entry'], ', '.join(map(str, r['args'])))
                if r['error']:
                    undecided.append('%s: %s' % (ctx, r['error']))
                else:
                    ctxs += 1
                undecided += ['%s: %s' % (ctx, u) for u in r['unknown']]
                for f in r['refuted']:
                    viol.append(dict(f, context=ctx))
            undecided += e['errors']
            if e['skipped']:
                undecided.append('%d contexts not analysed in the time limit' % e['skipped'])
            nheld += held
            cov.update(obligations=held + len(viol) + len(undecided), discharged=held, by_random_interpretation=ident,
                       vacuous=vac, contexts=e['jobs'], contexts_complete=ctxs, regions_examined=regions, points_interpreted=points,
                       functions_analysed=sorted(fns), branch_sites=len(sites), rules=labels)
        import rules
        if hasattr(rules, pid):
            r = getattr(rules, pid)(tier, tmp)
            viol += r.get('violations', [])
            undecided += r.get('undecided', [])
            nheld += r.get('held', 0)
            cov['structural'] = r.get('coverage', {})
            cov['obligations'] = cov.get('obligations', 0) + r.get('held', 0) + len(r.get('violations', ()))
            cov['discharged'] = cov.get('discharged', 0) + r.get('held', 0)
            if r.get('broken'):
                undecided.append(r['broken'])
                nheld = 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # known findings
    kf = [k for k in known() if k.get('property') == pid]
    new, seen = [], set()
    for v in viol:
        key = '%s %s %s' % (v.get('text', ''), v.get('loc', ''), v.get('context', ''))
        m = next((k for k in kf if k['text'] and k['text'] in key), None)
        if m:
            seen.add(m['what'])
        else:
            new.append(v)
    for w in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov['explanation'] = ('Static analysis of the resolved program (clang AST exported from the current source): abstract interpretation of '
                          'every operation the property names, in contexts whose inputs are unknowns, over guarded value numbers; each listed '
                          'rule is an obligation checked on all feasible regions of all contexts.')
    cov['trusted_base'] = TRUSTED
    cov['undecided'] = undecided[:60]
    cov['undecided_count'] = len(undecided)
    cov['samples'] = [dict(rule=k, contexts=n) for k, n in list(sorted(cov.get('rules', {}).items()))[:5]]
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=['double arithmetic is treated as exact real arithmetic', 'container sizes as listed in the contexts (DESIGN.md)'])
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + '.json')
        json.dump(new, open(p, 'w'), indent=1, default=str)
        shown = []
        for v in new:
            k = (v.get('text', '')[:60], str(v.get('loc')))
            if k in shown:
                continue
            shown.append(k)
            if len(shown) > 6:
                break
            print('  %s at %s' % (v.get('text'), v.get('loc')))
            if v.get('where'):
                print('    through: %s' % (', '.join(v['where']) if isinstance(v['where'], list) else v['where']))
            print('    context %s, for example with %s' % (v.get('context'), v.get('witness')))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    print('%s: %d obligations discharged, %d undecided, %.1f s' % (pid, nheld, len(undecided), time.time() - t0))
    for u in undecided[:8]:
        print('  undecided: %s' % u[:300])
    if nheld == 0:
        print('  nothing was decided')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
