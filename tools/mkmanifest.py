#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'static abstract interpretation (guarded value numbering of the resolved AST)'
NOTE = ('Decided from the source without running it: every operation the property names is interpreted abstractly over unknown inputs '
        '(all real values, all feasible orderings of times) in the listed calling contexts; unbounded in values, bounded in container sizes '
        'and in the length of operation histories (DESIGN.md). Doubles are treated as real numbers. Trusts clang, the exporter, and the '
        'engine\'s semantics of C++, the standard library, Eigen and streams. Undecided obligations are listed in the evidence, never counted as discharged.')
claims = {p: (AI, NOTE) for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C21 C22 C23 C24 C25 C26 C28 C29 C31 C32 C33 C34 C35 C36 C37 C38'.split()}
claims['C19'] = ('compile- and link-time witnesses over explicit instantiations, plus a declared-but-undefined query over the syntax tree',
  'Every class template is instantiated for every supported order and several coefficient types, every public declaration is matched with a definition, and two users of all headers are linked with the library sources. The SE2/SE3 headers are outside (kindr is not installed).')
claims['C20'] = ('interprocedural lockset and escape analysis of the shared key counter, plus abstract interpretation of the key sequence', NOTE)
claims['C27'] = ('interprocedural effect (purity) analysis of all const and static member functions',
  'For every const or static member of every class: no write reaches the receiver or a variable of static storage, through any call chain the exporter resolves (standard library and Eigen calls are summarised by their signatures). Effects behind a lock or per-thread are reported as undecided, not as violations.')
KIN = (' kindr and ROS are not installed: their types are modelled by the headers in stubs/, with the exponential and logarithmic maps of rotations '
       'replaced by a rational model that satisfies exp(0)=1, exp(-w)=exp(w)^-1, log(exp(w))=w, unit norm and rotation about w.')
for i in ('C25', 'C28', 'C31', 'C32', 'C33', 'C35', 'C36', 'C38'):
    claims[i] = (AI, NOTE + KIN)
na = {
 'C30': 'A bound on floating-point error for every knot spacing is a numerical quantity of a pivoted QR/LDLT solve; no sound static argument in reach bounds it usefully, and sampling would be a runtime test. The engine treats doubles as reals.',
}
EXTRA = os.path.join(V, 'tools', 'claims.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
for i in ids:
    if i not in claims and i not in na:
        na[i] = 'Not claimed yet: its check is being built.'
m = dict(version=1, setup_cmd='bash cxdump/build.sh',
         checks=[dict(property=i, quick_cmd='python3 engine/check.py %s' % i, thorough_cmd='python3 engine/check.py %s --tier thorough' % i,
                      evidence_file='evidence/%s.json' % i, technique=claims[i][0], level='other', level_note=claims[i][1]) for i in ids if i in claims],
         not_applicable=[dict(property=i, reason=na[i]) for i in ids if i not in claims],
         notes='No hooks: nothing in /repo is instrumented. Genuine defects found are repaired by the fix: commits listed in known_findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
