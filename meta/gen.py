#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and harness/jobs.py."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(V, 'meta'), os.path.join(V, 'harness')]
import props, jobs
order = [p for p in props.TEXT if p in jobs.PROPS or p in props.NOT_APPLICABLE]
for p in jobs.PROPS:
    if p not in props.TEXT and not p.startswith('Z'): print('no text for', p)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in order:
        d = dict(props.TEXT[p]); d.pop('note'); assert len(d['title']) <= 80, (p, len(d['title'])); f.write(json.dumps(d) + '\n')
tech = 'symbolic execution of the LLVM bitcode of the real code, path conditions and assertions decided by z3, counterexamples replayed natively'
m = dict(version=1, setup_cmd='./check --setup', checks=[dict(property=p, quick_cmd='./check %s --tier quick' % p, thorough_cmd='./check %s --tier thorough' % p, technique=tech, level='model_checking', level_note=props.TEXT[p]['note']) for p in order if p in jobs.PROPS and p not in props.NOT_APPLICABLE],
         not_applicable=[dict(property=p, reason=r) for p, r in props.NOT_APPLICABLE.items()])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
