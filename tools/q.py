#!/usr/bin/env python3
"""Analyse ad-hoc obligations: q.py FILE.rs [filter]   (functions named ob_*; the harness prelude is added)."""
import json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, harness
f = sys.argv[1]
h = harness.Harness('Q')
for k in list(harness.spec.KINDS):
    h.use_kind(k)
src = h.source() + '\n' + open(f).read()
rm, dirs = check.deps('full')
work = os.path.join(check.BUILD, f'work-{os.getpid()}')
try:
    listed, res, vis, err = check.analyse(src, rm, dirs, work, 'q', sys.argv[2] if len(sys.argv) > 2 else None)
finally:
    shutil.rmtree(work, ignore_errors=True)
if os.environ.get('BITFLOW_TRACE'):
    print(err)
for n, d in sorted(res.items()):
    print(n, d['status'], d['why'], 'secs', d['secs'], 'nodes', d['nodes'], 'blocks', d['blocks'], 'checks', d['checks'], d['covers'])
    for e in d['events']:
        print('   ', e['kind'], e['msg'], '|', e['func'], e['site'], check.witness_values(e['witness']))
