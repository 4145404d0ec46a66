#!/usr/bin/env python3
"""Run the obligations of a property module ad hoc: qq.py c14 [filter] -> prints per root events."""
import importlib, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/tools', V + '/props']
import check
mod = importlib.import_module(sys.argv[1])
for h in mod.harness(os.environ.get('TIER', 'quick')):
    rm, dirs = check.deps(getattr(h, 'features', 'full'))
    work = os.path.join(check.BUILD, f'work-{os.getpid()}')
    try:
        listed, res, vis, err = check.analyse(h.source(), rm, dirs, work, 'q', sys.argv[2] if len(sys.argv) > 2 else None)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad = 0
    for n, d in sorted(res.items()):
        if h.roots[n]['panics']:
            if not d['events']:
                print(n, 'no panic'); bad += 1
            d['events'] = [e for e in d['events'] if e['kind'] != 'panic']
        miss = [c for c in h.roots[n]['covers'] if c not in d['covers']]
        if miss:
            print(n, 'vacuous', miss, d['checks'])
        if d['status'] != 'analysed' or d['events'] or d['secs'] > 5:
            bad += 1
            print(n, d['status'], d['why'], 'secs', d['secs'], 'nodes', d['nodes'])
            for e in d['events'][:3]:
                print('   ', e['kind'], e['msg'], '|', e['func'], e['site'], check.witness_values(e['witness']))
    print(len(res), 'roots', bad, 'bad or slow; total secs', sum(d['secs'] for d in res.values()))
