#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = 'bit-level forward dataflow over monomorphised MIR (canonical Boolean functions per bit, joined at merges)'


def prop(id, title, statement, qtext, why, files, mech, over=('inputs',), observe=(), tech=TECH, level='proof', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
    P[-1]['_'] = dict(tech=tech, level=level, note=note, na=na)


exec(open(os.path.join(V, 'tools', 'meta_props.py')).read())

assert len({p['id'] for p in P}) == len(P)
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        x = p.pop('_')
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
        if x['na']:
            na.append(dict(property=p['id'], reason=x['na']))
        elif os.path.exists(os.path.join(V, 'props', p['id'].lower() + '.py')):
            checks.append(dict(property=p['id'], quick_cmd=f"python3 tools/check.py {p['id']} --tier quick",
                               thorough_cmd=f"python3 tools/check.py {p['id']} --tier thorough",
                               evidence_file=f"evidence/{p['id']}.json", technique=x['tech'], level=x['level'], level_note=x['note']))
        else:
            na.append(dict(property=p['id'], reason='Static analysis applies; its check is not part of this commit yet.'))
m = dict(version=1, setup_cmd='python3 tools/check.py --setup', checks=checks, not_applicable=na,
         notes='No hooks: the checks analyse the unmodified crate through its public API. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
