#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, level='proof', note='', state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=observe, hook_needed=None)))
    P[-1]['_level'], P[-1]['_note'] = level, note


exec(open(V + '/tools/props.py').read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
m = dict(version=1, setup_cmd='python3-vt tools/setup.py',
         hooks=dict(guard='none', enable='no hooks: the checks compile the unmodified sources in /repo/src', source_commits=[]),
         checks=[], not_applicable=NA)
for p in P:
    if p['_level'] is None:
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'],
                            thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                            technique='contract-based deductive verification (irv: contracts over the LLVM IR of /repo/src, z3)',
                            level=p['_level'], level_note=p['_note']))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
