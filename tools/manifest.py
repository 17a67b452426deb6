#!/usr/bin/env python3
"""writes MANIFEST.json from the table of built checks"""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
props = [json.loads(l) for l in open('properties.jsonl')]
tech = json.load(open('tools/technique.json'))
DEF = "generated cases, replayable by seed and shrunk on failure; sound up to the stand-ins described in DESIGN.md; says nothing about inputs not generated"
checks, na = [], []
for p in props:
    i = p['id']
    if i in tech:
        t = tech[i]
        checks.append(dict(property=i, quick_cmd=f'./run.sh {i}', thorough_cmd=f'./run.sh {i}', technique=t['technique'], level='exploration', level_note=t.get('note', DEF)))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Each check builds /repo/ethereum-consensus from its working tree over the dependency stand-ins in shims/ and then searches generated inputs; see DESIGN.md.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
