#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/props_*.py."""
import json, os, glob, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
props, na = [], []
for f in sorted(glob.glob(os.path.join(here, 'props_*.py'))):
    spec = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    props += m.PROPS
    na += getattr(m, 'NA', [])
groups = dict(l.split() for l in open(os.path.join(here, '..', 'groups.txt')) if l.strip())
props.sort(key=lambda p: p['id'])
checks = []
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['id']
        q = {'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
             'quantifier': {'over': p['over'], 'text': ' '.join(p['qtext'].split())},
             'why_tests_cant': ' '.join(p['why'].split()),
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'observe_at': p['observe'], 'hook_needed': None}}
        f.write(json.dumps(q) + '\n')
        if 'na' in p:
            na.append({'property': p['id'], 'reason': ' '.join(p['na'].split())})
        elif p['id'] in groups:
            checks.append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': 'deterministic simulation with fault injection: ' + ' '.join(p['tech'].split()),
                           'level': 'exploration', 'level_note': ' '.join(p['note'].split())})
        else:
            raise SystemExit('no check for ' + p['id'])
man = {'version': 1, 'setup_cmd': './check.sh setup',
       'hooks': {'guard': 'none',
                 'enable': 'No hooks in /repo: each check instruments a scratch copy of /repo\'s working tree (instr/: scheduler yield points, sync, sync/atomic, time and math/rand shims, seeded map iteration) and builds the simulator against it.',
                 'source_commits': []},
       'checks': checks, 'not_applicable': na,
       'notes': 'check.sh ID runs a check, check.sh replay FILE re-executes a replay file; DESIGN.md describes the rest.'}
json.dump(man, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, '..', 'MANIFEST.json'), 'a').write('\n')
print(len(props), 'properties', len(checks), 'checks', len(na), 'n/a')
