#!/usr/bin/env python3
"""Writes DESIGN.md: head, one section per property from props and evidence, tail."""
import json, os, glob, importlib.util
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
props = []
for f in sorted(glob.glob(here + '/props_*.py')):
    spec = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    props += m.PROPS
props.sort(key=lambda p: p['id'])
groups = dict(l.split() for l in open(root + '/groups.txt') if l.strip())
out = [open(here + '/design_head.md').read().rstrip(), '']
one = lambda s: ' '.join(s.split())
caught = {}
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d)); caught.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
for p in props:
    e = json.load(open(root + '/evidence/%s.json' % p['id'])); c = e['coverage']
    out += ['### %s %s' % (p['id'], p['title']), '',
            one(p['statement']), '',
            '*Simulation (group %s).* %s' % (groups[p['id']], one(c['rule'])), '',
            '*Decided by.* %s. Real code: %s. Stand-ins: %s.' % (one(p['tech']), ', '.join(c['components_real'] or ['every processor of pkg/dsp and the chains of pkg/framework/dsp']), ', '.join(c['components_stub'] or ['none'])), '']
    f = sorted(c.get('faults_injected') or {})
    if f: out += ['*Faults.* %s.' % ', '.join(f), '']
    b = '*Bounds and assumptions.* %d runs in the quick tier%s; distinctness measured as: %s.' % (c['planned_runs'], ' and %d under the race detector' % c['race_build_runs'] if c.get('race_build_runs') else '', c['distinct_states_measure'])
    if e.get('assumptions'): b += ' Assumed: ' + '; '.join(e['assumptions']) + '.'
    out += [b, '', '*Beyond the tests.* %s' % one(p['why']), '']
    if p['id'] in caught: out += ['*Planted bugs.* ' + '; '.join('`%s` (%s)' % (n, one(m.get('what_it_breaks', ''))) for n, m in caught[p['id']]) + '.', '']
tail = open(here + '/design_tail.md').read()
rows = ['Which check catches which:', '', '| planted bug | property | caught by |', '|---|---|---|']
res = {}
if os.path.exists(here + '/caught.json'): res = json.load(open(here + '/caught.json'))
for pid in sorted(caught):
    for n, m in caught[pid]:
        rows.append('| %s | %s | %s |' % (n, pid, ', '.join(res.get(n, [])) or 'missed'))
out.append(tail.replace('PLANTTABLE', '\n'.join([''] + rows + [''])).rstrip())
open(root + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
