#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_data.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props_data  # noqa
TOP = os.path.dirname(HERE)

lines = []
checks = []
for p in sorted(props_data.ALL, key=lambda p: p['id']):
    assert len(p['title']) <= 80, p['title']
    assert os.path.exists('%s/props/%s.py' % (TOP, p['id'])) , p['id']
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [
            {'name': a, 'where': b} for a, b in p['mech']]}}))
    checks.append({
        'property': p['id'],
        'quick_cmd': './check %s quick' % p['id'],
        'thorough_cmd': './check %s thorough' % p['id'],
        'technique': 'symbolic execution of the Python source, decided by '
                     'an SMT solver (z3)',
        'level': 'model_checking',
        'level_note': p['level_note'] or
        'exhaustive for every input within the bounds written to the '
        'evidence; counterexamples are replayed on the unmodified code'})
with open(TOP + '/properties.jsonl', 'w') as f:
    f.write('\n'.join(lines) + '\n')
with open(TOP + '/MANIFEST.json', 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './check --selftest',
               'checks': checks,
               'not_applicable': props_data.__dict__.get('NA', [])},
              f, indent=1)
    f.write('\n')


# DESIGN.md: the part between the markers.
import ast  # noqa
import glob  # noqa


def const(prop, name):
    for node in ast.parse(open('%s/props/%s.py' % (TOP, prop)).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id == name:
            try:
                return ast.literal_eval(node.value)
            except ValueError:
                return None
    return None


out = []
for p in sorted(props_data.ALL, key=lambda p: p['id']):
    b = const(p['id'], 'BOUNDS')
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('Symbolic: %s. Code: %s. %s\n' % (
        p['text'], '; '.join(m[1] for m in p['mech']), p.get('how') or
        'Oracle: the statement, coded independently in `props/%s.py`.' %
        p['id']))
    out.append('Bounds: %s (thorough: %s). Outside: %s.\n' % (
        b['quick'], b['thorough'], const(p['id'], 'OUTSIDE')))
out.append('## Planted bugs\n')
out.append('`tools/plant.py` plants them in a scratch copy, runs the tests, '
           'the demonstration and the check.\n')
out.append('| bug | property | needs | caught |')
out.append('|---|---|---|---|')
res = json.load(open(HERE + '/seeded_results.json'))
for d in sorted(glob.glob(TOP + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |' % (
        i, m['property'], m['needs'], res.get(i, '?')))
out.append('\n## Defects found and repaired\n')
for line in json.load(open(TOP + '/known-findings.json'))['fixed']:
    out.append('* ' + line[len('fixed: property='):])
text = open(TOP + '/DESIGN.md').read()
a, rest = text.split('<!-- table -->\n')
b = rest.split('<!-- end -->')[1]
with open(TOP + '/DESIGN.md', 'w') as f:
    f.write(a + '<!-- table -->\n' + '\n'.join(out) + '\n<!-- end -->' + b)
