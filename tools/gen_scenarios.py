"""Writes SCENARIOS.md: every scenario with its purpose, and every planted
change with what needs to happen for it to show (from seeded/*/meta.json) and,
when the log of a run of the checks over them is given, the scenarios that
caught it."""
import ast
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scen = {}
for path in sorted(glob.glob(os.path.join(ROOT, 'rv', 'props', '*.py'))):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'scenario':
                    doc = ' '.join((ast.get_docstring(node) or '').split())
                    n = ast.literal_eval(d.args[1]) if isinstance(d.args[1], ast.Constant) else '?'
                    scen.setdefault(d.args[0].value, []).append((node.name, n, doc, os.path.basename(path)))
caught = {}
if len(sys.argv) > 1:
    for line in open(sys.argv[1]):
        m = re.match(r'(\S+) (C\d\d) rc=(\d+) scen=(.*)', line)
        if m:
            caught[m.group(1)] = (m.group(2), int(m.group(3)), re.sub(r':\d+', '', m.group(4)).split())
out = ['# Scenarios and planted changes', '', '(written by tools/gen_scenarios.py)', '', '## Scenarios of each check', '']
for p in sorted(scen):
    out += ['**{}** ({})'.format(p, scen[p][0][3]), '']
    for name, n, doc, _ in scen[p]:
        out.append('* `{}` ({} cases in quick){}'.format(name, n, ': ' + doc if doc else ''))
    out.append('')
out += ['## Planted changes and what catches them', '',
        '"caught by" lists the scenarios of the quick check of the property that reported it (seed 1).', '',
        '| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    meta = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    c = caught.get(d)
    what = '' if c is None else (', '.join(c[2]) if c[1] == 1 else 'missed')
    out.append('| {} | {} | {} | {} |'.format(d, meta['property'], ' '.join(meta['needs'].split()).replace('|', '/'), what))
open(os.path.join(ROOT, 'SCENARIOS.md'), 'w').write('\n'.join(out) + '\n')
