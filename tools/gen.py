#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/meta.py"""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(D, 'tools'))
from meta import P, NA, NOTES
with open(os.path.join(D, 'properties.jsonl'), 'w') as f:
    for p in P + NA:
        assert len(p['title']) <= 80, p['title']
        r = dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p.get('over', ['inputs']), text=p['forall']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        if 'observe' in p:
            r['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(r) + '\n')
m = dict(version=1, setup_cmd='bin/setup', checks=[dict(property=p['id'],
        quick_cmd=f"bin/check {p['id']} quick", thorough_cmd=f"bin/check {p['id']} thorough",
        technique='symbolic execution of the real Python functions; assertions discharged by z3 over all inputs within bounds; counterexamples replayed on the untouched code',
        level='other', level_note=p['note']) for p in P],
    not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA], notes=NOTES)
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
# DESIGN.md from its template
import importlib, subprocess
t = open(os.path.join(D, 'tools', 'DESIGN.tpl')).read()
kf = json.load(open(os.path.join(D, 'known_findings.json')))
import ast
def docs(pid):
    """the doc(...) call and module docstring of a harness file"""
    src = open(os.path.join(D, 'props', pid + '.py')).read()
    tree = ast.parse(src)
    names, bounds, assume = [], '', []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and any(isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness' for d in n.decorator_list):
            names.append(n.name + (f' ({ast.get_docstring(n).splitlines()[0]})' if ast.get_docstring(n) else ''))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == 'doc':
            a = [eval(compile(ast.Expression(x), '', 'eval')) for x in n.value.args[1:]]
            bounds = a[0]
            assume = a[1] if len(a) > 1 else []
    return names, bounds, assume
out = []
for p in P:
    n, b, a = docs(p['id'])
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n* Encoded from: {', '.join('`%s`' % m[1].replace('gravity_toolkit/', '') for m in p['mech'])}"
        f"\n* Harnesses: {'; '.join(n)}\n* Bounds: {b}" + (f"\n* Assumes: {'; '.join(a)}" if a else '')
        + (f"\n* Oracle: {p['oracle']}" if p.get('oracle') else '') + f"\n* Beyond tests: {p['why']}\n")
seeds = []
sd = os.path.join(D, 'seeded')
for s in sorted(os.listdir(sd)):
    if os.path.exists(os.path.join(sd, s, 'meta.json')):
        m = json.load(open(os.path.join(sd, s, 'meta.json')))
        seeds.append(f"| {s} | {m['property']} | {m['what_it_breaks']} |")
t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@FIXES@@', '\n'.join('* ' + x[len('fixed: property='):] for x in kf['fixed'])
    + ('\n\nRecorded, not repaired:\n\n' + '\n'.join(f"* {x['property']}: {x['what']}" for x in kf['findings']) if kf['findings'] else ''))
t = t.replace('@@NA@@', '\n'.join(f"* {p['id']} {p['title']}: {p['reason']}" for p in NA))
t = t.replace('@@SEEDS@@', 'Every bug listed is caught by the quick check of its property unless noted.\n\n| bug | check | breaks |\n|---|---|---|\n' + '\n'.join(seeds))
open(os.path.join(D, 'DESIGN.md'), 'w').write(t)
