"""DESIGN.md from the checks' own statements of what they do."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))
import generate  # noqa


def consts(pid):
    import ast
    out = {}
    for node in ast.parse(open(os.path.join(V, 'mc', 'props', pid.lower() + '.py')).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('BOUND', 'ASSUMPTIONS'):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def seeded():
    rows = {}
    d = os.path.join(V, 'seeded')
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        m = os.path.join(d, n, 'meta.json')
        if os.path.exists(m):
            meta = json.load(open(m))
            rows[n] = meta
    return rows


def main():
    cost = json.load(open(os.path.join(V, 'tools', 'costs.json'))) if os.path.exists(os.path.join(V, 'tools', 'costs.json')) else {}
    caught = json.load(open(os.path.join(V, 'tools', 'caught.json'))) if os.path.exists(os.path.join(V, 'tools', 'caught.json')) else {}
    out = [open(os.path.join(V, 'tools', 'design_head.md')).read()]
    for prop, technique, note in generate.P:
        c = consts(prop['id'])
        out.append('### %s %s\n\n' % (prop['id'], prop['title']))
        out.append('*Specified:* %s\n\n' % prop['statement'])
        out.append('*Decided by:* %s. *Explored:* %s.\n\n' % (technique, ' '.join(c['BOUND'].split())))
        out.append('*Assurance:* %s' % note)
        if c.get('ASSUMPTIONS'):
            out.append(' Assumes: %s.' % '; '.join(c['ASSUMPTIONS']))
        k = cost.get(prop['id'])
        if k:
            out.append(' *Cost on 8 cores:* quick %s, thorough %s.' % tuple(k))
        out.append('\n\n*Beyond the tests:* %s\n\n' % prop['why_tests_cant'])
    out.append(open(os.path.join(V, 'tools', 'design_tail.md')).read())
    rows = seeded()
    if rows:
        out.append('\n## Seeded changes and what catches them\n\n| change | property | needs | caught by (quick) |\n|---|---|---|---|\n')
        for n, m in rows.items():
            out.append('| %s | %s | %s | %s |\n' % (n, m['property'], m['needs'].replace('|', '/'), ', '.join(caught.get(n, [])) or 'none'))
    open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out))


main()
