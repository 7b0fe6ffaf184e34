"""Writes properties.jsonl and MANIFEST.json from one table (run from /verif: python3 -m tools.meta)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools import table  # noqa: E402

NOTE = ('Static: /repo is parsed, never run. Each rule compares the gated value graph of the named construct with that of its '
        'reference definition; equal canonical forms are a proof over real arithmetic (no rounding), equal random-interpretation '
        'fingerprints are agreement with high probability, different ones are reported. Trusts the value-graph builder, its models of '
        'numpy/numba and the reference definitions; rounding, integer overflow and third-party internals are outside it.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in table.PROPERTIES:
            row = dict(id=p['id'], title=p['title'], statement=p['statement'],
                       quantifier=dict(over=p['over'], text=p['all']), why_tests_cant=p['why'],
                       anchors=dict(files=p['files'], state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get('state', [])],
                                    mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(row) + '\n')
    checks, na = [], []
    for p in table.PROPERTIES:
        if p.get('na'):
            na.append(dict(property=p['id'], reason=p['na']))
            continue
        checks.append(dict(property=p['id'], quick_cmd='python3 -m sa.check ' + p['id'],
                           thorough_cmd='VERIF_TIER=thorough python3 -m sa.check ' + p['id'],
                           technique=p.get('technique', 'static value-graph equivalence (abstract interpretation of the AST + global value numbering)'),
                           level='other', level_note=p.get('note', NOTE)))
    m = dict(version=1, setup_cmd='python3 -m sa.check --selftest', checks=checks, not_applicable=na,
             notes='All checks read /repo with the standard library ast module; nothing of /repo is executed or built. known_findings.json lists the defects found.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


main()


def refs():
    """reference definitions by property: (property, spec function, target)"""
    import ast
    out = {}
    d = os.path.join(ROOT, 'specs')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py'):
            continue
        for n in ast.parse(open(os.path.join(d, f)).read()).body:
            if not isinstance(n, ast.FunctionDef):
                continue
            for dec in n.decorator_list:
                if isinstance(dec, ast.Call) and getattr(dec.func, 'id', '') == 'ref':
                    for p in dec.args[0].value.split():
                        out.setdefault(p, []).append((f[:-3] + '.' + n.name, dec.args[1].value, (ast.get_docstring(n) or '').split('\n\n')[0].replace('\n', ' ')))
    return out


def rules():
    import importlib
    out = {}
    d = os.path.join(ROOT, 'props')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            m = importlib.import_module('props.' + f[:-3])
            for p, fs in m.RULES.items():
                out.setdefault(p, []).extend((f[:-3], (x.__doc__ or x.__name__).strip().split('\n\n')[0].replace('\n', ' ')) for x in fs)
    return out


def design():
    D = os.path.join(ROOT, 'design')
    rd = lambda n: open(os.path.join(D, n)).read() if os.path.exists(os.path.join(D, n)) else ''
    r, u = refs(), rules()
    o = [rd('head.md'), '## 4. The properties and how each is decided\n\n'
         'Every line below a property is one obligation family: the construct of the tree and the definition it has to\n'
         'agree with (over all inputs of the stated kinds), or a structural rule. Cost: seconds per property; no bounds unless stated.\n']
    for p in table.PROPERTIES:
        o.append('\n### %s %s\n\n%s\n\n*For* %s. *Beyond tests:* %s\n' % (p['id'], p['title'], p['statement'], p['all'], p['why']))
        if p.get('na'):
            o.append('\n**Not applicable**: %s\n' % p['na'])
            continue
        if p.get('note'):
            o.append('\n%s\n' % p['note'])
        o.append('\n')
        for s, tgt, doc in r.get(p['id'], ()):
            o.append('* `%s` agrees with `specs/%s`%s\n' % (tgt.replace('crowddynamics.', '', 1), s, ': ' + doc if doc else ''))
        for m, doc in u.get(p['id'], ()):
            o.append('* rule (`props/%s`): %s\n' % (m, doc))
    o.append('\n' + rd('findings.md'))
    known = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    for x in known['findings']:
        o.append('* left in place: %s %s\n' % (x['property'], x['what']))
    for x in known['fixed']:
        o.append('* %s\n' % x.replace('fixed: property=', ''))
    o.append('\n' + rd('bugs.md'))
    pl = os.path.join(D, 'planted.json')
    if os.path.exists(pl):
        pl = json.load(open(pl))
        o.append('\n| planted bug | property | verdict | needs |\n|---|---|---|---|\n')
        for k in sorted(pl):
            o.append('| %s | %s | %s | %s |\n' % (k, pl[k]['property'], pl[k]['verdict'], pl[k]['needs'].replace('|', '/')))
    o.append('\n' + rd('tail.md'))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(''.join(o))


design()
