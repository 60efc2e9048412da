"""writes DESIGN.md from properties.jsonl, known_findings.json, the groups and seeded/"""
import ast, glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vmon.core import QUICK
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
kf = json.load(open(f'{V}/known_findings.json'))
notes = json.load(open(f'{V}/vmon/design_notes.json'))


def groups(p):
    t = ast.parse(open(f'{V}/vmon/p_{p.lower()}.py').read())
    out = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'group':
                    out.append((n.name, ast.unparse(d.args[0]), ast.unparse(d.args[1])))
    return out


o = [open(f'{V}/vmon/design_head.md').read()]
w = o.append
w('\n## Properties\n')
for p in props:
    i = p['id']
    n = notes[i]
    w(f'### {i} {p["title"]}\n')
    w(p['statement'] + '\n')
    w(f'- Monitor and oracle: {n["monitor"]}')
    w(f'- Workload and bounds (cases quick/thorough): ' + ', '.join(f'{g} {min(int(t), int(q) * QUICK[i]) if q.isdigit() else q}/{t}' for g, q, t in groups(i)) + (f'. {n["load"]}' if n.get('load') else ''))
    w(f'- Beyond the tests: {n["reach"]}')
    w(f'- Cost: about {n["cost"]} s quick' + '\n')
w('\n## Genuine defects repaired ("fix:" commits in /repo)\n')
for f in kf['fixed']:
    w('- ' + f)
w('\n## Known findings (recorded, not repaired)\n')
for f in kf['findings']:
    w(f'- {f["id"]} ({f["property"]}): {f["what"]}')
w('\n' + open(f'{V}/vmon/design_findings.md').read())
w('\n## Planted bugs and the checks that catch them\n')
ms = sorted(glob.glob(f'{V}/seeded/*/meta.json'))
res = json.load(open(f'{V}/vmon/matrix.json')) if os.path.exists(f'{V}/vmon/matrix.json') else {}
w('| bug | property | what it breaks | caught by (quick tier) |\n|---|---|---|---|')
for m in ms:
    b = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    w(f'| {b} | {d["property"]} | {d["what_it_breaks"]} | {", ".join(res.get(b, ["not yet run"])) or "none"} |')
open(f'{V}/DESIGN.md', 'w').write('\n'.join(o) + '\n')
