"""DESIGN.md from doc/*.md, properties.jsonl, the checks and the planted bugs"""
import ast
import glob
import json
import pathlib
import re
here = pathlib.Path(__file__).parent
props = [json.loads(l) for l in (here/'properties.jsonl').open()]
notes = dict(re.findall(r'^### (\w+)\n(.*?)(?=^### |\Z)', (here/'doc/props.md').read_text(), re.S | re.M))
out = [(here/'doc/head.md').read_text().rstrip(), '']
for p in props:
    i = p['id']
    f = glob.glob(str(here/'checks'/f'{i.lower()}_*.py'))
    sc = []
    for n in ast.parse(pathlib.Path(f[0]).read_text()).body if f else []:
        for d in getattr(n, 'decorator_list', []):
            if isinstance(d, ast.Call) and getattr(d.func, 'attr', '') == 'scenario':
                k = {a.arg: ast.unparse(a.value) for a in d.keywords}
                sc.append(f"{n.name.rstrip('_')} {k.get('quick')}/{k.get('thorough')}")
    if not sc and f:
        sc = ['truth ' + '/'.join(re.findall(r'(?:quick|thorough)=(\d+)', pathlib.Path(f[0]).read_text()))]
    out += [f"### {i}: {p['title']}", '', p['statement'], '', notes.get(i, '').strip(), '',
        f"Anchors: {', '.join(p['anchors'].get('files', [])) if isinstance(p['anchors'], dict) else ''}. Check: `{pathlib.Path(f[0]).name if f else '-'}`; cases quick/thorough: {', '.join(sc)}.", '']
out += ['## 3. Planted bugs', '', 'Each is in `seeded/`; all build, pass the stable tests and are caught by the quick check of their property.', '',
    '| bug | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(str(here/'seeded/*/meta.json'))):
    d = json.load(open(m))
    out.append(f"| {pathlib.Path(m).parent.name} | {d['property']} | {d['needs']} | {d.get('caught_by', d['property'])} |".replace('\n', ' '))
out += ['', (here/'doc/tail.md').read_text()]
(here/'DESIGN.md').write_text('\n'.join(out))
