#!/usr/bin/env python3
"""Property texts; `python3 props.py` writes properties.jsonl and MANIFEST.json"""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent
PROPS = []


def P(id, title, statement, over, quant, tests, files, mech, state=(), observe=(),
      technique='', note=''):
    PROPS.append(dict(row=dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=tests,
        anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            **(dict(state=[dict(name=a, meaning=b, where=c) for a, b, c in state]) if state else {}),
            **(dict(observe_at=list(observe)) if observe else {}),
            hook_needed=None)),
        technique=technique, note=note))


exec((HERE/'props_text.py').read_text())


def main():
    ids = [p['row']['id'] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(HERE/'properties.jsonl', 'w') as f:
        for p in PROPS:
            r = p['row']
            assert len(r['title']) <= 80, r['title']
            f.write(json.dumps(r) + '\n')
    m = dict(version=1, setup_cmd='python3 run.py --setup', checks=[], not_applicable=[],
        notes='No hooks in /repo are needed: the monitors wrap the public API from outside and '
        'import /repo\'s working tree directly (pure Python, nothing to compile). '
        'Exit 2 means inconclusive (the workload did not reach what it needs).')
    for p in PROPS:
        i = p['row']['id']
        m['checks'].append(dict(property=i,
            quick_cmd=f'VERIF_TIER=quick python3 run.py {i}',
            thorough_cmd=f'VERIF_TIER=thorough python3 run.py {i}',
            technique=p['technique'], level='exploration', level_note=p['note']))
    (HERE/'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')


if __name__ == '__main__':
    main()
