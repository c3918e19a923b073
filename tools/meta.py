#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description of each property."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props_data import PROPS, NOT_APPLICABLE, HOOKS

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = {k: p[k] for k in ('id', 'title', 'statement')}
            d['quantifier'] = {'over': p['over'], 'text': p['quantifier']}
            d['why_tests_cant'] = p['why']
            d['anchors'] = {
                'files': p['files'],
                'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                'observe_at': p.get('observe_at', []),
                'hook_needed': p.get('hook'),
            }
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks = []
    na = list(NOT_APPLICABLE)
    for p in PROPS:
        if not p.get('claimed', True):
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': f"VERIF_TIER=quick bash run.sh check {p['id']}",
            'thorough_cmd': f"VERIF_TIER=thorough bash run.sh check {p['id']}",
            'technique': p['technique'],
            'level': 'exploration',
            'level_note': p['level_note'],
        })
    m = {'version': 1, 'setup_cmd': 'bash run.sh build', 'checks': checks, 'not_applicable': na}
    if HOOKS:
        m['hooks'] = HOOKS
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')

main()
