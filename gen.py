#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py and the registered rules."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mk.rules import RULES                      # noqa: E402
from props import PROPS, NA                     # noqa: E402


def main():
    ids = [p['id'] for p in PROPS]
    assert len(set(ids)) == len(ids)
    for i in RULES:
        assert i in ids, i
    lines, checks, na = [], [], []
    for p in PROPS + NA:
        if p in PROPS and p['id'] not in RULES:
            continue
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
        lines.append({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
        if p in NA:
            na.append({'property': p['id'], 'reason': p['reason']})
        else:
            checks.append({
                'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for x in lines:
            fh.write(json.dumps(x, ensure_ascii=False) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump({'version': 1, 'setup_cmd': 'python3 -m mk.facts', 'checks': checks, 'not_applicable': na,
                   'notes': 'Static analysis only: a clang 18 LibTooling extractor (tool/mkfacts.cpp) writes the type-checked AST of every library translation unit, '
                            'and the rules in mk/rules decide each property from it. No hooks in /repo.'}, fh, indent=1)
        fh.write('\n')


main()
