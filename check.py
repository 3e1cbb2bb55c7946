#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decide one property on the current tree of /repo"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from mk import facts                      # noqa: E402
from mk.report import Report              # noqa: E402
from mk.rules import RULES                # noqa: E402


def known():
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: '):
                # known: property=C01 key=<key> :: text
                head, _, text = ln[7:].partition(' :: ')
                pid, _, key = head.partition(' key=')
                out[(pid.split('=')[1], key)] = text
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
        os.environ['MK_FRESH'] = '1'          # parse every unit again, whatever the cache holds
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod, rule = RULES[pid]
    rep = Report(pid)
    try:
        P = facts.load()
        m = importlib.import_module('mk.rules.' + mod)
        m.check(P, rep, tier)
        mins = getattr(m, 'MIN', {})
        for k, n in mins.get(pid, mins).items() if isinstance(mins.get(pid, mins), dict) else []:
            if isinstance(n, int) and rep.counts.get(k, 0) < n:
                raise facts.AnalysisBroken('%s: only %d instances of "%s", at least %d confirmed by hand' % (pid, rep.counts.get(k, 0), k, n))
    except facts.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error' % pid)
        return 2
    kf = known()
    new = []
    for key, (where, msg) in sorted(rep.viol.items()):
        if (pid, key) in kf:
            print('KNOWN-FINDING: property=%s %s [%s] %s' % (pid, where, key, kf[(pid, key)]))
        else:
            new.append((key, where, msg))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': rule,
            'translation_units': len(P.tus), 'functions_parsed': len(P.funcs), 'ast_nodes': P.nnodes,
            'rule_obligations': rep.obligations, 'rule_obligations_met': rep.discharged,
            'instances': rep.counts, 'samples': rep.samples, 'notes': rep.notes,
            'known_findings_seen': len(rep.viol) - len(new),
        },
        'assumptions': ['clang 18 front end, -std=c++20, NDEBUG; code behind other preprocessor settings is not seen'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s: %d units, %d functions; %s; %d obligations, %d met, %d known, %d violations; %.1fs' % (
        pid, len(P.tus), len(P.funcs), ', '.join('%s=%s' % kv for kv in sorted(rep.counts.items())), rep.obligations, rep.discharged,
        len(rep.viol) - len(new), len(new), time.time() - t0))
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.report.txt')
        with open(rp, 'w') as fh:
            fh.write('property %s\nrule: %s\n\n' % (pid, rule))
            for key, where, msg in new:
                fh.write('%s\n  construct: %s\n  %s\n\n' % (where, key, msg))
        for key, where, msg in new:
            print('  %s [%s] %s' % (where, key, msg))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
