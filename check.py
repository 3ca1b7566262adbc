#!/usr/bin/env python3
"""Static checks of kiutils.  usage: check.py --property C01 [--tier quick|thorough]

exit 0: property holds on everything analysed (KNOWN-FINDING lines for listed defects)
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the analysis itself is broken (anchors vanished, source does not parse)
"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from kst.engine import Context, Result          # noqa: E402
from kst.program import AnalysisError           # noqa: E402
from kst.registry import PROPERTIES             # noqa: E402
from kst.budget import limit                    # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    spec = PROPERTIES[a.property]
    t0 = time.time()
    known = {}
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        for k in json.load(open(kf))['known']:
            if k['property'] == a.property:
                known[k['key']] = k['what']
    try:
        ctx = Context(a.repo)
        ctx.tier = tier
        res = Result(a.property)
        aborted = False
        for rule in spec['rules']:
            try:
                with limit(280):
                    rule(ctx, res)
            except AnalysisError:
                raise
            except Exception as e:          # an unforeseen construct: undecided and reported as such
                traceback.print_exc()
                aborted = True
                res.unknown(f'rule aborted: {type(e).__name__}: {e}')
        low = [f'{k}: {res.counts.get(k, 0)} < {v}' for k, v in spec.get('minimum', {}).items() if res.counts.get(k, 0) < v]
        if low and not res.findings and not aborted and not res.undecided:
            raise RuntimeError('too few rule instances: ' + '; '.join(low))
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={a.property}')
        return 2
    new = [f for f in res.findings if f.key not in known]
    old = [f for f in res.findings if f.key in known]
    os.makedirs(a.evidence, exist_ok=True)
    cov = {
        'explanation': spec['explain'] + ' Rules applied: ' + '; '.join(res.rules) + '.',
        'obligations': res.obligations,
        'discharged': res.discharged,
        'undecided': len(res.undecided),
        'undecided_list': res.undecided[:50],
        'instances': res.counts,
        'modules': len(ctx.prog.modules),
        'classes': len(ctx.model.item_classes()),
        'known_findings': [f.key for f in old],
        'new_findings': [{'key': f.key, 'text': f.text, 'where': f.where} for f in new],
    }
    json.dump({
        'property': a.property, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other', 'coverage': cov, 'assumptions': spec.get('assumptions', []) + res.assumptions,
        'wall_s': round(time.time() - t0, 3), 'violations': len(new),
    }, open(os.path.join(a.evidence, a.property + '.json'), 'w'), indent=1)
    print(f'{a.property}: {res.obligations} obligations, {res.discharged} discharged, {len(res.undecided)} undecided, '
          + ', '.join(f'{v} {k}' for k, v in sorted(res.counts.items())))
    for u in res.undecided[:20]:
        print('  undecided:', u)
    for f in old:
        print(f'KNOWN-FINDING: property={a.property} {f.key} {known[f.key]}')
    if not new:
        return 0
    rp = os.path.join(a.evidence, f'{a.property}.violation.txt')
    with open(rp, 'w') as fh:
        for f in new:
            fh.write(f'{f.key}\n  {f.text}\n  at {f.where}\n')
    for f in new[:40]:
        print(f'  {f.key}: {f.text}\n      at {f.where}')
    print(f'VIOLATION property={a.property} replay={rp}')
    return 1


if __name__ == '__main__':
    sys.exit(main())
