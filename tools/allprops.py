#!/usr/bin/env python3
"""All properties on one tree with one model: allprops.py DIR -> JSON {property: [new finding keys]}"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from kst.engine import Context, Result      # noqa: E402
from kst.registry import PROPERTIES         # noqa: E402
from kst.budget import limit                # noqa: E402


def run(repo, props=None):
    known = {(k['property'], k['key']) for k in json.load(open(V + '/known_findings.json'))['known']}
    ctx = Context(repo)
    ctx.tier = 'quick'
    out = {}
    for p, sp in PROPERTIES.items():
        if props and p not in props:
            continue
        res = Result(p)
        for rule in sp['rules']:
            try:
                with limit(280):
                    rule(ctx, res)
            except Exception as e:
                res.unknown(f'rule aborted: {type(e).__name__}: {e}')
        out[p] = dict(bad=[f.key for f in res.findings if (p, f.key) not in known], text=[f.text for f in res.findings if (p, f.key) not in known][:3], und=len(res.undecided))
    return out


if __name__ == '__main__':
    print(json.dumps(run(sys.argv[1]), indent=1))
