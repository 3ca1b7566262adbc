#!/usr/bin/env python3
"""Run the checks against the planted bugs in scratch copies: runseeds.py [-k substring] [-a]   (-a: all properties, not only the named one)"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(d):
    m = json.load(open(d + '/meta.json'))
    t = tempfile.mkdtemp(prefix='rs')
    try:
        subprocess.run(f'git clone -q /repo {t}/r && git -C {t}/r apply {d}/patch.diff', shell=True, check=True)
        props = sorted(json.loads(l)['id'] for l in open(V + '/properties.jsonl')) if '-a' in sys.argv else [m['property']]
        claimed = {c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']} if '-a' in sys.argv else None
        out = []
        for p in props:
            if claimed is not None and p not in claimed:
                continue
            r = subprocess.run(['python3', V + '/check.py', '--property', p, '--repo', t + '/r', '--evidence', t + '/ev'], capture_output=True, text=True)
            out.append((p, r.returncode, [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', '  '))][:3], r.stderr[-200:]))
        return os.path.basename(d), m['property'], out
    finally:
        shutil.rmtree(t)


k = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else ''
ds = [d for d in sorted(glob.glob(V + '/seeded/*')) if k in d]
with ThreadPoolExecutor(8) as ex:
    for n, p, out in ex.map(one, ds):
        own = [o for o in out if o[0] == p]
        print('CAUGHT' if own and own[0][1] == 1 else 'MISSED', n, p, 'also: ' + ' '.join(o[0] + ('' if o[1] == 1 else f'(rc{o[1]})') for o in out if o[0] != p and o[1]) if len(out) > 1 else '')
        if own and own[0][1] != 1 or '-v' in sys.argv:
            print('    ', own)
