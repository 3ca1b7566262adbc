#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy and store them: seed.py SPEC.py [-k substring]

SPEC.py calls  S(id, property, edits, needs, breaks, demo)  with edits [(file, old, new[, nth])] relative to src/kiutils
and demo the text of a Python program that exits 0 on the unchanged tree.  Stored: /verif/seeded/<id>/."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
PY = '/opt/venv/bin/python'
DEMO = '#!/bin/bash\n# cwd: the repository\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
SEEDS = []


def S(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def main():
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), globals())
    k = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else ''
    for id, prop, edits, needs, breaks, demo in SEEDS:
        if k not in id:
            continue
        d = tempfile.mkdtemp(prefix='seed')
        try:
            w = d + '/r'
            sh(f'git clone -q /repo {w}', '/')
            dd = d + '/demo'
            os.makedirs(dd)
            open(dd + '/demo.py', 'w').write(demo)
            open(dd + '/demo.sh', 'w').write(DEMO)
            r0 = sh(f'bash {dd}/demo.sh', w)
            for ed in edits:
                p = f'{w}/src/kiutils/{ed[0]}'
                s = open(p).read()
                n = ed[3] if len(ed) > 3 else 0
                ps = s.split(ed[1])
                if len(ps) < n + 2 or (len(ed) < 4 and len(ps) != 2):
                    print(id, 'EDIT NOT FOUND or ambiguous', len(ps) - 1, repr(ed[1][:60]))
                    break
                open(p, 'w').write(ed[1].join(ps[:n + 1]) + ed[2] + ed[1].join(ps[n + 1:]))
            else:
                diff = sh('git diff', w).stdout
                # lines added by fix commits must not be the ones that are changed
                r1 = sh(f'bash {dd}/demo.sh', w)
                t = sh(f'PYTHONPATH={w}/src {PY} -m pytest -q -p no:cacheprovider tests 2>&1 | tail -4', w)
                ok = '73 passed' in t.stdout   # one test of the suite fails on the unchanged tree, too
                fixed = touched_fix(w, diff)
                good = r0.returncode == 0 and r1.returncode != 0 and ok and not fixed
                print(('OK  ' if good else 'BAD ') + id, prop, 'demo', r0.returncode, r1.returncode, t.stdout.strip().splitlines()[-1:], 'touches fixed lines' if fixed else '')
                if not good:
                    print(r0.stderr[-300:], r1.stdout[-200:])
                    continue
                o = f'{OUT}/{id}'
                shutil.rmtree(o, ignore_errors=True)
                os.makedirs(o)
                open(o + '/patch.diff', 'w').write(diff)
                for f in ('demo.py', 'demo.sh'):
                    shutil.copy(dd + '/' + f, o)
                json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(d)


def touched_fix(w, diff):
    """A changed line that does not exist in the original repository."""
    root = sh('git rev-list --max-parents=0 HEAD', w).stdout.split()[0]
    f = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = sh(f'git show {root}:{l[6:]}', w).stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in f:
            return True
    return False


if __name__ == '__main__':
    main()
