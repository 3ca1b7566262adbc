#!/usr/bin/env python3
"""Regression of the checks against small edits: run.py [file ...] [-k substring] [-j N]

Each entry of a list file is  M(props, name, (file, old, new[, nth]), ...)  for an edit some of `props` must report
(the others of `props` may or may not), or  Q(name, edits...)  for one that keeps the behaviour: all checks must stay quiet."""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
ENTRIES = []


def M(props, name, *edits):
    ENTRIES.append(('M', props.split(','), name, edits))


def Q(name, *edits):
    ENTRIES.append(('Q', None, name, edits))


def R(f, cls, meth, body):
    """The edit that replaces the body of a method or function (cls None), below its docstring."""
    src = open(REPO + '/src/kiutils/' + f).read()
    lines = src.splitlines(True)
    for c in ast.parse(src).body:
        if isinstance(c, ast.ClassDef) and c.name == cls or cls is None and isinstance(c, ast.FunctionDef) and c.name == meth:
            for m in (c.body if cls else [c]):
                if isinstance(m, ast.FunctionDef) and m.name == meth:
                    b = m.body[0]
                    if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, str) and len(m.body) > 1:
                        b = m.body[1]
                    s = k = b.lineno - 1
                    new = textwrap.indent(textwrap.dedent(body).strip('\n'), '        ' if cls else '    ') + '\n'
                    while src.count(''.join(lines[k:m.end_lineno])) != 1:
                        k -= 1
                    return f, ''.join(lines[k:m.end_lineno]), ''.join(lines[k:s]) + new
    raise KeyError((f, cls, meth))


def T(f, before, text):
    """The edit that inserts text before a line."""
    return f, before, text + before


def one(e):
    kind, props, name, edits = e
    d = tempfile.mkdtemp(prefix='kst')
    try:
        shutil.copytree(REPO + '/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
        for ed in edits:
            f, old, new = ed[:3]
            p = f'{d}/src/kiutils/{f}'
            s = open(p).read()
            if old not in s:
                return e, 'NOTFOUND', f'{f}: {old[:80]!r}'
            n = ed[3] if len(ed) > 3 else 0
            if n == 'all':
                s = s.replace(old, new)
            else:
                ps = s.split(old)
                s = old.join(ps[:n + 1]) + new + old.join(ps[n + 1:])
            open(p, 'w').write(s)
            try:
                compile(s, p, 'exec')
            except SyntaxError as x:
                return e, 'SYNTAX', str(x)
        if '-t' in sys.argv:
            r = subprocess.run(['/bin/bash', '-c', f'cd {REPO} && PYTHONPATH={d}/src timeout 100 python3 -m pytest -q -x tests 2>&1 | tail -3'], capture_output=True, text=True)
            print(name, r.stdout.strip().splitlines()[-1:])
        out, hit, broken, und = [], [], [], []
        r = subprocess.run([sys.executable, os.path.dirname(HERE) + '/tools/allprops.py', d], capture_output=True, text=True)
        try:
            j = json.loads(r.stdout)
        except ValueError:
            j = {}
            broken.append('all')
            out.append(r.stderr[-600:])
        for q, v in j.items():
            if v['bad'] and (props is None or q in props):
                hit.append(q)
                out.append(q + ' ' + '\n      '.join(v['text'])[:500])
        if kind == 'M':
            st = 'CAUGHT' if hit else 'BROKEN' if broken else 'MISSED'
        else:
            st = 'FALSE-ALARM' if hit else 'BROKEN' if broken else 'QUIET'
        txt = ','.join(hit) + ('' if kind == 'M' and hit and '-v' not in sys.argv else '\n    ' + '\n    '.join(out + (und[:6] if st in ('MISSED', 'QUIET') else [])))
        return e, st, txt
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    k, files = '', []
    while a:
        x = a.pop(0)
        if x == '-k':
            k = a.pop(0)
        elif x == '-j':
            global J
            J = int(a.pop(0))
        elif not x.startswith('-'):
            files.append(x)
    for f in files or sorted(os.path.join(HERE, n) for n in os.listdir(HERE) if n.endswith('.list')):
        exec(compile(open(f).read(), f, 'exec'), {'M': M, 'Q': Q, 'R': R, 'T': T})
    todo = [e for e in ENTRIES if k in e[2]]
    n = {}
    with ThreadPoolExecutor(7) as ex:
        for e, st, txt in ex.map(one, todo):
            n[st] = n.get(st, 0) + 1
            if st in ('CAUGHT',) and '-v' not in sys.argv:
                print(f'{st:12} {e[2]:40} {txt}')
            else:
                print(f'{st:12} {e[2]} {txt}' if txt.strip() else f'{st:12} {e[2]}')
    print(n)


main()
