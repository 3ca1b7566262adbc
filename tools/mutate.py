#!/usr/bin/env python3
"""Mutation campaign: random small changes of the library that pass its tests; which of them does no check notice?

mutate.py [-n COUNT] [-s SEED] [-o OUT.jsonl] [-k OPERATOR,..] [-f FILE substring]
"""
import ast
import copy
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sites(tree):
    """(operator, description, apply) for every possible change; apply mutates the given tree copy in place via node index."""
    out = []
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    nodes = list(ast.walk(tree))
    idx = {id(n): i for i, n in enumerate(nodes)}
    docs = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n.value))

    def func(n):
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            n = parents.get(n)
        return n

    def cls(n):
        while n is not None and not isinstance(n, ast.ClassDef):
            n = parents.get(n)
        return n

    def attrs(c):
        return [s.target.id for s in c.body if isinstance(s, ast.AnnAssign)] if c else []

    def add(op, n, fn):
        out.append((op, idx[id(n)], fn))

    for n in nodes:
        if id(n) in docs:
            continue
        f = func(n)
        infn = isinstance(f, ast.FunctionDef)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and infn:
            o = n.ops[0]
            if isinstance(o, ast.IsNot):
                add('truthy', n, lambda m, p: p.left)
            elif isinstance(o, ast.Is):
                add('falsy', n, lambda m, p: ast.UnaryOp(ast.Not(), p.left))
            elif isinstance(o, ast.Eq) and isinstance(n.comparators[0], ast.Constant) and isinstance(n.comparators[0].value, str):
                add('word', n, lambda m, p: ast.Compare(p.left, p.ops, [ast.Constant(p.comparators[0].value + 'x')]))
                add('in-prefix', n, lambda m, p: ast.Compare(p.comparators[0], [ast.In()], [ast.Call(ast.Name('str', ast.Load()), [p.left], [])]))
            elif isinstance(o, ast.Gt):
                add('ge', n, lambda m, p: ast.Compare(p.left, [ast.GtE()], p.comparators))
                add('gt+1', n, lambda m, p: ast.Compare(p.left, [ast.Gt()], [ast.BinOp(p.comparators[0], ast.Add(), ast.Constant(1))]))
            elif isinstance(o, ast.In):
                add('notin', n, lambda m, p: ast.Compare(p.left, [ast.NotIn()], p.comparators))
            if isinstance(o, (ast.Eq, ast.NotEq)):
                add('eqneg', n, lambda m, p: ast.Compare(p.left, [ast.NotEq() if isinstance(p.ops[0], ast.Eq) else ast.Eq()], p.comparators))
        if isinstance(n, (ast.If, ast.IfExp)) and infn:
            c = cls(n)
            a = attrs(c)
            if f.name == 'to_sexpr' and a:
                add('gate-and', n, lambda m, p, a=a: setattr(p, 'test', ast.BoolOp(ast.And(), [p.test, ast.Compare(ast.Attribute(ast.Name('self', ast.Load()), RND.choice(a), ast.Load()), [ast.IsNot()], [ast.Constant(None)])])))
                add('gate-or', n, lambda m, p, a=a: setattr(p, 'test', ast.BoolOp(ast.Or(), [p.test, ast.Attribute(ast.Name('self', ast.Load()), RND.choice(a), ast.Load())])))
            add('if-true', n, lambda m, p: setattr(p, 'test', ast.Constant(True)))
            add('if-false', n, lambda m, p: setattr(p, 'test', ast.Constant(False)))
            if isinstance(n, ast.IfExp):
                add('ifexp-swap', n, lambda m, p: ast.IfExp(p.test, p.orelse, p.body))
        if isinstance(n, ast.BoolOp) and infn:
            add('boolop', n, lambda m, p: setattr(p, 'op', ast.Or() if isinstance(p.op, ast.And) else ast.And()))
            add('bool-drop', n, lambda m, p: p.values[RND.randrange(len(p.values))])
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and infn and f.name != 'from_file' and not isinstance(parents.get(n), ast.Raise):
            anc = parents.get(n)
            if isinstance(anc, ast.Call) and isinstance(anc.func, ast.Name) and anc.func.id == 'Exception':
                continue
            if ' ' in n.value:
                def drop(m, p):
                    ks = [i for i, ch in enumerate(p.value) if ch == ' ']
                    i = RND.choice(ks)
                    p.value = p.value[:i] + p.value[i + 1:]
                add('space', n, drop)
            if any(ch.isalpha() for ch in n.value):
                def letter(m, p):
                    ks = [i for i, ch in enumerate(p.value) if ch.isalpha()]
                    i = RND.choice(ks)
                    p.value = p.value[:i] + RND.choice('aeiz') + p.value[i + (RND.random() < .7):]
                add('letter', n, letter)
            if '"' in n.value:
                add('quote', n, lambda m, p: setattr(p, 'value', p.value.replace('"', '', 1)))
            if '(' in n.value or ')' in n.value:
                add('paren', n, lambda m, p: setattr(p, 'value', p.value.replace('(', '', 1) if '(' in p.value else p.value.replace(')', '', 1)))
            if n.value and n.value.strip():
                add('str-empty', n, lambda m, p: setattr(p, 'value', ''))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) and infn:
            add('int+1', n, lambda m, p: setattr(p, 'value', p.value + 1))
            add('int-1', n, lambda m, p: setattr(p, 'value', p.value - 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool) and infn:
            add('bool', n, lambda m, p: setattr(p, 'value', not p.value))
        if isinstance(n, ast.stmt) and infn and not isinstance(n, (ast.FunctionDef, ast.Return, ast.Raise)) and isinstance(parents.get(n), (ast.FunctionDef, ast.For, ast.If, ast.While, ast.With)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add('del', n, lambda m, p: ast.Pass())
        if isinstance(n, ast.Raise) and infn:
            add('noraise', n, lambda m, p: ast.Pass())
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'object') and infn:
            a = attrs(cls(n))
            if n.attr in a and len(a) > 1:
                def sw(m, p, a=a):
                    i = a.index(p.attr)
                    p.attr = a[(i + RND.choice((1, -1))) % len(a)]
                add('attr', n, sw)
        if isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(parents.get(n), ast.ClassDef):
            v = n.value
            if isinstance(v, ast.Constant):
                def dflt(m, p):
                    x = p.value.value
                    p.value = ast.Constant((not x) if isinstance(x, bool) else (x + 1) if isinstance(x, (int, float)) else (x + 'x') if isinstance(x, str) else (False if 'bool' in ast.unparse(p.annotation) else 1))
                add('default', n, dflt)
        if isinstance(n, ast.For) and infn:
            add('skip-first', n, lambda m, p: setattr(p, 'iter', ast.Subscript(p.iter, ast.Slice(ast.Constant(1), None, None), ast.Load())))
            add('skip-last', n, lambda m, p: setattr(p, 'iter', ast.Subscript(p.iter, ast.Slice(None, ast.Constant(-1), None), ast.Load())))
            add('reversed', n, lambda m, p: setattr(p, 'iter', ast.Call(ast.Name('reversed', ast.Load()), [p.iter], [])))
            add('break', n, lambda m, p: p.body.append(ast.Break()))
            add('cap', n, lambda m, p: setattr(p, 'iter', ast.Subscript(p.iter, ast.Slice(None, ast.Constant(100), None), ast.Load())))
        if isinstance(n, ast.FormattedValue) and infn:
            add('round', n, lambda m, p: setattr(p, 'value', ast.Call(ast.Name('round', ast.Load()), [p.value, ast.Constant(6)], [])))
            if n.format_spec is None:
                add('fmt', n, lambda m, p: setattr(p, 'format_spec', ast.JoinedStr([ast.Constant('g')])))
            add('strip', n, lambda m, p: setattr(p, 'value', ast.Call(ast.Attribute(ast.Call(ast.Name('str', ast.Load()), [p.value], []), 'strip', ast.Load()), [], [])))
            if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'dequote':
                add('nodequote', n, lambda m, p: setattr(p, 'value', p.value.args[0]))
            elif isinstance(n.value, ast.Attribute):
                add('dequote', n, lambda m, p: setattr(p, 'value', ast.Call(ast.Name('dequote', ast.Load()), [p.value], [])))
        if isinstance(n, ast.AugAssign) and infn:
            add('noaug', n, lambda m, p: ast.Assign([p.target], p.value))
        if isinstance(n, ast.Assign) and infn and isinstance(n.targets[0], ast.Attribute) and f.name != '__init__':
            add('neg', n, lambda m, p: setattr(p, 'value', ast.UnaryOp(ast.USub(), p.value)))
            add('str', n, lambda m, p: setattr(p, 'value', ast.Call(ast.Name('str', ast.Load()), [p.value], [])))
            add('or-default', n, lambda m, p: setattr(p, 'value', ast.BoolOp(ast.Or(), [p.value, ast.Attribute(p.targets[0].value, p.targets[0].attr, ast.Load())])))
        if isinstance(n, ast.Call) and infn and isinstance(n.func, ast.Attribute) and n.func.attr == 'append':
            add('insert0', n, lambda m, p: ast.Call(ast.Attribute(p.func.value, 'insert', ast.Load()), [ast.Constant(0)] + p.args, []))
            add('nodup', n, lambda m, p: ast.IfExp(ast.Compare(p.args[0], [ast.NotIn()], [p.func.value]), p, ast.Constant(None)))
        if isinstance(n, ast.Call) and infn and n.keywords:
            add('kwdrop', n, lambda m, p: p.keywords.pop(RND.randrange(len(p.keywords))) and None)
        if isinstance(n, ast.Call) and infn and len(n.args) >= 2:
            add('argswap', n, lambda m, p: p.args.insert(0, p.args.pop(1)))
    return out


RND = random.Random(1)


def mutant(src, op, i, fn):
    t = ast.parse(src)
    nodes = list(ast.walk(t))
    n = nodes[i]
    r = fn(t, n)
    if isinstance(r, ast.AST):
        class R(ast.NodeTransformer):
            def visit(self, x):
                if x is n:
                    return r
                return self.generic_visit(x)
        # the replacement may contain the node itself
        for p in nodes:
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, r)
                elif isinstance(v, list):
                    for k, x in enumerate(v):
                        if x is n:
                            v[k] = r
    return ast.unparse(ast.fix_missing_locations(t)) + '\n'


def main():
    def arg(o, d):
        return sys.argv[sys.argv.index(o) + 1] if o in sys.argv else d
    n = int(arg('-n', '200'))
    RND.seed(int(arg('-s', '1')))
    ops = arg('-k', None)
    ff = arg('-f', '')
    cand = []
    srcs = {}
    for d, _, fs in os.walk(REPO + '/src/kiutils'):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith('.py') and ff in p:
                s = open(p).read()
                srcs[p] = ast.unparse(ast.parse(s)) + '\n'
                for c in sites(ast.parse(srcs[p])):
                    if not ops or c[0] in ops.split(','):
                        cand.append((p,) + c)
    by = {}
    for c in cand:
        by.setdefault(c[1], []).append(c)
    for v in by.values():
        RND.shuffle(v)
    pick = []
    while len(pick) < n and any(by.values()):
        for k in sorted(by):
            if by[k]:
                pick.append(by[k].pop())
    pick = pick[:n]
    jobs = []
    for p, op, i, fn in pick:
        try:
            m = mutant(srcs[p], op, i, fn)
        except Exception as e:
            continue
        if m != srcs[p]:
            jobs.append((p, op, m))

    def one(j):
        p, op, m = j
        d = tempfile.mkdtemp(prefix='mt')
        try:
            shutil.copytree(REPO, d + '/r', ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs'))
            rel = os.path.relpath(p, REPO)
            open(os.path.join(d, 'r', rel), 'w').write(m)
            df = [l for l in difflib.unified_diff(srcs[p].splitlines(), m.splitlines(), lineterm='', n=0)][2:]
            try:
                t = subprocess.run(f'cd {d}/r && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={d}/r/src timeout 60 /opt/venv/bin/python -m pytest -x --deselect nothing -q -p no:cacheprovider tests 2>&1 | tail -1' if False else
                                   f'cd {d}/r && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={d}/r/src timeout 60 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1', shell=True, capture_output=True, text=True).stdout
            except Exception:
                t = ''
            if '73 passed' not in t:
                return dict(op=op, file=rel, diff=df, killed=True)
            r = subprocess.run(['timeout', '300', 'python3', V + '/tools/allprops.py', d + '/r'], capture_output=True, text=True)
            try:
                o = json.loads(r.stdout)
            except Exception:
                return dict(op=op, file=rel, diff=df, error=r.stderr[-500:])
            return dict(op=op, file=rel, diff=df, props={k: v['bad'][:3] for k, v in o.items() if v['bad']}, und=sum(v['und'] for v in o.values()))
        finally:
            shutil.rmtree(d)

    out = open(arg('-o', '/tmp/w/mut.jsonl'), 'w')
    st = dict(killed=0, caught=0, missed=0, error=0)
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, jobs):
            out.write(json.dumps(r) + '\n')
            out.flush()
            st['killed' if r.get('killed') else 'error' if 'error' in r else 'caught' if r['props'] else 'missed'] += 1
    print(st)


if __name__ == '__main__':
    main()
