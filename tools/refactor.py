#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole library in scratch copies; every check must stay quiet on each.

refactor.py [-k name] [-p C01,C02] [-d keep the copy in /tmp/refactored]"""
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def is_ser(f):
    return f.name == 'to_sexpr'


def is_par(f):
    return f.name == 'from_sexpr'


class Plain(ast.NodeTransformer):
    """Only re-printed."""


class RenameLocals(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        args = {a.arg for a in f.args.args + f.args.kwonlyargs}
        names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
            return f
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id + '_v'
        return f


class HeadVar(ast.NodeTransformer):
    """for item in X: -> token = item[0] once lists are sure; here: elif chains of `if item[0] == ..` statements."""
    def visit_For(self, n):
        self.generic_visit(n)
        n.body = chain(n.body)
        return n


def head_test(s):
    return (isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.Eq)
            and isinstance(s.test.left, ast.Subscript) and isinstance(s.test.comparators[0], ast.Constant) and isinstance(s.test.comparators[0].value, str)
            and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)))


def chain(body):
    out, run, seen = [], [], set()

    def flush():
        if run:
            cur = run[-1]
            for s in reversed(run[:-1]):
                s.orelse = [cur]
                cur = s
            out.append(cur)
            run.clear()
            seen.clear()
    for s in body:
        if head_test(s):
            key = (ast.dump(s.test.left), s.test.comparators[0].value)
            if run and (ast.dump(run[0].test.left) != key[0] or key[1] in seen):
                flush()
            run.append(s)
            seen.add(key[1])
        else:
            flush()
            out.append(s)
    flush()
    return out


class TokenVar(ast.NodeTransformer):
    """token = item[0] at the first list test, used in the tests after it."""
    def visit_For(self, n):
        self.generic_visit(n)
        if not isinstance(n.target, ast.Name):
            return n
        t = n.target.id
        for i, s in enumerate(n.body):
            if head_test(s) and isinstance(s.test.left.value, ast.Name) and s.test.left.value.id == t and isinstance(s.test.left.slice, ast.Constant) and s.test.left.slice.value == 0:
                if not all(head_test(x) for x in n.body[i:] if not isinstance(x, ast.Pass)):
                    break
                for x in n.body[i:]:
                    if isinstance(x, ast.If) and isinstance(x.test.left.value, ast.Name) and x.test.left.value.id == t and getattr(x.test.left.slice, 'value', None) == 0:
                        x.test.left = ast.Name('token_', ast.Load())
                n.body.insert(i, ast.parse(f'token_ = {t}[0]').body[0])
                break
        return n


class Invert(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A; conditional expressions likewise."""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(neg(n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(neg(n.test), n.orelse, n.body)


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}
        if type(t.ops[0]) in m:
            return ast.Compare(t.left, [m[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


class IsInstance(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        s = ast.unparse(n)
        if len(n.ops) == 1 and isinstance(n.left, ast.Call) and ast.unparse(n.left.func) == 'type' and ast.unparse(n.comparators[0]) == 'type([])':
            c = ast.Call(ast.Name('isinstance', ast.Load()), [n.left.args[0], ast.Name('list', ast.Load())], [])
            return ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.NotEq) else c
        return n


class Continue2Else(ast.NodeTransformer):
    """if c: ...; continue / rest  ->  if c: ... else: rest"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.body = nest(n.body)
        return n


def nest(body):
    for i, s in enumerate(body):
        if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], ast.Continue):
            s.body = s.body[:-1] or [ast.Pass()]
            rest = nest(body[i + 1:])
            if rest:
                s.orelse = rest
            return body[:i + 1]
    return body


class FStrings(ast.NodeTransformer):
    """f'..{x}..' -> '..' + str(x) + '..'"""
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.format_spec is None and v.conversion == -1:
                parts.append(ast.Call(ast.Name('str', ast.Load()), [v.value], []))
            else:
                parts.append(ast.JoinedStr([v]))
        if not parts:
            return ast.Constant('')
        cur = parts[0]
        for p in parts[1:]:
            cur = ast.BinOp(cur, ast.Add(), p)
        return cur

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        return n


class Format(ast.NodeTransformer):
    """f'..{x}..' -> '..{}..'.format(x)"""
    def visit_JoinedStr(self, n):
        n = copy.deepcopy(n)
        args, fmt = [], ''
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace('{', '{{').replace('}', '}}')
            elif v.conversion == -1:
                args.append(self.visit(v.value))
                spec = ''
                if v.format_spec is not None:
                    if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return n
                    spec = ':' + ''.join(x.value for x in v.format_spec.values)
                fmt += '{' + spec + '}'
            else:
                return n
        if not args:
            return ast.Constant(fmt.replace('{{', '{').replace('}}', '}'))
        return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, [])


class Percent(ast.NodeTransformer):
    """f'..{x}..' -> '..%s..' % (x,)"""
    def visit_JoinedStr(self, n):
        n = copy.deepcopy(n)
        args, fmt = [], ''
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace('%', '%%')
            elif v.conversion == -1 and v.format_spec is None:
                args.append(self.visit(v.value))
                fmt += '%s'
            else:
                return n
        if not args:
            return ast.Constant(fmt.replace('%%', '%'))
        return ast.BinOp(ast.Constant(fmt), ast.Mod(), ast.Tuple(args, ast.Load()))


class Parts(ast.NodeTransformer):
    """expression += x  ->  list of parts joined at the end"""
    def visit_FunctionDef(self, f):
        if not is_ser(f):
            return f
        if not any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == 'expression' for n in ast.walk(f)):
            return f
        # only plain use: assigned, appended, returned
        for n in ast.walk(f):
            if isinstance(n, ast.Return) and n.value is not None and any(isinstance(x, ast.Name) and x.id == 'expression' for x in ast.walk(n.value)) and not isinstance(n.value, ast.Name):
                return f
        class T(ast.NodeTransformer):
            def visit_AugAssign(s, n):
                if isinstance(n.target, ast.Name) and n.target.id == 'expression':
                    return ast.Expr(ast.Call(ast.Attribute(ast.Name('parts_', ast.Load()), 'append', ast.Load()), [n.value], []))
                return n

            def visit_Assign(s, n):
                if isinstance(n.targets[0], ast.Name) and n.targets[0].id == 'expression':
                    return ast.Assign([ast.Name('parts_', ast.Store())], ast.List([n.value], ast.Load()))
                return n

            def visit_Return(s, n):
                if isinstance(n.value, ast.Name) and n.value.id == 'expression':
                    return ast.Return(ast.parse("''.join(parts_)", mode='eval').body)
                return n
        g = T().visit(copy.deepcopy(f))
        if any(isinstance(n, ast.Name) and n.id == 'expression' for n in ast.walk(g)):
            return f
        return g


class Comprehend(ast.NodeTransformer):
    """for x in y: object.z.append(e)  ->  object.z.extend([e for x in y])"""
    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Call) and isinstance(n.body[0].value.func, ast.Attribute) \
                and n.body[0].value.func.attr == 'append' and not n.orelse:
            c = n.body[0].value
            return ast.Expr(ast.Call(ast.Attribute(c.func.value, 'extend', ast.Load()), [ast.ListComp(c.args[0], [ast.comprehension(n.target, n.iter, [], 0)])], []))
        # for x in y: expression += e   ->  expression += ''.join(e for x in y)
        if len(n.body) == 1 and isinstance(n.body[0], ast.AugAssign) and isinstance(n.body[0].op, ast.Add) and not n.orelse:
            a = n.body[0]
            g = ast.GeneratorExp(a.value, [ast.comprehension(n.target, n.iter, [], 0)])
            return ast.AugAssign(a.target, ast.Add(), ast.Call(ast.Attribute(ast.Constant(''), 'join', ast.Load()), [g], []))
        return n


class Helper(ast.NodeTransformer):
    """The type and head guard of every reader moves to a module-level helper; ' '*indent to another."""
    def visit_Module(self, m):
        self.generic_visit(m)
        pre = ast.parse('''
def _expect(exp, *heads):
    if not isinstance(exp, list):
        raise Exception("Expression does not have the correct type")
    if exp[0] not in heads:
        raise Exception("Expression does not have the correct type")

def _blank(count):
    return ' ' * count

def _end(newline):
    return '\\n' if newline else ''
''').body
        i = next((k for k, s in enumerate(m.body) if isinstance(s, (ast.ClassDef, ast.FunctionDef))), len(m.body))
        m.body[i:i] = pre
        return m

    def visit_FunctionDef(self, f):
        if is_par(f) and len(f.body) > 2:
            k = 1 if isinstance(f.body[0], ast.Expr) else 0
            a, b = f.body[k], f.body[k + 1]
            if isinstance(a, ast.If) and ast.unparse(a.test) == 'not isinstance(exp, list)' and isinstance(b, ast.If) and isinstance(b.test, ast.Compare) \
                    and ast.unparse(b.test.left) == 'exp[0]' and isinstance(b.test.ops[0], ast.NotEq) and isinstance(b.body[0], ast.Raise):
                f.body[k:k + 2] = [ast.Expr(ast.Call(ast.Name('_expect', ast.Load()), [ast.Name('exp', ast.Load()), b.test.comparators[0]], []))]
        if is_ser(f):
            for s in f.body:
                if isinstance(s, ast.Assign) and ast.unparse(s.value) in ("' ' * indent",):
                    s.value = ast.parse('_blank(indent)', mode='eval').body
                if isinstance(s, ast.Assign) and ast.unparse(s.value) == "'\\n' if newline else ''":
                    s.value = ast.parse('_end(newline)', mode='eval').body
        return f


class OptHelper(ast.NodeTransformer):
    """x = f' (tok {self.a})' if self.a is not None else ''  ->  x = _opt('tok', self.a) when the text has exactly this form."""
    def visit_Module(self, m):
        self.generic_visit(m)
        pre = ast.parse('''
def _opt(token, value):
    if value is None:
        return ''
    return f' ({token} {value})'
''').body
        i = next((k for k, s in enumerate(m.body) if isinstance(s, (ast.ClassDef, ast.FunctionDef))), len(m.body))
        m.body[i:i] = pre
        return m

    def visit_Assign(self, n):
        v = n.value
        if isinstance(v, ast.IfExp) and isinstance(v.test, ast.Compare) and isinstance(v.test.ops[0], ast.IsNot) and isinstance(v.body, ast.JoinedStr) and len(v.body.values) == 3:
            a, b, c = v.body.values
            if isinstance(a, ast.Constant) and isinstance(c, ast.Constant) and isinstance(b, ast.FormattedValue) and b.format_spec is None and ast.dump(b.value) == ast.dump(v.test.left) \
                    and a.value.startswith(' (') and a.value.endswith(' ') and c.value == ')' and ast.unparse(v.orelse) == "''":
                n.value = ast.Call(ast.Name('_opt', ast.Load()), [ast.Constant(a.value[2:-1]), b.value], [])
        return n


class Statements(ast.NodeTransformer):
    """x = a if c else b  ->  if/else statement"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            return ast.If(v.test, [ast.Assign([copy.deepcopy(n.targets[0])], v.body)], [ast.Assign([copy.deepcopy(n.targets[0])], v.orelse)])
        return n


class LocalAttrs(ast.NodeTransformer):
    """Attribute reads of a saver go through locals: x_ = self.x at the start."""
    def visit_FunctionDef(self, f):
        if not is_ser(f):
            return f
        cls = getattr(self, 'props', set())
        names = []
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
                names.append(n.attr)
        calls = {n.func.attr for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self'}
        names = sorted(set(names) - calls)

        class T(ast.NodeTransformer):
            def visit_Attribute(s, n):
                s.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in names and isinstance(n.ctx, ast.Load):
                    return ast.Name(n.attr + '_l', ast.Load())
                return n
        g = T().visit(f)
        k = 1 if isinstance(f.body[0], ast.Expr) else 0
        g.body[k:k] = [ast.parse(f'{a}_l = self.{a}').body[0] for a in names]
        return g


class NoOps(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body[k:k] = ast.parse('_ = None\npass').body
        return f


class IndexLoop(ast.NodeTransformer):
    """for item in exp[1:]:  ->  for i_ in range(1, len(exp)): item = exp[i_]"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Subscript) and isinstance(n.iter.slice, ast.Slice) and n.iter.slice.upper is None and isinstance(n.iter.slice.lower, ast.Constant) and isinstance(n.target, ast.Name) \
                and isinstance(n.iter.value, ast.Name):
            b = n.iter.value.id
            v = f'i_{n.target.id}'
            return ast.For(ast.Name(v, ast.Store()), ast.parse(f'range({n.iter.slice.lower.value}, len({b}))', mode='eval').body,
                           [ast.parse(f'{n.target.id} = {b}[{v}]').body[0]] + n.body, n.orelse)
        return n


class Construct(ast.NodeTransformer):
    """Readers fill local variables and construct the object at the end where all sets are plain `object.x = ..`."""
    def visit_ClassDef(self, c):
        for i, f in enumerate(c.body):
            if isinstance(f, ast.FunctionDef) and is_par(f):
                c.body[i] = self.go(c, f)
        return c

    def go(self, c, f):
        attrs = {}
        for s in c.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.value, ast.Constant):
                attrs[s.target.id] = s.value
        uses = [n for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'object']
        names = {n.attr for n in uses}
        if not uses or not names <= set(attrs):
            return f
        raw = [n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id == 'object']
        if len(raw) != len(uses) + 2:
            return f
        if not any(isinstance(s, ast.Assign) and ast.unparse(s) == 'object = cls()' for s in f.body) or ast.unparse(f.body[-1]) != 'return object':
            return f

        class T(ast.NodeTransformer):
            def visit_Attribute(s, n):
                s.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == 'object':
                    return ast.Name(n.attr + '_c', n.ctx)
                return n
        g = T().visit(f)
        out = []
        for s in g.body:
            if isinstance(s, ast.Assign) and ast.unparse(s) == 'object = cls()':
                for a in sorted(names):
                    out.append(ast.Assign([ast.Name(a + '_c', ast.Store())], attrs[a]))
            elif isinstance(s, ast.Return) and ast.unparse(s) == 'return object':
                out.append(ast.Return(ast.Call(ast.Name('cls', ast.Load()), [], [ast.keyword(a, ast.Name(a + '_c', ast.Load())) for a in sorted(names)])))
            else:
                out.append(s)
        g.body = out
        return g


class Match(ast.NodeTransformer):
    """if item[0] == 'a': .. if item[0] == 'b': ..  ->  match item[0]: case 'a': .."""
    def visit_For(self, n):
        self.generic_visit(n)
        out, run, seen = [], [], set()

        def flush():
            if len(run) > 1:
                out.append(ast.Match(run[0].test.left, [ast.match_case(ast.MatchValue(s.test.comparators[0]), None, s.body) for s in run]))
            else:
                out.extend(run)
            run.clear()
            seen.clear()
        for s in n.body:
            if head_test(s):
                key = (ast.dump(s.test.left), s.test.comparators[0].value)
                if run and (ast.dump(run[0].test.left) != key[0] or key[1] in seen):
                    flush()
                run.append(s)
                seen.add(key[1])
            else:
                flush()
                out.append(s)
        flush()
        n.body = out
        return n


class Table(ast.NodeTransformer):
    """if item[0] == 't': object.a = item[1]  ->  setattr through a table, where every set is of that form and comes first"""
    def visit_For(self, n):
        self.generic_visit(n)
        tab, rest = {}, []
        for s in n.body:
            if head_test(s) and len(s.body) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.body[0].targets[0], ast.Attribute) and isinstance(s.test.left.value, ast.Name) \
                    and ast.unparse(s.body[0].value) == s.test.left.value.id + '[1]' and s.test.left.value.id == getattr(n.target, 'id', None) and ast.unparse(s.body[0].targets[0].value) == 'object':
                tab[s.test.comparators[0].value] = s.body[0].targets[0].attr
            else:
                rest.append(s)
        if len(tab) < 2:
            return n
        i = len(rest)
        while i and (head_test(rest[i - 1]) or isinstance(rest[i - 1], ast.Pass)):
            i -= 1
        t = n.target.id
        rest[i:i] = ast.parse(f'table_ = {tab!r}\nif {t}[0] in table_:\n    setattr(object, table_[{t}[0]], {t}[1])').body
        n.body = rest
        return n


class Method(ast.NodeTransformer):
    """The body of every saver moves to a method _serialize called by it."""
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            out.append(f)
            if isinstance(f, ast.FunctionDef) and is_ser(f) and not f.args.kwonlyargs and not f.decorator_list:
                g = copy.deepcopy(f)
                g.name = '_serialize'
                g.args.defaults = []
                for a in g.args.args:
                    a.annotation = None
                k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                g.body = g.body[k:]
                f.body = f.body[:k] + [ast.parse('return self._serialize(%s)' % ', '.join(a.arg for a in f.args.args[1:])).body[0]]
                out.append(g)
        c.body = out
        return c


class PerItem(ast.NodeTransformer):
    """The loop body of every reader moves to a static method _item(object, item)."""
    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            if not (isinstance(f, ast.FunctionDef) and is_par(f)):
                continue
            loops = [s for s in f.body if isinstance(s, ast.For)]
            if len(loops) != 1 or not isinstance(loops[0].target, ast.Name) or loops[0].orelse:
                continue
            L = loops[0]
            if any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(L)):
                continue
            stored = {x.id for x in ast.walk(L) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - {L.target.id}
            loaded = {x.id for s in f.body if s is not L for x in ast.walk(s) if isinstance(x, ast.Name)}
            inner = {x.id for x in ast.walk(L) if isinstance(x, ast.Name)}
            if stored & loaded or 'cls' in inner or 'exp' in {x.id for s in L.body for x in ast.walk(s) if isinstance(x, ast.Name)}:
                continue
            locs = {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - stored - {L.target.id}
            if (inner & locs) - {'object'}:
                continue

            class T(ast.NodeTransformer):
                def visit_Continue(s, n):
                    return ast.Return(None)

                def visit_For(s, n):
                    return n
            body = [T().visit(copy.deepcopy(s)) for s in L.body]
            g = ast.parse(f'@staticmethod\ndef _item(object, {L.target.id}):\n    pass').body[0]
            g.body = body
            new.append(g)
            L.body = ast.parse(f'cls._item(object, {L.target.id})').body
        c.body += new
        return c


class Walrus(ast.NodeTransformer):
    """len(x) > 0 -> x ; x == [] etc. left; `if a: if b:` merged"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            return ast.If(ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.body[0].body, [])
        return n


class SplitAnd(ast.NodeTransformer):
    """if a and b: -> nested ifs"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            cur = n.body
            for t in reversed(n.test.values):
                cur = [ast.If(t, cur, [])]
            return cur[0]
        return n


class Order(ast.NodeTransformer):
    """The independent head tests of every reader loop in reverse order."""
    def visit_For(self, n):
        self.generic_visit(n)
        out, run, seen = [], [], set()

        def flush():
            out.extend(reversed(run))
            run.clear()
            seen.clear()
        for s in n.body:
            if head_test(s):
                key = s.test.comparators[0].value
                if key in seen:
                    flush()
                run.append(s)
                seen.add(key)
            else:
                flush()
                out.append(s)
        flush()
        n.body = out
        return n


class Generic(ast.NodeTransformer):
    """List copies by slicing: for x in item[1:]: object.l.append(x)  ->  object.l += item[1:]"""
    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Call) and isinstance(n.body[0].value.func, ast.Attribute) \
                and n.body[0].value.func.attr == 'append' and isinstance(n.target, ast.Name) and ast.unparse(n.body[0].value.args[0]) == n.target.id:
            t = copy.deepcopy(n.body[0].value.func.value)
            t.ctx = ast.Store()
            return ast.AugAssign(t, ast.Add(), n.iter)
        return n


class WhileLoop(ast.NodeTransformer):
    """for x in y in savers -> iterator driven while loop is rare; enumerate instead"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name):
            return ast.For(ast.Tuple([ast.Name('n_', ast.Store()), n.target], ast.Store()), ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], []), n.body, n.orelse)
        return n


ALL = [Plain, RenameLocals, HeadVar, TokenVar, Invert, IsInstance, Continue2Else, FStrings, Format, Percent, Parts, Comprehend, Helper, OptHelper, Statements,
       LocalAttrs, NoOps, IndexLoop, Construct, Match, Table, Method, PerItem, Walrus, SplitAnd, Order, Generic, WhileLoop]


def build(T, dst):
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    n = 0
    for d, _, fs in os.walk(dst + '/src/kiutils'):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                s = open(p).read()
                a = ast.parse(s)
                t = ast.unparse(ast.fix_missing_locations(T().visit(copy.deepcopy(a))))
                if T is not Plain and t != ast.unparse(a):
                    n += sum(1 for x in t.splitlines() if x not in s)
                open(p, 'w').write(t + '\n')
    return n


def one(T, props):
    d = tempfile.mkdtemp(prefix='rf')
    try:
        n = build(T, d + '/r')
        t = subprocess.run(f'cd {d}/r && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={d}/r/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1', shell=True, capture_output=True, text=True).stdout
        out = []
        if '73 passed' in t:
            for p in props:
                r = subprocess.run(['timeout', '100', 'python3', V + '/check.py', '--property', p, '--repo', d + '/r', '--evidence', d + '/ev'], capture_output=True, text=True, timeout=None)
                ls = r.stdout.splitlines()
                und = sum(1 for l in ls if l.strip().startswith('undecided'))
                out.append((p, r.returncode, und, [l for l in ls[1:] if not l.startswith(('KNOWN', '  undecided'))][:6] if r.returncode else [l for l in ls if 'undecided' in l][1:4], r.stderr[-300:]))
        if '-d' in sys.argv:
            shutil.rmtree('/tmp/refactored', ignore_errors=True)
            shutil.copytree(d + '/r', '/tmp/refactored')
        return T.__name__, n, t.strip(), out
    finally:
        shutil.rmtree(d)


def main():
    import json
    k = sys.argv[sys.argv.index('-k') + 1].split(',') if '-k' in sys.argv else None
    props = sys.argv[sys.argv.index('-p') + 1].split(',') if '-p' in sys.argv else [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    with ThreadPoolExecutor(8) as ex:
        for name, n, t, out in ex.map(lambda T: one(T, props), [T for T in ALL if not k or T.__name__ in k]):
            print(f'== {name}: {n} lines changed; tests {t}')
            if not out:
                print('   TESTS FAIL')
            for p, rc, und, ls, err in out:
                if rc or und > 2 or '-v' in sys.argv:
                    print(f'   {p} rc={rc} undecided={und}')
                    for l in ls:
                        print('       ', l[:220])
                    if err:
                        print('       ', err)
            sys.stdout.flush()


if __name__ == '__main__':
    main()
