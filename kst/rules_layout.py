"""C14: layout parameters of the writers."""
import re
from . import spec
from . import tree as T
from .values import *
from .tree import WS
from .rules_text import writers, param_value, feasible

LAYOUT = re.compile(r'indent|newline|endline', re.I)


def params(f):
    return [a.arg for a in (f.node.args.args + f.node.args.kwonlyargs)[1:]]


def mentions(v, ps):
    return contains(v, lambda x: len(x) == 2 and x[0] == 'param' and x[1] in ps)


def neutral(items):
    """Token tree without the arguments of nested calls."""
    def fn(x):
        if x[0] == 'ser' and len(x) == 4:
            return ('ser', x[1], (), ())
        return None
    return tuple(subst(it, fn) for it in items)


def prune(ctx, c, items, ps):
    """Yield (what, conds) for every place where the token tree depends on a layout parameter."""
    for it in items:
        k = it[0]
        if k == 'node':
            yield from prune(ctx, c, it[1], ps)
        elif k == 'gate':
            if mentions(it[1], ps):
                a, b = neutral(it[2]), neutral(it[3])
                if a != b:
                    yield f'{T.showtree(it[2] or it[3])[:100]!r} is written depending on {show(it[1])[:60]}', (it[1],)
                    continue
            yield from prune(ctx, c, it[2], ps)
            yield from prune(ctx, c, it[3], ps)
        elif k == 'loop':
            if mentions(it[2], ps):
                yield f'the elements of {show(it[2])[:60]} that are written depend on the layout', ()
            yield from prune(ctx, c, it[3], ps)
        elif k == 'join':
            yield from prune(ctx, c, it[2], ps)
        elif k == 'atom':
            if mentions(it[1], ps):
                yield f'the value {T.showparts(it[1])[:80]!r} depends on the layout', ()
        elif k == 'ser':
            if mentions(it[1], ps):
                yield f'which item is written as {show(it[1])[:60]} depends on the layout', ()
            for kl in ctx.model.classes_of(it[1], c) or ():
                f = kl.find_method('to_sexpr')
                if f is None:
                    continue
                for q in params(f):
                    if LAYOUT.search(q):
                        continue
                    a = param_value(ctx, kl, it[2], q)
                    if a is not None and mentions(a, ps):
                        yield f'{kl.name}.to_sexpr is given {q}={show(a)[:40]} depending on the layout', ()


class Ends:
    """What a text can end with: ('close' | 'ws' | 'text' | 'blank' | '?', conditions)."""
    def __init__(self, ctx, c):
        self.ctx, self.c = ctx, c
        self.n = 0

    def of(self, parts, facts=(), ws=False):
        self.n += 1
        if self.n > 3000:
            yield '?', facts
            return
        if not parts:
            yield 'blank', facts
            return
        p, rest = parts[-1], parts[:-1]
        if p[0] == 'lit':
            t = p[1].rstrip(WS)
            if not t:
                yield from self.of(rest, facts, ws or bool(p[1]))
            else:
                yield ('ws' if ws or t != p[1] else 'close' if t[-1] == ')' else 'text'), facts
            return
        if p[0] == 'alt' or p[0] == 'hole' and p[1][0] == 'ite':
            v = p if p[0] == 'alt' else p[1]
            x, y = (p[2], p[3]) if p[0] == 'alt' else (str_parts(v[2]), str_parts(v[3]))
            fs = expand_facts(tuple(facts))
            for cond, sub in ((v[1], x), (mk_not(v[1]), y)):
                if simp(cond, fs) != FALSE:
                    yield from self.of(tuple(rest) + tuple(sub), facts + tuple(conjuncts(cond)), ws)
            return
        if p[0] == 'loop':
            for k, f in self.of(p[3], facts, ws):
                if k != 'blank':
                    yield k, f + (('truthy', p[2]),)
                else:
                    yield from self.of(rest, facts, ws or bool(p[3]))
            yield from self.of(rest, facts + (mk_not(('truthy', p[2])),), ws)
            return
        if p[0] != 'hole':
            yield '?', facts
            return
        v = p[1]
        if v[0] == 'str':
            yield from self.of(tuple(rest) + tuple(v[1]), facts, ws)
        elif is_strconst(v):
            yield from self.of(tuple(rest) + (('lit', v[2]),), facts, ws)
        elif T.is_ws_hole(v):
            yield from self.of(rest, facts, True)
        elif v[0] == 'ser':
            r = self.ser(v)
            for k in sorted(r):
                if k == 'blank':
                    yield from self.of(rest, facts, ws)
                else:
                    yield ('?' if k == '?' else 'ws' if ws else k), facts
        elif v[0] in ('top', 'phi', 'call', 'slice', 'idx', 'fmt') and not (v[0] == 'call' and v[1] in ('str', 'dequote', 'replace')):
            yield '?', facts
        else:
            yield ('ws' if ws else 'text'), facts

    def ser(self, v):
        ks = self.ctx.model.classes_of(v[1], self.c)
        if not ks:
            return {'?'}
        out = set()
        for k in ks:
            a = param_value(self.ctx, k, v, 'newline')
            w = self.ctx.model.writer(k)
            if w.value is None:
                continue
            out |= ends(self.ctx, k, w, a if a is None or is_const(a) else top('newline'))
        return out


def ends(ctx, c, w, newline):
    """Kinds of ends of the text c writes with this value of newline."""
    if newline is not None and not is_const(newline):
        return {'?'}
    if not hasattr(ctx, '_ends'):
        ctx._ends = {}
    key = (c, newline)
    if key not in ctx._ends:
        ctx._ends[key] = {'?'}
        v = w.value
        if newline is not None:
            n, t = ('param', 'newline'), const(bool(newline[2]))
            v = simp_val(subst(v, lambda x: t if x == n else None), frozenset())
        out = set()
        for k, f in Ends(ctx, c).of(tuple(str_parts(v))):
            if k in out:
                continue
            if k in ('ws', 'text'):
                r = feasible(ctx, c, f)
                if r is False:
                    continue
                k = k if r else '?'
            out.add(k)
        ctx._ends[key] = out
    return ctx._ends[key]


def layout(ctx, res):
    """C14"""
    res.rule('no token, value, nested item or loop of a writer depends on an indentation or newline parameter')
    res.rule('no writer raises depending on an indentation or newline parameter')
    res.rule('with newline=False no path through a writer ends in white space')
    for c, w in writers(ctx):
        ps = {p for p in params(w.func) if LAYOUT.search(p)}
        if not ps:
            continue
        res.count('writers with layout options')
        where = ctx.where(c, 'to_sexpr')
        for e in w.raises:
            if mentions(e.pc, ps) and not has_top(e.pc):
                # a test that mentions the parameter on only one side of an alternative
                res.bad(f'RAISE:{c.name}', f'{c.name}: saving raises depending on the layout: {show(e.pc)[:100]}', e.where())
        if w.tree is None:
            # unbalanced under some condition: is the layout part of it?
            res.unknown(f'{c.name}: {w.error}')
        else:
            bad = False
            for what, conds in prune(ctx, c, w.tree, ps):
                f = feasible(ctx, c, conds)
                if has_top(tuple(conds)) or f is False:
                    continue
                bad = True
                res.bad(f'LAYOUT:{c.name}:{what[:60]}', f'{c.name}: {what}', where)
            if not bad:
                if T.has_unk(w.tree):
                    res.unknown(f'{c.name}: undetermined text')
                else:
                    res.ok()
        if 'newline' in ps and w.value is not None and c.name not in spec.ROOTLESS:
            e = ends(ctx, c, w, const(False))
            if 'ws' in e:
                res.bad(f'END:{c.name}', f'{c.name}: the text ends with white space although newline is False', where)
            elif 'text' in e:
                res.bad(f'END:{c.name}', f'{c.name}: the text does not end with a closing parenthesis', where)
            elif '?' in e:
                res.unknown(f'{c.name}: end of the text')
            else:
                res.ok()
