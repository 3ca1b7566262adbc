"""Rules on single writers: no null values or containers in the text, no failing access, no refusal to save (C01, C02, C05)."""
from . import program as P
from . import spec
from .values import *
from .rules_text import writers, feasible, all_atoms, holes, strip_calls, owner_attr

REPR = {'list': 'a list', 'dict': 'a mapping', 'inst': 'an object', 'tuple': 'a tuple'}


def none_able(ctx, c, v):
    """Declared so that it can be None."""
    if v[0] not in ('attr', 'idx', 'elem', 'val'):
        return False
    return any(m[0] == 'none' for m in P.members(ctx.model.typeof(v, c)))


def leaves(v):
    """Values whose text ends up in the output, below formatting and escaping calls."""
    base, _, _ = strip_calls(v)
    while base[0] == 'fmt':
        base = base[1]
    return base


def places(items, gates=()):
    """(value, gates, role) for everything the writer evaluates while producing the text."""
    for it in items:
        k = it[0]
        if k == 'atom':
            for v, cs in holes(it[1]):
                yield v, gates + cs, 'text'
        elif k == 'node':
            yield from places(it[1], gates)
        elif k == 'gate':
            yield from places(it[2], gates + (it[1],))
            yield from places(it[3], gates + (mk_not(it[1]),))
        elif k == 'loop':
            yield it[2], gates, 'iter'
            yield from places(it[3], gates + (('truthy', it[2]),))
        elif k == 'join':
            yield from places(it[2], gates)
        elif k == 'ser':
            yield it[1], gates, 'item'


def nulls(ctx, res):
    """C05: what is put into the text is never None, a container or an object."""
    res.rule('under the path condition of every hole of every writer template, its value cannot be None and is not a container or object')
    for c, w in writers(ctx):
        if w.items is None:
            res.unknown(f'{c.name}: no template')
            continue
        where = ctx.where(c, 'to_sexpr')
        res.count('writers checked for nulls')
        for v, gates, role in places(w.items):
            if role != 'text':
                continue
            base = leaves(v)
            if has_top(base):
                continue
            res.count('values written')
            if none_able(ctx, c, base):
                f = feasible(ctx, c, w.pc + gates + (('isnone', base),), invariants=False)
                if f:
                    res.bad(f'NULL:{c.name}:{show(base)}', f'{c.name}: {show(base)} is written as None when it is unset', where)
                    continue
            ks = {m[0] for m in P.members(P.without_none(ctx.model.typeof(base, c)))}
            if ks and ks <= set(REPR) and base[0] in ('attr', 'elem', 'idx', 'val', 'seq', 'map', 'obj') and not has_str(ctx, c, base):
                if feasible(ctx, c, gates):
                    res.bad(f'REPR:{c.name}:{show(base)}', f'{c.name}: {show(base)} is written as the representation of {REPR[sorted(ks)[0]]}', where)
                    continue
            res.ok()


def has_str(ctx, c, v):
    ks = ctx.model.classes_of(v, c) or []
    return any(k.find_method('__str__') or k.find_method('__format__') for k in ks)


def accesses(ctx, res):
    """C01, C02, C05: saving does not fail on unset or short attributes."""
    res.rule('no writer takes an attribute, element or item of a value that can be None or too short under its path condition')
    for c, w in writers(ctx):
        if w.items is None:
            continue
        where = ctx.where(c, 'to_sexpr')
        for v, gates, role in places(w.items):
            seen = set()
            for x in ([v] if role in ('item', 'iter') else []) + [y[1] for y in walk(v) if y[0] in ('attr', 'idx')]:
                if x in seen or x == ('param', 'self') or has_top(x):
                    continue
                seen.add(x)
                if none_able(ctx, c, x):
                    res.count('accesses')
                    f = feasible(ctx, c, gates + (('isnone', x),))
                    if f:
                        res.bad(f'ACCESS:{c.name}:{show(x)}', f'{c.name}: saving fails when {show(x)} is unset', where)
                    else:
                        res.ok()
            for y in walk(v):
                if y[0] == 'idx' and is_const(y[2]) and isinstance(y[2][2], int) and y[2][2] >= 0 and y[1][0] == 'attr':
                    ms = P.members(P.without_none(ctx.model.typeof(y[1], c)))
                    if ms and all(m[0] == 'list' for m in ms):
                        res.count('accesses')
                        short = mk_not(mk_cmp('le', const(y[2][2] + 1), ('call', 'len', (y[1],), ())))
                        if feasible(ctx, c, gates + (short,)):
                            res.bad(f'ACCESS:{c.name}:{show(y)}', f'{c.name}: saving fails when {show(y[1])} has no element {y[2][2]}', where)
                        else:
                            res.ok()


def refusals(ctx, res):
    """C01, C02: a writer raises only for the documented inadmissible items."""
    res.rule('the path condition of every raise reachable from a writer implies one of the documented inadmissible states of the item')
    for c, w in writers(ctx):
        where = ctx.where(c, 'to_sexpr')
        for e in w.raises or ():
            if has_top(e.pc):
                res.unknown(f'{c.name}: condition of raise')
                continue
            res.count('raises in writers')
            bad = feasible(ctx, c, (e.pc,) + tuple(mk_not(x) for x in spec.unsavable(c)))
            if bad:
                res.bad(f'REFUSE:{c.name}', f'{c.name}: saving raises although the item is complete (when {show(e.pc)[:160]})', e.where() if hasattr(e, 'where') else where)
            elif bad is None:
                res.unknown(f'{c.name}: condition of raise')
            else:
                res.ok()


def available(ctx, res):
    """C01, C02, C07: every item can be loaded and saved at all."""
    res.rule('no loader or saver raises on every input, apart from items without an own expression')
    m = ctx.model
    for c in m.item_classes():
        for kind, f, s, skip in (('loading', 'from_sexpr', m.reader(c), spec.NO_READER), ('saving', 'to_sexpr', m.writer(c), spec.NO_WRITER)):
            if s.func is None or c.name in skip:
                continue
            res.count('loaders and savers')
            if s.abstract and s.raises and not all(e.data == 'NotImplementedError' for e in s.raises):
                res.bad(f'NEVER:{c.name}.{f}', f'{kind} {c.name} always raises', ctx.where(c, f))
            else:
                res.ok()
