"""Rules decided by comparing the composition reader(writer(item)) with the identity."""
from . import program as P
from . import spec
from .values import *

ALL = None
NUM = {'int', 'float'}


def numeric(i):
    k = i.kinds() - {'none'}
    return bool(k) and k <= NUM


def optional(i):
    return i.optional()


def keyword(i):
    """The attribute holds a keyword of the format."""
    f = i.path.split('.')[-1].rstrip('[]')
    return 'str' in i.kinds() and any((k.name, f) in spec.UNQUOTED | set(spec.DOMAINS) for k in i.cls.mro())


def coll_path(i):
    return i.path.endswith('[]') or bool(i.kinds() & {'list', 'dict'})


def item_coll(ctx, i):
    """The issue concerns child items (objects), not plain values."""
    if '[]' in i.path:
        return True
    for m in P.members(P.without_none(i.typ)):
        if m[0] == 'inst':
            return True
        if m[0] in ('list', 'dict'):
            return True
    return i.path == '*'


def select(prop, ctx, i):
    k = i.kind
    if prop in ('C01', 'C02'):
        return True
    if prop == 'C05':
        return k == 'GUARD' or (k in ('LOST', 'DEP', 'FLAG', 'WORD', 'CRASH') and optional(i))
    if prop == 'C06':
        return k in ('CROSS', 'DEP')
    if prop == 'C07':
        return k == 'REJECT'
    if prop == 'C08':
        return k in ('COLL', 'MULT', 'ORDER') or (k in ('CROSS', 'LOST', 'GUARD', 'CRASH', 'DEP', 'ENC') and coll_path(i))
    if prop == 'C17':
        return k in ('FLAG', 'WORD') or 'bool' in i.kinds() or keyword(i)
    if prop == 'C18':
        return k == 'ROUND' or (k == 'ENC' and bool(i.kinds() & NUM))
    if prop == 'C19':
        return (k in ('COLL', 'MULT', 'CROSS', 'REJECT', 'CRASH') and item_coll(ctx, i)) or k == 'REJECT'
    return False


RULE = {
    'C01': 'every attribute of every class is recovered by reader(writer(item)) for every admissible value and combination of the other attributes',
    'C02': 'reader(writer(item)) equals item attribute by attribute',
    'C05': 'an optional attribute comes back unset exactly when it was unset, also for 0, False and empty text',
    'C06': 'no attribute receives the value of another one or depends on it',
    'C07': 'no reader raises on text its own writer produced',
    'C08': 'every collection comes back element by element, once each, in order',
    'C17': 'every flag and keyword value comes back as itself',
    'C18': 'no numeric attribute is rounded or transformed between attribute, text and attribute',
    'C19': 'every child item comes back in its own collection as its own class',
}


def relevant_path(prop, ctx, cm, path):
    """Which of the decided attribute comparisons count as obligations of the property."""
    if prop in ('C01', 'C02', 'C06'):
        return True
    f = path.split('.')[-1].rstrip('[]')
    T = cm.types.get(path, ('any',))
    ks = {m[0] for m in P.members(T)}
    if prop == 'C05':
        return 'none' in ks
    if prop == 'C08':
        return bool(ks & {'list', 'dict'}) or '[]' in path
    if prop == 'C17':
        return 'bool' in ks
    if prop == 'C18':
        return bool(ks & NUM)
    if prop == 'C19':
        return bool(ks & {'list', 'dict', 'inst'})
    if prop == 'C07':
        return False
    return False


def roundtrip(prop, ctx, res):
    res.rule(RULE[prop])
    for c, cm in ctx.comparers.items():
        res.count('reader/writer pairs')
        if prop == 'C07':
            if not any(i.kind == 'REJECT' for i in cm.issues):
                res.ok()
        if prop != 'C07' and cm.bounded:
            res.count('attributes decided by bounded unrolling', len([p for p in cm.bounded if relevant_path(prop, ctx, cm, p)]))
        hit = set()
        for i in cm.issues:
            if select(prop, ctx, i):
                hit.add(i.path)
                wl = ctx.where(c, 'to_sexpr')
                rl = ctx.where(c, 'from_sexpr')
                res.bad(i.key(), i.text(), f'{wl} / {rl}')
        for p in sorted(set(cm.decided)):
            if p not in hit and relevant_path(prop, ctx, cm, p):
                res.ok()
        for p, why in sorted(set(cm.undecided)):
            res.unknown(f'{c.name}.{p}: {why}')
    for c, e in ctx.cmp_errors.items():
        res.unknown(f'{c.name}: {e}')
