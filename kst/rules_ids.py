"""C12: library identifiers."""
import itertools
import re._constants as sc
import re._parser as sre
from . import program as P
from .absint import Interp, State, Inst
from .lexer import Lang, lang, difference, intersects, Unsupported
from .shapes import identity, shapes, display, Shape, Unknown
from .values import *

SELF = ('param', 'self')
NICK, ENTRY, UNIT, STYLE = (('attr', SELF, n) for n in ('libraryNickname', 'entryName', 'unitId', 'styleId'))


def owners(ctx):
    for c in ctx.prog.all_classes():
        p = c.find_prop('libId')
        if p and 'get' in p and 'set' in p:
            yield c, p
        elif c.field('libraryNickname') is not None and c.field('entryName') is not None:
            yield c, p


def flat(parts, facts):
    """Text parts under facts: list of ('lit', s) / ('hole', v), or None when a condition stays open."""
    out = []
    for p in parts:
        if p[0] == 'alt':
            c = simp(p[1], facts)
            if c == TRUE:
                s = flat(p[2], facts)
            elif c == FALSE:
                s = flat(p[3], facts)
            else:
                return None
            if s is None:
                return None
            out.extend(s)
        elif p[0] == 'lit':
            out.append(p)
        elif p[0] == 'hole':
            v = p[1]
            while v[0] == 'call' and v[1] == 'str' and len(v[2]) == 1:
                v = v[2][0]
            v = simp_val(v, facts)
            if v[0] == 'ite':
                return None
            if is_const(v):
                out.append(('lit', str(v[2])))
            elif v[0] == 'str':
                s = flat(v[1], facts)
                if s is None:
                    return None
                out.extend(s)
            else:
                out.append(('hole', v))
        else:
            return None
    res = []
    for p in out:
        if p[0] == 'lit':
            if not p[1]:
                continue
            if res and res[-1][0] == 'lit':
                res[-1] = ('lit', res[-1][1] + p[1])
                continue
        res.append(p)
    return res


def showp(parts):
    return ''.join(p[1] if p[0] == 'lit' else '{' + show(p[1])[:50] + '}' for p in parts)


def getter(ctx, res, c, p, where):
    I = Interp(ctx.prog, virtual_props=False)
    I.param_types = {'self': ('inst', c)}
    st = State({}, {}, ())
    ref = I.alloc(st, Inst(c, {}, SELF))
    v, s2 = I.call(p['get'], [ref], {}, st, None)
    if s2 is None:
        res.bad(f'GET:{c.name}', f'{c.name}.libId always raises', where)
        return
    for e in I.raises:
        if not has_top(e.pc):
            res.bad(f'GET:{c.name}:raise', f'{c.name}.libId can raise', e.where())
    v = I.resolve(v, s2)
    units = c.field('unitId') is not None and c.field('styleId') is not None
    nums = (None, 0, 1) if units else (None,)
    d = c.field('entryName')
    for nick in (None, '', 'x'):
        for u, s in itertools.product(nums, nums):
            facts = set()
            for e, val in ((NICK, nick),) + (((UNIT, u), (STYLE, s)) if units else ()):
                facts.add(('isnone', e) if val is None else mk_not(('isnone', e)))
                facts.add(('truthy', e) if val else mk_not(('truthy', e)))
                if val == 0 and e is not NICK:
                    facts.add(mk_eq(e, const(0)))
                if val is None:
                    facts.add(mk_eq(e, NONE))
            # the entry name is a text, empty or not
            for en in (True, False):
                f2 = frozenset(facts | {mk_not(('isnone', ENTRY)), ('truthy', ENTRY) if en else mk_not(('truthy', ENTRY))})
                w = simp_val(v, f2)
                got = flat(str_parts(w) if w[0] in ('str', 'const') or w[0] != 'ite' else (('hole', w),), f2)
                want = [('hole', ENTRY)]
                if nick:
                    want = [('hole', NICK), ('lit', ':'), ('hole', ENTRY)]
                elif u is not None and s is not None:
                    want = [('hole', ENTRY), ('lit', '_'), ('hole', UNIT), ('lit', '_'), ('hole', STYLE)]
                if got is None or any(p[0] == 'hole' and has_top(p[1]) for p in got):
                    res.unknown(f'{c.name}.libId: {show(w)[:80]}')
                    continue
                if not en:
                    got = [p for p in got if p != ('hole', ENTRY)]
                    want = [p for p in want if p != ('hole', ENTRY)]

                # a value known to be zero may show up as the number
                def norm(ps):
                    o = []
                    for q in ps:
                        if q == ('hole', UNIT) and u == 0 or q == ('hole', STYLE) and s == 0:
                            q = ('lit', '0')
                        if q[0] == 'lit' and o and o[-1][0] == 'lit':
                            o[-1] = ('lit', o[-1][1] + q[1])
                        else:
                            o.append(q)
                    return o
                if norm(got) != norm(want):
                    res.bad(f'GET:{c.name}', f'{c.name}.libId is {showp(got)!r} instead of {showp(want)!r} when libraryNickname is {"set" if nick else "not set"}'
                            + (f', unitId is {u}, styleId is {s}' if units else ''), where)
                else:
                    res.ok()
    if isinstance(d.default, type(None)) and d.factory is None:
        pass
    return


def bare(v):
    """The text itself, without str() around it."""
    while True:
        if v[0] == 'call' and v[1] == 'str' and len(v[2]) == 1:
            v = v[2][0]
        elif v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'hole':
            v = v[1][0][1]
        else:
            return v


def match_call(v):
    """(pattern text, subject, kind, flags) of a regular expression match value."""
    if v[0] != 'call':
        return None
    n, a = v[1], v[2]
    if n in ('re.match', 're.fullmatch', 're.search') and len(a) >= 2 and is_strconst(a[0]):
        return a[0][2], a[1], n[3:], a[2:] or v[3]
    if n in ('.match', '.fullmatch', '.search', 'match', 'fullmatch', 'search') and len(a) == 2 and a[0][0] == 'call' and a[0][1] == 're.compile' \
            and is_strconst(a[0][2][0]):
        return a[0][2][0][2], a[1], n.lstrip('.'), a[0][2][1:] or a[0][3]
    return None


def group_of(v):
    """(match value, group number or name)"""
    if v[0] == 'call' and v[1] in ('group', '.group') and len(v[2]) == 2 and is_const(v[2][1]):
        return v[2][0], v[2][1][2]
    if v[0] == 'idx' and is_const(v[2]):
        if match_call(v[1]):
            return v[1], v[2][2]
        if v[1][0] == 'call' and v[1][1] in ('groups', '.groups') and len(v[1][2]) == 1 and isinstance(v[2][2], int):
            return v[1][2][0], v[2][2] + 1
        if v[1][0] == 'call' and v[1][1] in ('groupdict', '.groupdict'):
            return v[1][2][0], v[2][2]
        if v[1][0] == 'call' and v[1][1] in ('group', '.group') and len(v[1][2]) > 2 and isinstance(v[2][2], int):
            return v[1][2][0], v[1][2][1 + v[2][2]][2]
    return None


class Pattern:
    """Decomposition of a matched text into groups and literal text."""
    def __init__(self, text, kind, flags):
        self.ok = False
        if flags:
            return
        p = sre.parse(text)
        self.names = p.state.groupdict
        items = list(p)
        self.flags = p.state.flags
        self.start = kind in ('match', 'fullmatch')
        self.end = 'full' if kind == 'fullmatch' else None
        seq = []
        self.groups = {}
        for n, (op, av) in enumerate(items):
            if op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and n == 0:
                self.start = True
            elif op is sc.AT and av is sc.AT_END_STRING and n == len(items) - 1:
                self.end = 'full'
            elif op is sc.AT and av is sc.AT_END and n == len(items) - 1:
                self.end = self.end or 'newline'
            elif op is sc.LITERAL:
                if seq and seq[-1][0] == 'lit':
                    seq[-1] = ('lit', seq[-1][1] + chr(av))
                else:
                    seq.append(('lit', chr(av)))
            elif op is sc.SUBPATTERN and av[0] is not None:
                seq.append(('g', av[0]))
                self.groups[av[0]] = list(av[3])
            else:
                return
        self.seq = seq
        if self.end is None and seq and seq[-1][0] == 'g' and (self.flags & 16) and self.greedy_any(self.groups[seq[-1][1]]):
            self.end = 'full'
        self.ok = True

    def greedy_any(self, items):
        return len(items) == 1 and items[0][0] is sc.MAX_REPEAT and items[0][1][1] == sc.MAXREPEAT and list(items[0][1][2])[0][0] is sc.ANY

    def number(self, g):
        return self.names.get(g, g)

    def lang(self, g):
        return Lang([self.groups[g]], self.flags)

    def may_be_empty(self, g):
        l = self.lang(g)
        return l.accepts(l.init())


CHANGING = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase', 'replace', 'expandtabs', 'removeprefix', 'removesuffix'}
CANON = r'0|[1-9][0-9]*'


def cases(v, facts=()):
    """Leaves of a value with the facts leading to them."""
    fs = expand_facts(tuple(facts))
    v = simp_val(v, fs)
    if v[0] == 'ite':
        for c, x in ((v[1], v[2]), (mk_not(v[1]), v[3])):
            if simp(c, fs) != FALSE:
                yield from cases(x, tuple(facts) + tuple(conjuncts(c)))
        return
    if v[0] == 'str':
        for p in v[1]:
            if p[0] == 'alt':
                c = p[1]
            elif p[0] == 'hole' and p[1][0] == 'ite':
                c = p[1][1]
            else:
                continue
            for x in (c, mk_not(c)):
                if simp(x, fs) != FALSE:
                    yield from cases(v, tuple(facts) + tuple(conjuncts(x)))
            return
    yield v, fs


def feasible(facts, pats):
    for f in facts:
        if f[0] == 'or':
            rest = [x for x in facts if x != f]
            if not any(simp(d, expand_facts(tuple(rest))) != FALSE and feasible(expand_facts(tuple(rest) + tuple(conjuncts(d))), pats) for d in f[1]):
                return False
            continue
        t, neg = (f[1], True) if f[0] == 'not' else (f, False)
        if neg and mk_not(f) in facts:
            return False
        if t[0] == 'truthy':
            g = group_of(t[1])
            if g and neg:
                p = pats(g[0])
                if p is not None and p.ok:
                    try:
                        if not p.may_be_empty(p.number(g[1])):
                            return False
                    except (Unsupported, KeyError):
                        pass
        if t[0] == 'isnone' and not neg:
            if group_of(t[1]) or (t[1][0] == 'call' and t[1][1] in ('int', 'str')):
                return False
            m = match_call(t[1])
            if m and ('truthy', t[1]) in facts:
                return False
        if t[0] == 'isnone' and neg and match_call(t[1]) and mk_not(('truthy', t[1])) in facts:
            return False
    return True


def matcher():
    cache = {}

    def pats(m):
        if m not in cache:
            k = match_call(m)
            cache[m] = None
            if k:
                try:
                    cache[m] = Pattern(k[0], k[2], k[3])
                except Exception:
                    cache[m] = None
        return cache[m]
    return pats


def joined(res, c, v, sid, where, pats, pre=''):
    """The identifier v must be the text sid on every path."""
    if not contains(v, lambda x: x[0] == 'call' and match_call(x) is not None) and contains(v, lambda x: x[0] in ('call', 'slice')) \
            and not contains(v, lambda x: x == SELF or x[0] == 'top'):
        r = identity(v, sid, (':', '_') if c.field('unitId') is not None else (':',))
        if r is True:
            res.ok()
            return
        if r is not None:
            res.bad(f'{pre}JOIN:{c.name}', f'{c.name}.libId is {r[1]!r} after assigning {r[0]!r}', where)
            return
    for leaf, facts in cases(v):
        if not feasible(facts, pats):
            continue
        parts = flat(str_parts(leaf), frozenset(facts))
        cond = ' and '.join(sorted(show(f)[:60] for f in facts))[:160]
        if parts is None or has_top(leaf) or any(has_top(f) for f in facts):
            res.unknown(f'{c.name}.libId: {show(leaf)[:80]}')
            continue
        if parts == [('hole', sid)]:
            res.ok()
            continue
        if contains(leaf, lambda x: x == SELF):
            res.bad(f'{pre}STALE:{c.name}', f'after assigning {c.name}.libId it still depends on its previous parts: {showp(parts)!r} (when {cond})', where)
            continue
        # text taken apart by a regular expression
        ms = [m for f in facts if f[0] == 'truthy' or f[0] == 'not' and f[1][0] == 'isnone'
              for m in [f[1] if f[0] == 'truthy' else f[1][1]] if match_call(m)]
        ms = list(dict.fromkeys(ms))
        done = False
        for m in ms:
            k = match_call(m)
            subj = bare(k[1])
            pt = pats(m)
            if subj[0] == 'call' and subj[1].lstrip('.') in CHANGING and subj[2] and bare(subj[2][0]) == sid:
                res.bad(f'{pre}JOIN:{c.name}:changed', f'{c.name}.libId does not keep the assigned text: {subj[1]}() is applied to it', where)
                done = True
                break
            if subj != sid or pt is None or not pt.ok:
                continue
            mapped, bad = [], None
            for q in parts:
                if q[0] == 'lit':
                    mapped.append(q)
                    continue
                h = q[1]
                isint = h[0] == 'call' and h[1] == 'int' and len(h[2]) == 1
                g = group_of(h[2][0] if isint else h)
                if g is None or g[0] != m:
                    mapped.append(('?', h))
                    continue
                n = pt.number(g[1])
                mapped.append(('g', n))
                if isint and n in pt.groups:
                    try:
                        w = difference(pt.lang(n), lang(CANON))
                    except Unsupported:
                        w = None
                    if w is not None:
                        bad = f'the number {w!r} is not kept as written'
            if not any(x[0] == 'g' for x in mapped):
                continue
            done = True
            if mapped != pt.seq:
                if any(x[0] == '?' and x[1][0] in ('call', 'idx', 'slice') for x in mapped):
                    res.unknown(f'{c.name}.libId: {showp(parts)}')
                else:
                    res.bad(f'{pre}JOIN:{c.name}', f'{c.name}.libId is {showp(parts)!r} after assigning a text matching {k[0]!r}', where)
            elif not pt.start:
                res.bad(f'{pre}JOIN:{c.name}:start', f'{c.name}.libId drops what precedes the match of {k[0]!r}', where)
            elif pt.end is None:
                res.bad(f'{pre}JOIN:{c.name}:end', f'{c.name}.libId drops what follows the match of {k[0]!r}', where)
            elif pt.end == 'newline':
                res.bad(f'{pre}JOIN:{c.name}:newline', f'{c.name}.libId drops a trailing line break ({k[0]!r})', where)
            elif bad:
                res.bad(f'{pre}JOIN:{c.name}:number', f'{c.name}.libId: {bad}', where)
            else:
                res.ok()
            break
        if done:
            continue
        r = split_join(parts, sid, facts)
        if r is True:
            res.ok()
        elif r is False:
            res.bad(f'{pre}JOIN:{c.name}', f'{c.name}.libId is {showp(parts)!r} after assigning it (when {cond})', where)
        else:
            res.unknown(f'{c.name}.libId: {showp(parts)}')

FORMS = (('libraryNickname', r'[^:\n]+:[^:\n]+', 'text on both sides of a colon'),
         ('unitId', r'[^:_\n]+_(0|[1-9][0-9]*)_(0|[1-9][0-9]*)', 'a unit and a style number'),
         ('styleId', r'[^:_\n]+_(0|[1-9][0-9]*)_(0|[1-9][0-9]*)', 'a unit and a style number'))


def taken_apart(res, c, after, sid, where, pats):
    """A text of the form nickname:entry sets the nickname, one of the form entry_unit_style the numbers."""
    for f, form, what in FORMS:
        v = after.get(f)
        if c.field(f) is None or v is None:
            continue
        n0, und = len(res.findings), False
        if f == 'libraryNickname' and not contains(v, lambda x: x[0] == 'call' and match_call(x) is not None):
            for parts in shapes((':', '_') if c.field('unitId') is not None else (':',), 6):
                if parts.count(':') != 1 or ':' in (parts[0], parts[-1]):
                    continue
                i = parts.index(':')
                try:
                    got = Shape(sid, parts).text(v)
                    ent = Shape(sid, parts).text(after.get('entryName', NONE))
                except (Unknown, RecursionError, KeyError, IndexError):
                    try:
                        if Shape(sid, parts).ev(v) == ('k', None):
                            res.bad(f'FORM:{c.name}.{f}', f'assigning {display(parts)!r} to {c.name}.libId sets no library nickname', where)
                            break
                    except (Unknown, RecursionError, KeyError, IndexError):
                        pass
                    und = True
                    continue
                if got != parts[:i] or ent != parts[i + 1:]:
                    res.bad(f'FORM:{c.name}.{f}', f'assigning {display(parts)!r} to {c.name}.libId sets the nickname {display(got)!r} and the entry name {display(ent)!r}', where)
                    break
        else:
            for leaf, facts in cases(v):
                if leaf != NONE or not feasible(facts, pats):
                    continue
                neg, pos, other = [], [], False
                for x in facts:
                    y, no = (x[1], True) if x[0] == 'not' else (x, False)
                    if y[0] == 'isnone' and match_call(y[1]):
                        y, no = ('truthy', y[1]), not no
                    if y[0] != 'truthy' or not match_call(y[1]) or bare(match_call(y[1])[1]) != sid:
                        other = True
                        continue
                    (neg if no else pos).append(y[1])
                if other:
                    und = True
                    continue
                try:
                    words = sre.parse(form)
                    a = Lang([list(words)], words.state.flags)
                    b = Lang([whole(m) for m in neg], 0) if neg else None
                    w = (difference(a, b) if b else 'a')
                    for m in pos:
                        if w is not None and (intersects(a, Lang([whole(m)], 0)) is None):
                            w = None
                    if w is not None and pos:
                        und = True
                        continue
                except Unsupported:
                    und = True
                    continue
                if w is not None:
                    res.bad(f'FORM:{c.name}.{f}', f'assigning {w!r} to {c.name}.libId does not set {f} (the text has {what})', where)
                    break
        if len(res.findings) == n0:
            if und:
                res.unknown(f'{c.name}.{f}: form of the identifiers')
            else:
                res.ok()


def whole(m):
    """Items of the regular expression m for the texts it matches as a whole."""
    text, subj, kind, flags = match_call(m)
    if flags:
        raise Unsupported('flags')
    p = sre.parse(text)
    if p.state.flags & ~32:
        raise Unsupported('flags')
    items = list(p)
    anything = list(sre.parse(r'(?s:.*)'))
    pre = post = True
    if items and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        items, pre = items[1:], False
    if items and items[-1][0] is sc.AT and items[-1][1] in (sc.AT_END, sc.AT_END_STRING):
        items, post = items[:-1], False          # the forms have no line break
    if kind != 'search':
        pre = False
    if kind == 'fullmatch':
        post = False
    return (anything if pre else []) + items + (anything if post else [])


def setter(ctx, res, c, p, where):
    I = Interp(ctx.prog, virtual_props=False)
    arg = [a.arg for a in p['set'].node.args.args][1]
    sid = ('param', arg)
    I.param_types = {'self': ('inst', c), arg: ('str',)}
    st = State({}, {}, ())
    ref = I.alloc(st, Inst(c, {}, SELF))
    r, s2 = I.call(p['set'], [ref, sid], {}, st, None)
    if s2 is None:
        res.bad(f'SET:{c.name}', f'assigning {c.name}.libId always raises', where)
        return
    events = list(I.events)
    for e in I.raises:
        res.bad(f'SET:{c.name}:raise', f'assigning {c.name}.libId can raise: {show(e.pc)[:80]}', e.where())
    after = dict(s2.heap[ref[1]].fields)
    v, s3 = I.call(p['get'], [ref], {}, s2, None)
    if s3 is None:
        return
    v = I.resolve(v, s3)
    pats = matcher()
    joined(res, c, v, sid, where, pats)
    res.count('identifier forms', 1)
    taken_apart(res, c, {k: I.resolve(x, s2) for k, x in after.items()}, sid, where, pats)
    # no stale part: every part is set on every path
    for f in ('libraryNickname', 'entryName', 'unitId', 'styleId'):
        if c.field(f) is None:
            continue
        x = after.get(f, ('attr', SELF, f))
        good = True
        for leaf, facts in cases(I.resolve(x, s2)):
            if not feasible(facts, pats):
                continue
            if contains(leaf, lambda y: y == SELF):
                good = False
                res.bad(f'STALE:{c.name}.{f}', f'assigning {c.name}.libId can leave the previous {f} in place', where)
            if f in ('unitId', 'styleId') and leaf != NONE and not has_top(leaf) and not (leaf[0] == 'call' and leaf[1] == 'int') and not is_const(leaf):
                good = False
                res.bad(f'TYPE:{c.name}.{f}', f'assigning {c.name}.libId stores {f} as text', where)
            if f in ('libraryNickname', 'entryName') and leaf[0] == 'call' and leaf[1] == 'int':
                good = False
                res.bad(f'TYPE:{c.name}.{f}', f'assigning {c.name}.libId stores {f} as number', where)
        if good:
            res.ok()
    u = c.field('units')
    if u is not None:
        res.count('parents of units')
        want = I.resolve(after.get('entryName', ENTRY), s2)
        hit = False
        for e in events:
            if e.kind == 'mutate' and e.data[1] == 'setattr' and e.data[0][0] == 'attr' and e.data[0][2] == 'entryName':
                b = e.data[0][1]
                if b[0] == 'elem' and b[2] == ('attr', SELF, 'units'):
                    cs = [x for x in conjuncts(e.pc) if not (x[0] == 'any' and x[3] == TRUE) and x not in expand_facts(s2.pc)]
                    if e.val != want and not (e.val and has_top(e.val)):
                        # a value tested path by path
                        pc = conjuncts(e.pc)
                        if any(feasible(f, pats) and bare(simp_val(e.val, f)) != bare(l) for l, f in cases(want, tuple(pc))):
                            res.bad(f'UNITS:{c.name}', f'assigning {c.name}.libId gives the units another entry name', e.where())
                            hit = True
                            continue
                    if cs and not has_top(mk_and(cs)) and not group_conds(cs, events):
                        continue
                    hit = True
        if not hit:
            if any(e.kind in ('unknowncall', 'dynsetattr') for e in events):
                res.unknown(f'{c.name}: units')
            else:
                res.bad(f'UNITS:{c.name}', f'assigning {c.name}.libId leaves units with the previous entry name', where)
        else:
            res.ok()


def group_conds(cs, events):
    """Conditions that only test for presence of units."""
    return all(x[0] == 'truthy' and x[1] == ('attr', SELF, 'units') for x in cs)


def split_join(parts, sid, facts):
    """Texts taken apart with partition/split: True = joined to the original, False = surely not, None = unknown."""
    def src(v):
        if v[0] == 'idx' and is_const(v[2]) and v[1][0] == 'slice' and v[1][2] in (NONE, const(0)) and is_const(v[1][3]) and isinstance(v[1][3][2], int) and v[2][2] < v[1][3][2] and v[2][2] >= 0:
            v = ('idx', v[1][1], v[2])       # x[:n][i]
        if v[0] == 'idx' and is_const(v[2]) and v[1][0] == 'call' and v[1][1] in ('partition', 'rpartition', 'split', 'rsplit'):
            a = v[1][2]
            s = bare(a[0])
            if s == sid and len(a) > 1 and is_strconst(a[1]):
                lim = a[2][2] if len(a) > 2 and is_const(a[2]) else dict(v[1][3]).get('maxsplit', (0, 0, None))[2]
                return v[1][1], a[1][2], lim, v[2][2]
        return None
    hs = [p[1] for p in parts if p[0] == 'hole']
    ks = [src(h) for h in hs]
    if not ks or any(k is None for k in ks):
        return None
    kind, sep, lim, _ = ks[0]
    if any(k[:3] != ks[0][:3] for k in ks):
        return None
    idx = [k[3] for k in ks]
    lits = [p[1] for p in parts if p[0] == 'lit']
    present = any(f[0] == 'in' and f[1] == const(sep) and bare(f[2]) == sid or f[0] == 'truthy' and src(f[1]) and src(f[1])[0] in ('partition', 'rpartition') and src(f[1])[3] == 1 for f in facts)
    if not any(contains(f, lambda x: x == sid) for f in facts):
        present = True          # nothing is known about the text: it may hold the separator
    if kind in ('partition', 'rpartition'):
        shape = [p[1] if p[0] == 'lit' else src(p[1])[3] for p in parts]
        if shape in ([0, sep, 2], [0, 1, 2]):
            return True if present or shape == [0, 1, 2] else None
        return False if present else None
    if lim is None or lim < 0:
        if any(f[0] == 'eq' and 'len' in repr(f) for f in facts):
            return None
        return False if present else None
    shape = [p[1] if p[0] == 'lit' else src(p[1])[3] for p in parts]
    full = []
    for i in range(lim + 1):
        full += ([sep] if i else []) + [i]
    alt = []
    for i in range(lim + 1):
        alt += ([sep] if i else []) + [i - lim - 1]
    if shape in (full, alt):
        return True if present or any('len' in repr(f) for f in facts) else None
    return False if present else None


def identifiers(ctx, res):
    """C12"""
    res.rule('the getter of libId yields nickname:entry or entry (with unit and style numbers) for every combination of set and unset parts')
    res.rule('the getter composed with the setter is the identity on the assigned text, for every path through the setter (regular expressions are decomposed into groups)')
    res.rule('the setter sets every part on every path and renames the units')
    res.rule('texts of the form nickname:entry set the nickname, texts of the form entry_unit_style the numbers (inclusion of regular languages)')
    for c, p in owners(ctx):
        res.count('identifier properties')
        if not p or 'get' not in p or 'set' not in p:
            res.bad(f'PROP:{c.name}', f'{c.name}.libId cannot be read and assigned', f'{c.module.path}:{c.node.lineno} {c.name}')
            continue
        wg = f"{p['get'].module.path}:{p['get'].node.lineno} {c.name}.libId"
        ws = f"{p['set'].module.path}:{p['set'].node.lineno} {c.name}.libId (setter)"
        getter(ctx, res, c, p, wg)
        setter(ctx, res, c, p, ws)
