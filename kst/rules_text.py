"""C03, C04, C05 (null leaks), C14: rules on the token trees of the writers."""
import re
from . import program as P
from . import spec
from . import tree as T
from .logic import Logic
from .values import *
from .rules_lexer import num_follow, quoted_follow

CH = {'sp': ' ', 'nl': '\n', ')': ')', '(': '(', 't': 'x', 'q': '"'}


def param_value(ctx, k, ser, name):
    """Value passed for parameter `name` of k.to_sexpr in a nested call."""
    f = k.find_method('to_sexpr')
    ps = [a.arg for a in f.node.args.args][1:]
    kw = dict(ser[3])
    if name in kw:
        return kw[name]
    if name in ps:
        i = ps.index(name)
        if i < len(ser[2]):
            return ser[2][i]
        d = f.node.args.defaults
        j = i - (len(ps) - len(d))
        if j >= 0:
            import ast
            try:
                return const(ast.literal_eval(d[j]))
            except ValueError:
                return top('default')
    return None


class Firsts:
    """First characters of texts, with the conditions under which they occur."""
    def __init__(self, ctx, cls):
        self.ctx, self.cls, self.m = ctx, cls, ctx.model

    def first(self, items, after, loops=()):
        """[(class, conds, uncertain)]; '' when the text can be empty and after is None."""
        out = []
        cur = [((), False)]

        def emit(c, conds, unc):
            for cs, u in cur:
                out.append((c, cs + conds, u or unc))
        for it in items:
            if not cur:
                break
            k = it[0]
            if k == 'ws':
                c = 'nl' if it[1][0] in '\n\r' else 'sp'
                if it[2]:
                    # optional blank: depends on layout parameters
                    emit(c, (), False)
                    cur = [(cs, True) for cs, u in cur]
                else:
                    emit(c, (), False)
                    cur = []
            elif k == 'atom':
                emit('q' if it[2] else 't', (), False)
                if not it[2] and it[1] and all(p[0] == 'alt' and (not p[2] or not p[3]) for p in it[1]):
                    neg = tuple(mk_not(p[1]) if not p[3] else p[1] for p in it[1])
                    cur = [(cs + neg, u) for cs, u in cur]
                else:
                    cur = []
            elif k == 'node':
                emit('(', (), False)
                cur = []
            elif k == 'gate':
                nxt = []
                for cond, sub in ((it[1], it[2]), (mk_not(it[1]), it[3])):
                    for c, cs, u in self.first(sub, None, loops):
                        for cs0, u0 in cur:
                            if c == '':
                                nxt.append((cs0 + (cond,) + cs, u0 or u))
                            else:
                                out.append((c, cs0 + (cond,) + cs, u0 or u))
                cur = nxt
            elif k == 'loop':
                for c, cs, u in self.first(it[3], None, loops + (it[1],)):
                    if c != '':
                        emit(c, (('truthy', it[2]),), u or bool(cs))
                # an empty loop continues with what follows
            elif k == 'join':
                nxt = []
                for c, cs, u in self.first(it[2], None, loops):
                    if c != '':
                        emit(c, cs, u)
                    else:
                        nxt.extend((cs0 + cs, u0 or u) for cs0, u0 in cur)
                cur = nxt
            elif k == 'ser':
                r, empty = self.ser_first(it)
                for c, u in r:
                    emit(c, (), u)
                if empty is None:
                    cur = []
                else:
                    cur = [(cs + empty[0], u or empty[1]) for cs, u in cur]
            else:
                emit('?', (), True)
                cur = []
            if len(out) > 400:
                out = list(dict.fromkeys(out))[:400]
        if cur:
            if after is None:
                for cs, u in cur:
                    out.append(('', cs, u))
            else:
                for cs, u in cur:
                    for c, cs2, u2 in after:
                        out.append((c, cs + cs2, u or u2))
        return list(dict.fromkeys(out))

    def ser_first(self, it):
        ks = self.m.classes_of(it[1], self.cls)
        if not ks:
            return [('?', True)], None
        out, empty = [], None
        for k in ks:
            w = self.m.writer(k)
            if w.items is None:
                if not w.abstract:
                    out.append(('?', True))
                continue
            ind = param_value(self.ctx, k, it[2], 'indent')
            for c, cs, u in Firsts(self.ctx, k).first(w.items, None):
                if c == '':
                    n = self.m.nonempty(k, it[1])
                    if n == TRUE:
                        continue
                    empty = ((mk_not(n),) if n is not None else (), n is None or len(ks) > 1)
                    continue
                lead = w.items and w.items[0][0] == 'ws' and w.items[0][2]
                if lead and ind is not None and is_const(ind):
                    if ind[2] and c == '(':
                        continue
                    if not ind[2] and c == 'sp':
                        continue
                    out.append((c, bool(cs) and c != '('))
                elif lead and ind is not None and ind[0] == 'call' and ind[1] == 'add':
                    out.append(('sp', False))
                else:
                    out.append((c, u))
        return list(dict.fromkeys(out)), empty

    def atoms(self, items, after, gates=(), loops=(), injoin=False):
        """Yield (atom, follow list, gates, loops)."""
        for n, it in enumerate(items):
            k = it[0]
            if k not in ('atom', 'node', 'gate', 'loop', 'join'):
                continue
            if k == 'node':
                yield from self.atoms(it[1], [(')', (), False)], gates, loops)
                continue
            rest = self.first(items[n + 1:], after, loops)
            if k == 'atom':
                yield it, rest, gates, loops
            elif k == 'gate':
                yield from self.atoms(it[2], rest, gates + (it[1],), loops, injoin)
                yield from self.atoms(it[3], rest, gates + (mk_not(it[1]),), loops, injoin)
            elif k == 'loop':
                nxt = [] if injoin else [(c, (), u or bool(cs)) for c, cs, u in self.first(it[3], None, loops + (it[1],)) if c != '']
                yield from self.atoms(it[3], rest + nxt, gates + (('truthy', it[2]),), loops + ((it[1], it[2]),), False)
            elif k == 'join':
                sep = [('nl' if it[1] == '\n' else 'sp', (), False)]
                for i, sub in enumerate(it[2]):
                    yield from self.atoms((sub,), rest + sep, gates, loops, True)


def logic(ctx, c):
    if not hasattr(ctx, '_logics'):
        ctx._logics = {}
    if c not in ctx._logics:
        ctx._logics[c] = Logic(ctx.model, c, spec.DOMAINS, spec.RESERVED)
    return ctx._logics[c]


def feasible(ctx, c, conds, invariants=True):
    """True / False / None (contains undetermined conditions)."""
    L = logic(ctx, c)
    f = L.close(frozenset(spec.invariants(c, ctx.model) if invariants else ()))
    f = f if f is not None else frozenset()
    for x in conds:
        f = L.assume(f, x)
        if f is None:
            return False
    if not L.sat(f):
        return False
    if any(has_top(x) for x in f):
        return None
    return True


def writers(ctx):
    for c in ctx.model.item_classes():
        w = ctx.model.writer(c)
        if w.func is not None and not w.abstract and c.find_method('to_sexpr').cls is c:
            yield c, w


DEFINITE = ('missing closing parenthesis', 'unexpected closing parenthesis', 'unterminated quote')


def hole_types(ctx, c, pieces):
    out = []
    for p in pieces:
        if p[0] == 'hole':
            out.append(ctx.model.typeof(p[1], c))
        elif p[0] == 'alt':
            out.extend(hole_types(ctx, c, p[2]) + hole_types(ctx, c, p[3]))
    return out


def is_numeric(ctx, c, pieces):
    if len(pieces) == 1 and pieces[0][0] == 'alt':
        return is_numeric(ctx, c, pieces[0][2]) or is_numeric(ctx, c, pieces[0][3])
    if all(p[0] == 'lit' for p in pieces):
        return bool(re.fullmatch(r'-?\d+(\.\d+)?', ''.join(p[1] for p in pieces)))
    if len(pieces) != 1 or pieces[0][0] != 'hole':
        return False
    v = pieces[0][1]
    if v[0] == 'fmt':
        return str(v[2]).endswith(('f', 'g', 'd', 'e'))
    if v[0] == 'call' and v[1] in ('round', 'int', 'float'):
        return True
    ms = P.members(P.without_none(ctx.model.typeof(v, c)))
    return bool(ms) and all(m[0] in ('int', 'float') for m in ms)


def root_shapes(items):
    """Alternatives of the visible root items: [(conds, [kinds])]."""
    alts = [((), ())]
    for it in items:
        if it[0] == 'ws':
            continue
        if it[0] == 'gate':
            nxt = []
            for cond, sub in ((it[1], it[2]), (mk_not(it[1]), it[3])):
                for cs, ks in root_shapes(sub):
                    for cs0, ks0 in alts:
                        nxt.append((cs0 + (cond,) + cs, ks0 + ks))
            alts = nxt[:64]
        else:
            alts = [(cs, ks + (it[0],)) for cs, ks in alts]
    return alts


def balanced(ctx, res):
    """C03"""
    res.rule('every writer template parses as balanced token tree under every satisfiable combination of conditions')
    res.rule('the character class following every atom (first/follow sets over the token tree) separates it from its neighbour')
    nf, qf = num_follow(ctx), quoted_follow(ctx)
    for c, w in writers(ctx):
        where = ctx.where(c, 'to_sexpr')
        res.count('writers')
        if w.error is not None:
            if any(w.error.startswith(d) or d in w.error for d in DEFINITE):
                cs = getattr(w, 'error_conds', None) or ()
                if feasible(ctx, c, cs) is False:
                    res.unknown(f'{c.name}: {w.error}')
                else:
                    res.bad(f'BALANCE:{c.name}', f'{c.name}: {w.error}', where)
            else:
                res.unknown(f'{c.name}: {w.error}')
            continue
        if w.items is None:
            continue
        if T.has_unk(w.items):
            res.unknown(f'{c.name}: undetermined text')
        else:
            res.ok()
        if c.name not in spec.ROOTLESS:
            for cs, ks in root_shapes(w.items):
                if ks and ks != ('node',) and ks != ('ser',) and ks != ('unk',):
                    if feasible(ctx, c, cs):
                        res.bad(f'ROOT:{c.name}', f'{c.name}: the text is not a single expression ({" ".join(ks)})', where)
        F = Firsts(ctx, c)
        after = [('end', (), False)]
        for at, fol, gates, loops in F.atoms(tuple(w.items), after):
            res.count('atoms')
            ps, quoted = at[1], at[2]
            desc = T.showparts(ps)[:60]
            num = not quoted and is_numeric(ctx, c, ps)
            if not quoted:
                flat = [p for p in ps if not (p[0] == 'alt' and not p[2] and not p[3])]
                dyn = [p for p in flat if p[0] != 'lit']
                if dyn and len(flat) > 1 and not T.contains(tuple(ps), lambda x: x[0] in ('top', 'phi')):
                    if feasible(ctx, c, gates):
                        res.bad(f'MERGED:{c.name}:{desc}', f'{c.name}: values and words run together in {desc!r}', where)
                    continue
            ok = True
            seen = set()
            for cl, cs, unc in fol:
                if cl in ('end', '?') or (cl, cs) in seen:
                    continue
                seen.add((cl, cs))
                ch = CH[cl]
                if quoted:
                    bad = ch not in qf if qf is not None else cl in ('t', 'q', '(')
                elif num:
                    bad = cl in ('t', 'q') or (nf is not None and ch not in nf)
                    if cl == 'nl' and (c.name, desc.strip('{}').replace('self.', '')) in spec.NUMBER_BEFORE_NEWLINE:
                        bad = False
                else:
                    bad = cl in ('t', 'q')
                if not bad:
                    continue
                f = feasible(ctx, c, gates + cs)
                if f is False:
                    continue
                ok = False
                if f is None or unc:
                    res.unknown(f'{c.name}: what follows {desc}')
                    continue
                what = {'t': 'the next word', 'q': 'a quoted text', '(': 'an opening parenthesis', 'nl': 'a line break', 'sp': 'a blank'}[cl]
                res.bad(f'SEP:{c.name}:{desc}', f'{c.name}: {"number" if num else "text" if quoted else "word"} {desc} is directly followed by {what}'
                        + (f' when {" and ".join(show(x) for x in (gates + cs)[:3])}' if gates + cs else ''), where)
            if ok:
                res.ok()


def as_text(ctx, res):
    """A number directly followed by a line break is parsed as text: its reader has to convert it back."""
    res.rule('numbers that the parser returns as text, because of what follows them, are converted by the reader')
    nf = num_follow(ctx)
    for c, w in writers(ctx):
        for cn, f in sorted(spec.NUMBER_BEFORE_NEWLINE):
            if cn != c.name or w.items is None or nf is None or '\n' in nf:
                continue
            for at, fol, gates, loops in Firsts(ctx, c).atoms(tuple(w.items), [('end', (), False)]):
                if at[2] or T.showparts(at[1])[:60].strip('{}').replace('self.', '') != f or not any(x[0] == 'nl' for x in fol):
                    continue
                v = (ctx.model.reader(c).fields or {}).get(f)
                if v is None or has_top(v):
                    res.unknown(f'{c.name}.{f}: value read')
                elif contains(v, lambda x: x[0] == 'call' and x[1] in ('int', 'float')):
                    res.ok()
                else:
                    res.bad(f'NUMTEXT:{c.name}.{f}', f'{c.name}.{f}: the number is followed by a line break, so it comes back as text', ctx.where(c, 'from_sexpr'))


# ------------------------------------------------------------------ C04
def strip_calls(v):
    """(base value, number of escapings, other transformations)"""
    n, tr = 0, []
    while True:
        if v[0] == 'call' and v[1] == 'dequote' and v[2]:
            n += 1
            v = v[2][0]
        elif v[0] == 'call' and v[1] == 'str' and len(v[2]) == 1:
            v = v[2][0]
        elif v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'hole':
            v = v[1][0][1]
        elif v[0] == 'call' and v[1] in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title') and v[2]:
            tr.append(v[1])
            v = v[2][0]
        else:
            return v, n, tr


def owner_attr(ctx, c, v):
    """[(class name, attribute name)] the value comes from."""
    L = logic(ctx, c)
    while v[0] in ('elem', 'key', 'val', 'idx', 'slice', 'eidx') or v[0] == 'call' and v[1] in ('sorted', 'reversed', 'set', 'dedup', 'list', 'tuple', 'frozenset') and v[2]:
        if v[0] == 'call':
            v = v[2][0]
            continue
        v = v[2] if v[0] in ('elem', 'key', 'val', 'eidx') else v[1]
    if v[0] != 'attr':
        return []
    out = []
    for k in L.owner(v[1]):
        for b in k.mro():
            out.append((b.name, v[2]))
    return out


def text_kind(ctx, c, v):
    t = P.without_none(ctx.model.typeof(v, c))
    ks = {m[0] for m in P.members(t)}
    if ks and ks <= {'int', 'float', 'bool', 'none'}:
        return 'value'
    if 'str' in ks:
        return 'text'
    if ks & {'list', 'dict', 'inst', 'tuple'}:
        return 'object'
    return 'any'


def holes(pieces, conds=()):
    for p in pieces:
        if p[0] == 'hole':
            v = p[1]
            if v[0] == 'ite':
                yield from holes((('hole', v[2]),), conds + (v[1],))
                yield from holes((('hole', v[3]),), conds + (mk_not(v[1]),))
            else:
                yield v, conds
        elif p[0] == 'alt':
            yield from holes(p[2], conds + (p[1],))
            yield from holes(p[3], conds + (mk_not(p[1]),))
        elif p[0] == 'loop':
            yield from holes(p[3], conds + (('truthy', p[2]),))
        elif p[0] == 'join':
            for q in p[2]:
                if q[0] == 'item':
                    yield from holes(str_parts(q[1]), conds)
                elif q[0] == 'loop':
                    for r in q[3]:
                        if r[0] == 'item':
                            yield from holes(str_parts(r[1]), conds)


def all_atoms(items, gates=()):
    for it in items:
        if it[0] == 'atom':
            yield it, gates
        elif it[0] == 'node':
            yield from all_atoms(it[1], gates)
        elif it[0] == 'gate':
            yield from all_atoms(it[2], gates + (it[1],))
            yield from all_atoms(it[3], gates + (mk_not(it[1]),))
        elif it[0] == 'loop':
            yield from all_atoms(it[3], gates + (('truthy', it[2]),))
        elif it[0] == 'join':
            yield from all_atoms(it[2], gates)


OTHER_QUOTING = ('json.dumps', 'repr', 'ascii', 'html.escape', 'shlex.quote', 'urllib.parse.quote', 'quote', 'escape', 're.escape')


def quoting(ctx, res):
    """C04"""
    res.rule('every text-valued hole of every writer template is inside quotes and passes the escaping helper exactly once; '
             'attributes restricted to keywords, identifiers or encoded data are listed in the tables')
    for c, w in writers(ctx):
        where = ctx.where(c, 'to_sexpr')
        if w.items is None:
            continue
        res.count('writers')
        for at, gates in all_atoms(w.items):
            for v, conds in holes(at[1]):
                base, n, tr = strip_calls(v)
                if base[0] == 'const':
                    continue
                if has_top(base):
                    res.unknown(f'{c.name}: {show(v)[:60]}')
                    continue
                if base[0] == 'call' and base[1].lstrip('.') in OTHER_QUOTING and base[2] and text_kind(ctx, c, strip_calls(base[2][0])[0]) == 'text':
                    if feasible(ctx, c, gates + conds) is not False:
                        res.bad(f'OTHERQUOTE:{c.name}:{show(base)[:40]}', f'{c.name}: {show(base)[:60]} quotes the text by other rules than the parser undoes', where)
                    continue
                if base[0] == 'fmt' or (base[0] == 'call' and base[1] in ('len', 'round', 'int', 'float', 'hex')):
                    continue
                nested = [x for x in walk(base) if x[0] == 'call' and x[1] == 'dequote']
                k = text_kind(ctx, c, base)
                if k == 'value' and not nested:
                    continue
                res.count('text holes')
                oa = owner_attr(ctx, c, base)
                name = f'{oa[0][0]}.{oa[0][1]}' if oa else show(base)[:50]
                feas = None

                def ok():
                    return feasible(ctx, c, gates + conds) is not False
                if n + len(nested) > 1 and not (nested and base[0] == 'str'):
                    if ok():
                        res.bad(f'ESCTWICE:{c.name}:{name}', f'{c.name}: {name} is escaped more than once', where)
                    continue
                if nested and n:
                    if ok():
                        res.bad(f'ESCTWICE:{c.name}:{name}', f'{c.name}: {name} is escaped more than once', where)
                    continue
                if at[2]:
                    if n == 0 and not nested:
                        if any(x in spec.UNESCAPED for x in oa):
                            res.ok()
                        elif k == 'any':
                            res.unknown(f'{c.name}: {name} is written without escaping, type unknown')
                        elif k == 'object':
                            continue
                        elif ok():
                            res.bad(f'UNESCAPED:{c.name}:{name}', f'{c.name}: text {name} is written in quotes but not escaped', where)
                    else:
                        res.ok()
                    continue
                if any(x in spec.UNQUOTED for x in oa) or tr and k != 'text':
                    res.ok()
                    continue
                if base[0] in ('call',) and not oa:
                    ms = [y for y in walk(base) if y[0] == 'attr']
                    if ms and all(text_kind(ctx, c, y) == 'value' for y in ms):
                        res.ok()
                        continue
                if k == 'any' or k == 'object':
                    res.unknown(f'{c.name}: {name} is written without quotes, type unknown')
                elif ok():
                    res.bad(f'UNQUOTED:{c.name}:{name}', f'{c.name}: text {name} is written without quotes', where)
