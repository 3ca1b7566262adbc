"""C15: create functions."""
import ast
import re
from . import program as P
from . import spec
from . import tree as T
from .absint import Interp, State, Inst
from .rules_ids import joined, matcher
from .rules_text import writers, DEFINITE
from .values import *

# Where the argument of a create function has to end up:
# ('libId',) | (attribute, ...) | (list attribute, (selecting attribute, word), attribute)
ROLES = {
    ('Footprint', 'library_id'): ('libId',),
    ('Footprint', 'value'): ('graphicItems', ('type', 'value'), 'text'),
    ('Footprint', 'reference'): ('graphicItems', ('type', 'reference'), 'text'),
    ('Footprint', 'type'): ('attributes', 'type'),
    ('Symbol', 'id'): ('libId',),
    ('Symbol', 'reference'): ('properties', ('key', 'Reference'), 'value'),
    ('Symbol', 'value'): ('properties', ('key', 'Value'), 'value'),
    ('Symbol', 'footprint'): ('properties', ('key', 'Footprint'), 'value'),
    ('Symbol', 'datasheet'): ('properties', ('key', 'Datasheet'), 'value'),
    ('LibTable', 'type'): ('type',),
}
# Documented values of arguments that are keywords, and what they stand for.
WORDS = {
    ('Footprint', 'type'): {'smd': 'smd', 'through_hole': 'through_hole', 'other': None},
    ('LibTable', 'type'): {'sym_lib_table': 'sym_lib_table', 'fp_lib_table': 'fp_lib_table'},
}
# Formats with a version of their own instead of the library's.
OWN_VERSION = {'DesignRules': 1}


def creators(ctx):
    for c in ctx.prog.all_classes():
        seen = set()
        for k in c.mro():
            for n in getattr(k, 'methods', {}):
                f = c.find_method(n)
                if f is not None and n not in seen and (n == 'create_new' or n.startswith('create')) and f.kind in ('classmethod', 'staticmethod'):
                    seen.add(n)
                    yield c, f


def arg_defaults(ctx, f):
    a = f.node.args
    ps = a.posonlyargs + a.args
    out = {}
    for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        try:
            out[p.arg] = const(ast.literal_eval(d))
        except ValueError:
            pass
    return out


def leaf_values(v, facts=()):
    fs = expand_facts(tuple(facts))
    if v[0] == 'ite':
        for cond, x in ((v[1], v[2]), (mk_not(v[1]), v[3])):
            if simp(cond, fs) != FALSE:
                yield from leaf_values(x, tuple(facts) + tuple(conjuncts(cond)))
    else:
        yield v, fs


def conforms(ctx, v, t, ptypes):
    """True / False / None."""
    ms = P.members(t)
    kinds = {m[0] for m in ms}
    if v == NONE:
        return 'none' in kinds
    if is_const(v):
        k = type(v[2]).__name__
        if k in kinds or (k == 'int' and 'float' in kinds):
            return True
        return None if 'top' in kinds or 'any' in kinds or not kinds else False
    if v[0] == 'str':
        return 'str' in kinds or None
    if v[0] == 'obj':
        insts = [m[1] for m in ms if m[0] == 'inst']
        if not insts:
            return None if kinds - {'none', 'str', 'int', 'float', 'bool', 'list', 'dict'} else False
        return any(k in v[1].mro() for k in insts)
    if v[0] == 'seq':
        return True if 'list' in kinds or 'tuple' in kinds else (None if not kinds else False)
    if v[0] == 'map':
        return True if 'dict' in kinds else (None if not kinds else False)
    return None


def check_value(ctx, res, owner, fname, v, where, path, depth=0):
    """Every value reachable from the new item is admissible for its attribute."""
    t = ctx.prog.field_type(owner, fname)
    for x, facts in leaf_values(v):
        if x[0] == 'parse' or x[0] == 'ref' or has_top(x) and x[0] != 'obj':
            res.unknown(f'{path}: {show(x)[:60]}')
            continue
        if x == NONE and ctx.model.default(owner, fname) == NONE:
            res.ok()                     # as unset as in a new object; the writers' handling is decided by C05 and below
            continue
        r = conforms(ctx, x, t, {})
        if r is False:
            res.bad(f'TYPE:{path}', f'{path} is {show(x)[:40]}, which its declared type does not allow', where)
            continue
        dom = spec.DOMAINS.get((owner.name, fname))
        if dom is not None and is_strconst(x) and x[2] not in dom:
            res.bad(f'WORD:{path}', f'{path} is {x[2]!r}, which is none of {", ".join(dom)}', where)
            continue
        if r:
            res.ok()
        if x[0] == 'obj' and depth < 6:
            for n, y in x[2]:
                if x[1].field(n) is not None:
                    check_value(ctx, res, x[1], n, y, where, f'{path}.{n}', depth + 1)
        elif x[0] == 'seq' and depth < 6:
            ets = [m[1] for m in P.members(t) if m[0] == 'list' and len(m) > 1]
            for i, p in enumerate(x[2]):
                if p[0] == 'item':
                    for y, _ in leaf_values(p[1]):
                        if ets and conforms(ctx, y, P.union(ets), {}) is False and not all(e[0] in ('top', 'any') for e in ets):
                            res.bad(f'TYPE:{path}[]', f'an element of {path} is {show(y)[:40]}, which its declared type does not allow', where)
                        if y[0] == 'obj':
                            for n, z in y[2]:
                                if y[1].field(n) is not None:
                                    check_value(ctx, res, y[1], n, z, where, f'{path}[{i}].{n}', depth + 1)


def text_literals(parts):
    for p in parts:
        if p[0] == 'lit':
            yield p[1]
        elif p[0] == 'alt':
            yield from text_literals(p[2])
            yield from text_literals(p[3])
        elif p[0] == 'loop':
            yield from text_literals(p[3])
        elif p[0] == 'hole' and p[1][0] == 'str':
            yield from text_literals(p[1][1])
        elif p[0] == 'hole' and p[1][0] == 'ite':
            yield from text_literals(str_parts(p[1][2]))
            yield from text_literals(str_parts(p[1][3]))
        elif p[0] == 'hole' and is_const(p[1]):
            yield str(p[1][2])


def null_holes(parts):
    """Null values handed to the text."""
    def bad(x):
        return x[0] == 'hole' and (x[1] == NONE or x[1][0] == 'call' and x[1][1] in ('dequote', 'str', 'repr') and NONE in x[1][2])
    return contains(tuple(parts), bad)


class Open(Exception):
    """A condition that neither arguments nor choices decide."""


def worlds(items, trial):
    """Parsed forms under every choice for the open conditions (bounded)."""
    todo, n = [()], 0
    while todo and n < 64:
        ch = todo.pop()
        n += 1
        try:
            yield expressions(items, trial, frozenset(ch))
        except Open as e:
            c = e.args[0]
            for x in (c, mk_not(c)):
                if simp(x, expand_facts(ch)) != FALSE:
                    todo.append(ch + tuple(conjuncts(x)))


def expressions(items, trial, facts):
    """The parsed form of a token tree: a list value, unknown texts kept symbolic."""
    sub = lambda x: trial.get(x[1]) if len(x) == 2 and x[0] == 'param' and isinstance(x[1], str) else None
    out = []
    for it in items:
        k = it[0]
        if k == 'node':
            out.append(('item', ('seq', 'list', tuple(expressions(it[1], trial, facts)))))
        elif k == 'gate':
            c = simp(simp(subst(it[1], sub), frozenset()), facts)
            if c == TRUE:
                out.extend(expressions(it[2], trial, facts))
            elif c == FALSE:
                out.extend(expressions(it[3], trial, facts))
            else:
                raise Open(c)
        elif k == 'atom':
            ps = []
            for p in it[1]:
                v = None
                if p[0] == 'lit':
                    v = p[1]
                elif p[0] == 'hole':
                    h = simp_val(subst(p[1], sub), frozenset())
                    while h[0] == 'call' and h[1] in ('dequote', 'str') and len(h[2]) == 1:
                        h = h[2][0]
                    v = str(h[2]) if is_const(h) else None
                ps.append(v)
            if None in ps:
                out.append(('item', ('param', '$text')))
            else:
                t = ''.join(ps)
                if not it[2] and t == '':
                    continue
                v = const(t)
                if not it[2]:
                    if re.fullmatch(r'[-+]?\d+', t):
                        v = const(int(t))
                    elif re.fullmatch(r'[-+]?\d+\.\d*', t):
                        v = const(float(t))
                out.append(('item', v))
        elif k == 'ws':
            continue
        else:
            out.append(('spread', ('top', k)))
    return out


def loadable(ctx, c, x, depth=0):
    """None, or why loading the expression fails for sure."""
    f = c.find_method('from_sexpr')
    if f is None or depth > 8:
        return None
    I = Interp(ctx.prog)
    I.param_types = {'$text': ('str',)}
    v, s2 = I.run(f, [('cls', c), x] if f.kind == 'classmethod' else [x])
    for e in I.raises:
        if simp(e.pc, frozenset()) == TRUE:
            return f'{c.name}.from_sexpr raises at {e.where()}'
    if s2 is None:
        return f'{c.name}.from_sexpr raises'
    short = short_access(I.resolve(v, s2))
    if short:
        return f'{c.name}.from_sexpr takes element {short[2][2]} of {show(short[1])[:60]}'
    for e in I.events:
        if e.kind == 'parse' and simp(e.pc, frozenset()) == TRUE:
            r = loadable(ctx, e.data[0], e.data[1], depth + 1)
            if r:
                return r
    return None


def fields_of(x):
    return dict(x[2])


def find(obj, role):
    """(value, facts) alternatives reached by a role; None as value when there is no such place."""
    cur = [(obj, ())]
    for step in role:
        nxt = []
        for v, fs in cur:
            if isinstance(step, str):
                if v[0] == 'obj':
                    for y, f2 in leaf_values(fields_of(v).get(step, ('top', 'attribute')), fs):
                        nxt.append((y, tuple(f2)))
                elif v[0] == 'seq':
                    nxt.append((('top', 'list'), fs))
                else:
                    nxt.append((('top', 'item'), fs))
            else:
                if v[0] != 'seq':
                    nxt.append((('top', 'list'), fs))
                    continue
                hits, open_ = [], False
                for p in v[2]:
                    if p[0] != 'item' or p[1][0] != 'obj':
                        open_ = True
                        continue
                    sel = fields_of(p[1]).get(step[0])
                    if sel == const(step[1]):
                        hits.append(p[1])
                    elif sel is None or not is_const(sel):
                        open_ = True
                if len(hits) == 1:
                    nxt.append((hits[0], fs))
                elif open_:
                    nxt.append((('top', 'elements'), fs))
                else:
                    nxt.append((None, fs) if not hits else (('dup',), fs))
        cur = [(v, f) for v, f in nxt if v is not None and v != ('dup',)]
        bad = [v for v, f in nxt if v is None or v == ('dup',)]
        if bad:
            return bad[0], None
    return None, cur


def constant(ctx, name):
    for m in ctx.prog.modules.values():
        r = ctx.prog.lookup(m, name)
        if r is not None and r[0] == 'expr':
            I = Interp(ctx.prog)
            v = I.module_const(r[1], r[2], name)
            if is_const(v):
                return v
    return None


def creation(ctx, res):
    """C15"""
    res.rule('create functions raise for no documented argument value')
    res.rule('every value reachable from a created item conforms to the declared type and vocabulary of its attribute, so that C02 applies to it')
    res.rule('the writer, interpreted on the created item, neither raises nor yields an unbalanced text or a null word')
    res.rule('version and generator are the library constants and every argument reaches the attribute it stands for')
    vc, gc = constant(ctx, 'KIUTILS_CREATE_NEW_VERSION_STR'), constant(ctx, 'KIUTILS_CREATE_NEW_GENERATOR_STR')
    if vc is None or not re.fullmatch(r'20\d{6}', str(vc[2])):
        if vc is not None:
            res.bad('CONST:version', f'the version constant {vc[2]!r} is no KiCad format version', 'kiutils/misc/config.py')
        else:
            res.unknown('version constant')
    if gc is None or not re.fullmatch(r'[A-Za-z][A-Za-z0-9_.-]*', str(gc[2])):
        if gc is not None:
            res.bad('CONST:generator', f'the generator constant {gc[2]!r} is not one word', 'kiutils/misc/config.py')
        else:
            res.unknown('generator constant')
    for c, f in creators(ctx):
        res.count('create functions')
        name = f'{c.name}.{f.node.name}'
        where = f'{f.module.path}:{f.node.lineno} {name}'
        I = Interp(ctx.prog, virtual_props=False)
        I.param_types = {}
        a = f.node.args
        ps = [p for p in a.posonlyargs + a.args][1 if f.kind == 'classmethod' else 0:]
        for p in ps + a.kwonlyargs:
            if p.annotation is not None:
                try:
                    I.param_types[p.arg] = ctx.prog.ann_type(f.module, p.annotation)
                except Exception:
                    pass
        st = State({}, {}, ())
        args = ([('cls', c)] if f.kind == 'classmethod' else []) + [('param', p.arg) for p in ps]
        ref, s2 = I.call(f, args, {p.arg: ('param', p.arg) for p in a.kwonlyargs}, st, None)
        if s2 is None:
            res.bad(f'RAISE:{name}', f'{name} always raises', where)
            continue
        # documented arguments must not raise
        defaults = arg_defaults(ctx, f)
        pn = [p.arg for p in ps + a.kwonlyargs]
        trials = [{k: defaults[k] for k in defaults if k in pn}]
        for p in pn:
            for w in WORDS.get((c.name, p), {}):
                trials.append(dict(trials[0], **{p: const(w)}))
        creates = list(I.raises)
        for e in creates:
            for tr in trials:
                pc = subst(e.pc, lambda x: tr.get(x[1]) if len(x) == 2 and x[0] == 'param' and isinstance(x[1], str) else None)
                pc = simp(pc, frozenset())
                if pc == FALSE or has_top(pc):
                    continue
                if pc == TRUE or not contains(pc, lambda x: x[0] in ('top', 'phi')):
                    res.bad(f'RAISE:{name}', f'{name} raises for {", ".join(f"{k}={show(v)}" for k, v in tr.items()) or "its arguments"}: {show(pc)[:80]}', e.where())
        obj = I.resolve(ref, s2)
        pre = frozenset(expand_facts(s2.pc))
        obj = simp_val(obj, pre)
        if obj[0] != 'obj':
            alts = [x for x, _ in leaf_values(obj)]
            if any(is_const(x) for x in alts):
                res.bad(f'RESULT:{name}', f'{name} does not return an item: {show(obj)[:60]}', where)
            else:
                res.unknown(f'{name}: {show(obj)[:80]}')
            continue
        if obj[1] is not c and c not in obj[1].mro():
            res.bad(f'RESULT:{name}', f'{name} returns a {obj[1].name}', where)
            continue
        fl = fields_of(obj)
        # identification
        if c.field('version') is not None:
            want = const(OWN_VERSION[c.name]) if c.name in OWN_VERSION else vc
            v = fl.get('version')
            if has_top(v) or want is None:
                res.unknown(f'{name}: version')
            elif not is_const(v) or str(v[2]) != str(want[2]):
                res.bad(f'VERSION:{name}', f'{name} sets version to {show(v)[:40]} instead of {want[2]!r}', where)
            else:
                res.ok()
        if c.field('generator') is not None:
            v = fl.get('generator')
            if has_top(v) or gc is None:
                res.unknown(f'{name}: generator')
            elif v != gc:
                res.bad(f'GENERATOR:{name}', f'{name} sets generator to {show(v)[:40]} instead of {gc[2]!r}', where)
            else:
                res.ok()
        # admissible values
        for n, v in obj[2]:
            if c.field(n) is not None:
                check_value(ctx, res, c, n, v, where, f'{c.name}.{n}')
        # arguments
        for p in pn:
            arg = ('param', p)
            role = ROLES.get((c.name, p))
            if role is None:
                if contains(obj, lambda x: x == arg):
                    res.ok()
                else:
                    res.bad(f'ARG:{name}:{p}', f'{name} does not store its argument {p}', where)
                continue
            if role == ('libId',):
                pr = c.find_prop('libId')
                if pr is None:
                    res.unknown(f'{name}: {p}')
                    continue
                v, s3 = I.call(pr['get'], [ref], {}, s2, None)
                if s3 is None:
                    res.bad(f'ARG:{name}:{p}', f'{c.name}.libId of a new item raises', where)
                    continue
                joined(res, c, I.resolve(v, s3), arg, where, matcher(), f'ARG:{p}:')
                continue
            miss, alts = find(obj, role)
            if alts is None:
                res.bad(f'ARG:{name}:{p}', f'{name}: the place of argument {p} ({role[0]}) ' + ('does not exist' if miss is None else 'exists more than once'), where)
                continue
            words = WORDS.get((c.name, p))
            for v, fs in alts:
                if has_top(v) or any(has_top(x) for x in fs):
                    res.unknown(f'{name}: {p}')
                    continue
                if words:
                    for w, m in words.items():
                        sub = lambda x: const(w) if x == arg else None
                        conds = [simp(subst(x, sub), frozenset()) for x in fs]
                        if FALSE in conds:
                            continue
                        got = subst(v, sub)
                        if got != const(m):
                            res.bad(f'ARG:{name}:{p}', f'{name}({p}={w!r}) stores {show(got)[:40]} instead of {m!r}', where)
                        else:
                            res.ok()
                elif v == arg or v == ('call', 'str', (arg,), ()) or v == ('str', (('hole', arg),)):
                    res.ok()
                else:
                    # a value that was tested to be the argument
                    if mk_eq(arg, v) in fs:
                        res.ok()
                    else:
                        res.bad(f'ARG:{name}:{p}', f'{name} stores {show(v)[:40]} instead of its argument {p}', where)
        # the text
        nr = len(I.raises)
        wf = c.find_method('to_sexpr')
        if wf is None:
            continue
        I.inline_ser = True
        t, s3 = I.call(wf, [ref], {}, s2, None)
        if s3 is None:
            res.bad(f'SAVE:{name}', f'saving what {name} returns always raises', where)
            continue
        for e in I.raises[nr:]:
            if not has_top(e.pc) and simp(e.pc, pre) != FALSE:
                res.bad(f'SAVE:{name}', f'saving what {name} returns can raise: {show(e.pc)[:80]}', e.where())
        tv = I.resolve(t, s3)
        parts = str_parts(tv)
        txt = '\0'.join(text_literals(parts))
        m = re.search(r'(?<![\w."])(None|True|False)(?![\w"])', txt)
        if m:
            res.bad(f'NULL:{name}', f'saving what {name} returns writes {txt[max(0, m.start() - 25):m.end()]!r}', where)
        elif null_holes(parts):
            res.bad(f'NULL:{name}', f'saving what {name} returns writes a null value', where)
        else:
            res.ok()
        T.Unbalanced.unknown = False
        try:
            items = T.strip_ws(T.parse_top(parts))
            res.ok()
            for tr in trials:
                for xs in worlds(items, tr):
                    x = xs[0][1] if len(xs) == 1 and c.name not in spec.ROOTLESS else ('seq', 'list', tuple(xs))
                    r = loadable(ctx, c, x)
                    if r:
                        res.bad(f'LOAD:{name}', f'what {name} returns cannot be loaded after saving: {r}', where)
                    else:
                        res.ok()
                        res.count('texts loaded back')
        except T.Unbalanced as e:
            if any(d in e.msg for d in DEFINITE):
                res.bad(f'TEXT:{name}', f'saving what {name} returns: {e.msg}', where)
            else:
                res.unknown(f'{name}: {e.msg}')


def short_access(v):
    """An element access beyond the end of a list that is known completely."""
    for x in walk(v):
        if x[0] == 'idx' and is_const(x[2]) and isinstance(x[2][2], int) and x[1][0] == 'seq' and all(p[0] == 'item' for p in x[1][2]):
            n = len(x[1][2])
            if not -n <= x[2][2] < n:
                return x
    return None


def fresh(ctx, res):
    """C02, C05: items with their declared defaults."""
    res.rule('the declared default of every attribute conforms to its type and vocabulary')
    res.rule('an item holding its declared defaults is written as text that its reader loads')
    for c in ctx.model.item_classes():
        rf, wf = ctx.model.reader(c), ctx.model.writer(c)
        name = c.name
        where = ctx.where(c, 'to_sexpr')
        I = Interp(ctx.prog, virtual_props=False)
        I.param_types = {}
        st = State({}, {}, ())
        ref = I.construct(c, [], {}, st, None)
        if FALSE in st.pc:
            res.unknown(f'{name}: constructor')
            continue
        obj = I.resolve(ref, st)
        if obj[0] != 'obj':
            res.unknown(f'{name}: constructor')
            continue
        res.count('default items')
        for n, y in obj[2]:
            f = c.field(n)
            if f is None:
                continue
            check_value(ctx, res, c, n, y, where, f'{name}.{n}')
            declared = ctx.prog.ann_type(f.cls.module, f.ann)
            if ('none',) in P.members(declared) and y != NONE and not has_top(y) and (c.name, n) not in spec.SET_BY_DEFAULT and y != const(''):
                res.bad(f'DEFAULT:{name}.{n}', f'the optional {name}.{n} is set to {show(y)[:40]} unless told otherwise', where)
        if wf.abstract or rf.abstract or wf.func is None or rf.func is None:
            continue
        nr = len(I.raises)
        I.inline_ser = True
        t, s3 = I.call(wf.func, [ref], {}, st, None)
        if s3 is None:
            if not spec.unsavable(c):
                res.bad(f'FRESH:{name}', f'saving a new {name} always raises', where)
            continue
        T.Unbalanced.unknown = False
        try:
            items = T.strip_ws(T.parse_top(str_parts(I.resolve(t, s3))))
        except T.Unbalanced as e:
            res.unknown(f'{name}: {e.msg}')
            continue
        for xs in worlds(items, {}):
            if len(xs) != 1 and c.name not in spec.ROOTLESS:
                if xs:
                    res.unknown(f'{name}: text of a new item')
                continue
            x = xs[0][1] if c.name not in spec.ROOTLESS else ('seq', 'list', tuple(xs))
            r = loadable(ctx, c, x)
            if r:
                res.bad(f'FRESH:{name}', f'a new {name} cannot be loaded after saving: {r}', where)
            else:
                res.ok()
                res.count('texts of default items')
