"""Rules on the readers alone: which expressions they accept, what absent, unknown and reordered children do,
and to which item type each recognised child is handed."""
import itertools
from . import program as P
from .values import *
from . import spec
from .compare import Comparer
from .roundtrip import Composer
from .budget import limit

SELF = ('param', 'self')


def lit(s, quoted=False):
    return ('atom', (('lit', s),), quoted)


# children no version of the format has
UNKNOWN = (('node', (lit('zzz_a'),)),
           ('node', (lit('zzz_b'), lit('1'), lit('2.5'))),
           ('node', (lit('zzz_c'), lit('t', True), ('node', (lit('zzz_d'), lit('e'))))))


# ------------------------------------------------------------------ writer trees
def root_nodes(items):
    for it in items:
        if it[0] == 'node':
            yield it
        elif it[0] == 'gate':
            yield from root_nodes(it[2])
            yield from root_nodes(it[3])
        elif it[0] == 'loop':
            yield from root_nodes(it[3])


def head_of(node):
    """Leading word of a node, or None when it is not a fixed word."""
    h = node[1][0] if node[1] else None
    if h and h[0] == 'atom' and all(p[0] == 'lit' for p in h[1]):
        return ''.join(p[1] for p in h[1])
    return None


def spellings(pieces):
    """The fixed words a piece of text can be, or an empty set."""
    out = {''}
    for p in pieces:
        if p[0] == 'lit':
            more = {p[1]}
        elif p[0] == 'alt':
            more = spellings(p[2]) | spellings(p[3])
        else:
            return set()
        out = {a + b for a in out for b in more}
        if len(out) > 32:
            return set()
    return out


def heads(model, c):
    """Leading words of what the class writes (keyword attributes expanded to their vocabulary)."""
    w = model.writer(c)
    out = set()
    for n in root_nodes(w.tree or ()):
        h = head_of(n)
        if h is not None:
            out.add(h)
        elif n[1] and n[1][0][0] == 'atom' and spellings(n[1][0][1]):
            out |= spellings(n[1][0][1])
        elif n[1] and n[1][0][0] == 'atom' and len(n[1][0][1]) == 1 and n[1][0][1][0][0] == 'hole':
            v = n[1][0][1][0][1]
            if v[0] == 'attr' and v[1] == SELF:
                for k in c.mro():
                    out |= set(spec.DOMAINS.get((k.name, v[2]), ()))
    return out


def atomic(it):
    if it[0] == 'atom':
        return True
    if it[0] == 'gate':
        return all(atomic(x) for x in it[2] + it[3])
    if it[0] == 'loop':
        return all(atomic(x) for x in it[3])
    return False


def has_node(it):
    if it[0] in ('node', 'ser'):
        return True
    if it[0] == 'gate':
        return any(has_node(x) for x in it[2] + it[3])
    if it[0] == 'loop':
        return any(has_node(x) for x in it[3])
    return False


def map_roots(items, fn):
    out = []
    for it in items:
        if it[0] == 'node':
            out.append(fn(it))
        elif it[0] == 'gate':
            out.append(('gate', it[1], map_roots(it[2], fn), map_roots(it[3], fn)))
        elif it[0] == 'loop':
            out.append(('loop', it[1], it[2], map_roots(it[3], fn)))
        else:
            out.append(it)
    return tuple(out)


def split(node):
    ch = list(node[1])
    i = 0
    while i < len(ch) and atomic(ch[i]):
        i += 1
    return ch[:i], ch[i:]


def with_unknown(node):
    pre, post = split(node)
    out = pre + list(UNKNOWN)
    for x in post:
        out.append(x)
        out.extend(UNKNOWN)
    return ('node', tuple(out))


def with_unknown_inside(it, depth=0):
    if it[0] == 'node':
        ch = [with_unknown_inside(x, depth + 1) for x in it[1]]
        if depth and any(has_node(x) for x in it[1]):
            ch += list(UNKNOWN)
        return ('node', tuple(ch))
    if it[0] == 'gate':
        return ('gate', it[1], tuple(with_unknown_inside(x, depth) for x in it[2]), tuple(with_unknown_inside(x, depth) for x in it[3]))
    if it[0] == 'loop':
        return ('loop', it[1], it[2], tuple(with_unknown_inside(x, depth) for x in it[3]))
    return it


def tested_words(v, exact=True):
    """Words the reader compares something with."""
    out = set()
    for x in walk(v):
        if x[0] in ('eq', 'in', 'call') and len(x) > 2:
            for y in walk(x[1:] if x[0] != 'call' else x[2]):
                if y[0] == 'const' and isinstance(y[2], str) and y[2] and y[2].isprintable():
                    out.add(y[2])
                if y[0] == 'seq':
                    out |= {p[1][2] for p in y[2] if p[0] == 'item' and is_const(p[1]) and isinstance(p[1][2], str) and p[1][2]}
    return out


def near_words(r):
    """Words that are not tested for but resemble tested ones."""
    ws = set()
    for e in r.events or ():
        ws |= tested_words(e.pc)
    for x in (r.fields or {}).values():
        ws |= tested_words(x)
    out = set()
    for w in ws:
        out |= {w + 'z', 'z' + w, w[:-1], w.upper()}
    return sorted(x for x in out - ws if x and not x.replace('.', '').replace('-', '').isdigit())


def with_near(r):
    def fn(node):
        pre, post = split(node)
        new = tuple(('node', (lit(w), lit('1'), lit('2'), lit('3'))) for w in near_words(r))
        return ('node', tuple(pre) + new + tuple(post) + new)
    return fn


def written_words(m, c, items):
    """Fixed words of the text a class writes, nested items included by their leading tokens."""
    out = set()
    for it in items:
        if it[0] == 'node':
            out |= written_words(m, c, it[1])
        elif it[0] == 'atom':
            out |= spellings(it[1])
        elif it[0] == 'gate':
            out |= written_words(m, c, it[2]) | written_words(m, c, it[3])
        elif it[0] == 'loop':
            out |= written_words(m, c, it[3])
        elif it[0] == 'ser':
            for k in m.classes_of(it[1], c) or ():
                out |= heads(m, k) | set(spec.LEGACY_HEADS.get(k.name, ()))
    return out


def headless(items):
    """Text of unknown content stands where the expressions of a class do."""
    return any(x[0] == 'unk' or x[0] == 'gate' and (headless(x[2]) or headless(x[3])) or x[0] == 'loop' and headless(x[3]) for x in items)


def vague(items):
    """Some value that is written is not known."""
    return any(x[0] == 'atom' and any(has_top(p) for p in x[1]) or x[0] == 'node' and vague(x[1]) or x[0] == 'gate' and (vague(x[2]) or vague(x[3]))
               or x[0] == 'loop' and vague(x[3]) for x in items)


def undetermined(m, c, items):
    """Some of the text of a class is not known."""
    for it in items:
        if it[0] == 'unk' or it[0] == 'ser' and not m.classes_of(it[1], c):
            return True
        if it[0] == 'ser' and any((m.writer(k).tree is None or headless(m.writer(k).tree)) and not m.writer(k).abstract for k in m.classes_of(it[1], c)):
            return True
        if it[0] == 'node' and undetermined(m, c, it[1]) or it[0] == 'gate' and (undetermined(m, c, it[2]) or undetermined(m, c, it[3])) \
                or it[0] == 'loop' and undetermined(m, c, it[3]):
            return True
    return False


def unwritten_words(m, c, r, w):
    """Words the reader reacts to although its writer never produces them."""
    if undetermined(m, c, w.tree):
        return []
    ws = set()
    for e in list(r.events or ()) + list(r.raises):
        ws |= tested_words(e.pc)
    for x in (r.fields or {}).values():
        ws |= tested_words(x)
    for f in c.fields():
        for k in c.mro():
            ws -= set(spec.DOMAINS.get((k.name, f), ()))
    ws -= written_words(m, c, w.tree) | heads(m, c) | set(spec.LEGACY_HEADS.get(c.name, ())) | set(spec.OLDER_TOKENS.get(c.name, ()))
    return sorted(ws)


def with_words(words):
    def fn(node):
        pre, post = split(node)
        new = tuple(('node', (lit(w),) + n) for w in words for n in ((lit('7'),), (lit('7'), lit('8'), lit('9'))))
        return ('node', tuple(pre) + new + tuple(post) + new)
    return fn


def with_bare(words):
    def fn(node):
        return ('node', node[1] + tuple(('node', (lit(w),)) for w in words))
    return fn


def with_word(node):
    return ('node', node[1] + (lit('zzz_w'),))


def reverse(node):
    pre, post = split(node)
    return ('node', tuple(pre + post[::-1]))


def rotate(node):
    pre, post = split(node)
    return ('node', tuple(pre + post[1:] + post[:1]))


# ------------------------------------------------------------------ C07
def rejected(model, c, r, b):
    """Condition under which the reader raises on b."""
    cm = Composer(model, c)
    env = {'exp': b, '$steps': r.steps}
    cs = []
    for e in r.raises:
        x = simp(cm.ev(e.pc, env, frozenset()), frozenset())
        if x[0] == 'truthy' and x[1][0] == 'crash':
            x = TRUE
        cs.append(x)
        if x == TRUE:
            break
    return mk_or(cs)


def surely(c):
    """TRUE as soon as an exception is certain: evaluating the condition itself fails."""
    if c == TRUE:
        return True
    if c[0] in ('truthy', 'not') and contains(c, lambda x: x[0] == 'crash'):
        return True
    if c[0] == 'or':
        return any(surely(x) for x in c[1])
    return False


def words_of(r):
    out = set()
    for e in r.raises:
        for x in walk(e.pc):
            if x[0] == 'const' and isinstance(x[2], str):
                out.add(x[2])
    return out


def ownership(ctx, res):
    """Foreign leading tokens and non-lists are rejected by every reader."""
    res.rule('a reader raises on everything that is not a list and on every list whose leading token is not its own')
    m = ctx.model
    foreign = set()
    for c in m.item_classes():
        foreign |= heads(m, c)
    for c in m.item_classes():
        r = m.reader(c)
        if r.abstract:
            continue
        if r.value is None:
            res.unknown(f'{c.name}: reader not summarised')
            continue
        res.count('readers')
        where = ctx.where(c, 'from_sexpr')
        for v, what in ((const('x'), 'a text'), (const('zz zz zz zz zz zz'), 'a longer text'), (const(3), 'a number'), (const(1.5), 'a fraction'), (const(None), 'None')):
            d = rejected(m, c, r, v)
            if surely(d):
                res.ok()
            elif has_top(d):
                res.unknown(f'{c.name}: reaction to {what}')
            else:
                # no exception raised explicitly: does using the value fail?
                if fails_on(m, c, r, v):
                    res.ok()
                else:
                    res.bad(f'NONLIST:{c.name}', f'{c.name}.from_sexpr does not raise when given {what}', where)
        if c.name in spec.ANY_HEAD:
            continue
        own = heads(m, c) | set(spec.LEGACY_HEADS.get(c.name, ()))
        if not own:
            continue
        near = {x for w in own if w for x in (w + 'z', 'z' + w, w[:-1], w.upper(), w + ' z')}
        for h in sorted((foreign | words_of(r) | near | {'zzz_a', ''}) - own):
            res.count('foreign tokens')
            b = ('nodev', (lit(h), ('unk', top('tail'))), None)
            d = rejected(m, c, r, b)
            if surely(d):
                res.ok()
                continue
            if not has_top(d):
                res.bad(f'HEAD:{c.name}:{h}', f'{c.name}.from_sexpr accepts an expression that starts with {h!r}', where)
                continue
            # the decision depends on the rest: complete the expression as one of our own
            bad, sure = None, True
            tails = [n[1][1:] for n in root_nodes(m.writer(c).tree or ())] + [tuple(lit(str(i)) for i in range(k)) for k in range(7)]
            for t in tails:
                b2 = ('nodev', (lit(h),) + t, None)
                d2 = rejected(m, c, r, b2)
                if surely(d2) or fails_on(m, c, r, b2):
                    continue
                sure = False
                if not has_top(d2):
                    bad = d2
            if bad is not None:
                res.bad(f'HEAD:{c.name}:{h}', f'{c.name}.from_sexpr accepts an expression that starts with {h!r}', where)
            elif sure:
                res.ok()
            else:
                res.unknown(f'{c.name}: reaction to leading token {h!r}')


def fails_on(m, c, r, v):
    """Does computing some attribute from the non-list v fail for certain?"""
    if r.value[0] != 'obj':
        return False
    cm = Composer(m, c)
    env = {'exp': v, '$steps': r.steps}
    for f, x in r.value[2]:
        y = cm.ev(x, env, frozenset())
        if y[0] == 'crash':
            return True
        for z in walk(x):
            # iterating over a number or None
            if z[0] in ('last', 'loop', 'any', 'first') and z[2] == ('param', 'exp') and v[1] in ('int', 'float', 'NoneType'):
                return True
            if z[0] == 'slice' and z[1] == ('param', 'exp') and v[1] in ('int', 'float', 'NoneType'):
                return True
    return False


def extras(ctx, res):
    """Own expressions with extra or without optional children are not rejected."""
    res.rule('a reader does not raise on its own expressions because of additional children or missing optional ones')
    for c, tag, cm, _ in variants(ctx, res):
        for i in cm.issues:
            if i.kind == 'REJECT':
                res.bad(f'REJECT:{c.name}:{tag}', f'{c.name}: expressions {TAGS.get(tag, tag)} are rejected: {i.msg}', ctx.where(c, 'from_sexpr'))
                break
        else:
            res.ok()


# ------------------------------------------------------------------ C06
TAGS = {'foreign': 'with children its own text never has', 'near': 'with unknown children that resemble known ones', 'bare': 'with a child that has no values', 'unknown': 'with unknown children', 'inside': 'with unknown children in an inner list', 'word': 'with an unknown bare word',
        'reverse': 'with reordered children', 'rotate': 'with reordered children'}


class Absent(Comparer):
    """Comparison for expressions from which children were removed: their attributes keep the declared default."""
    absent = frozenset()
    skip = frozenset()
    only = None

    def roots(self, items, facts):
        for f, node in super().roots(items, facts):
            if self.only is None or (node is not None and node[0] == 'nodev' and node[1] == self.only):
                yield f, node

    def cmp_obj(self, o, e, facts, path):
        if path:
            return super().cmp_obj(o, e, facts, path)
        rest = []
        for f, x in o[2]:
            if f in self.skip:
                continue
            if f not in self.absent:
                rest.append((f, x))
                continue
            d = self.m.default(o[1], f)
            if d == ('undef',) or self.spec.not_persisted(self.w, f, o[1], f):
                continue
            for fx, leaf in self.L.leaves(x, facts):
                if not self.L.sat(fx):
                    continue
                self._T = self.L.typeof(('attr', e, f))
                if has_top(leaf) or any(has_top(z) for z in fx):
                    self.undecided.append((f, 'value without its token'))
                elif leaf[0] == 'crash':
                    self.issue('CRASH', f, f'loading fails: {leaf[1]}', fx)
                elif self.differs(leaf, d):
                    self.issue('DEFAULT', f, f'is {show(leaf)[:80]} instead of its default {show(d)[:80]} when its token is absent', fx)
                else:
                    self.decided.append(f)
        super().cmp_obj(('obj', o[1], tuple(rest)), e, facts, path)

    def differs(self, r, d):
        if r == d:
            return False
        if is_const(r) and is_const(d):
            return not self.same_const(r[2], d[2])
        if r[0] == 'obj' and d[0] == 'obj':
            if r[1] is not d[1]:
                return True
            D = dict(d[2])
            return any(self.differs(x, D[f]) for f, x in r[2] if f in D and not self.spec.not_persisted(self.w, f, r[1], f))
        if r[0] == 'seq' and d[0] == 'seq':
            return r[2] != d[2]
        if r[0] == 'map' and d[0] == 'map':
            return r[1] != d[1]
        return True


def mentions(x):
    out = {y[2] for y in walk(x) if y[0] == 'attr' and y[1] == SELF}
    if 'libId' in out or 'entryName' in out or 'libraryNickname' in out:
        out |= {'libId', 'libraryNickname', 'entryName', 'unitId', 'styleId'}
    return out


def variants(ctx, res):
    """(class, tag, comparer after the run, number of decided attributes) for all altered expressions of all classes."""
    if hasattr(ctx, '_variants'):
        return ctx._variants
    m = ctx.model
    out = []

    def run(c, tag, tree, cls=Comparer, **kw):
        cm = cls(m, c, spec)
        for k, v in kw.items():
            setattr(cm, k, v)
        try:
            with limit(15):
                cm.run(tree)
        except RecursionError:
            cm.undecided.append(('*', 'recursion'))
        except Exception as e:
            cm.undecided.append(('*', f'{type(e).__name__}: {e}'))
        out.append((c, tag, cm, len(set(cm.decided))))

    for c in m.item_classes():
        w = m.writer(c)
        r = m.reader(c)
        if w.tree is None or r.fields is None:
            continue
        n = c.name
        if n not in spec.FIXED_FORM:
            run(c, 'unknown', map_roots(w.tree, with_unknown))
            run(c, 'near', map_roots(w.tree, with_near(r)))
            ws = unwritten_words(m, c, r, w)
            if ws:
                run(c, 'foreign', map_roots(w.tree, with_words(ws)))
        if n in spec.BARE_FORM:
            run(c, 'bare', map_roots(w.tree, with_bare(spec.BARE_FORM[n])))
        if n not in spec.FIXED_FORM and n not in spec.WORD_LIST:
            run(c, 'word', map_roots(w.tree, with_word))
        if n in spec.OPEN_INNER:
            run(c, 'inside', tuple(with_unknown_inside(x) for x in w.tree))
        if n not in spec.ORDERED:
            run(c, 'reverse', map_roots(w.tree, reverse))
            run(c, 'rotate', map_roots(w.tree, rotate))
        mand = spec.MANDATORY.get(n, ())
        for root in root_nodes(w.tree):
            ch = list(root[1])
            if headless(ch):                    # which attributes it stands for is not known
                continue
            need = {i for i, x in enumerate(ch) if x[0] == 'node' and head_of(x) in mand or '*' in mand}
            sets = [({i}, i) for i, x in enumerate(ch) if x[0] in ('node', 'ser') and i not in need]
            rest = {i for i, x in enumerate(ch) if not atomic(x)} - need
            if rest:
                sets.append((rest, None))
            for S, i in sets:
                if undetermined(m, c, [ch[j] for j in S]) or vague([ch[j] for j in S]):
                    continue
                kept = tuple(x for j, x in enumerate(ch) if j not in S)
                gone = set().union(*[mentions(ch[j]) for j in S])
                keep = set().union(*[mentions(x) for x in kept]) if kept else set()
                tag = 'with leading values only' if i is None else f'without ({head_of(ch[i]) or "child"} ..)' if ch[i][0] == 'node' else 'without a nested item'
                run(c, tag, map_roots(w.tree, lambda z: ('node', kept) if z is root else z), Absent, absent=frozenset(gone - keep), skip=frozenset(gone & keep), only=kept)
    ctx._variants = out
    return out


def tolerance(ctx, res):
    """Unknown, reordered and absent children."""
    res.rule('children the library does not know change nothing; the order of children does not matter; '
             'attributes whose token is absent keep their declared default')
    for c, tag, cm, n in variants(ctx, res):
        res.count('altered expressions')
        hit = False
        base = ctx.comparers.get(c)
        known = {(i.kind, i.path) for i in base.issues} if base else set()
        for i in cm.issues:
            if (i.kind, i.path) in known:       # not caused by the alteration
                continue
            hit = True
            res.bad(f'{i.kind}:{c.name}.{i.path}:{tag}', f'{c.name}: expression {TAGS.get(tag, tag)}: {i.text()}', ctx.where(c, 'from_sexpr'))
        if not hit:
            res.ok()
        for p, why in sorted(set(cm.undecided)):
            if tag in ('unknown', 'reverse') or p == '*':
                res.unknown(f'{c.name}.{p} ({tag}): {why}')


# ------------------------------------------------------------------ C19
def dispatch(ctx, res):
    """Every recognised child goes to a class that accepts its token and writes it."""
    res.rule('a child recognised by its leading token is loaded by an item type that accepts this token and writes it')
    m = ctx.model
    for c in m.item_classes():
        r = m.reader(c)
        for e in r.events:
            if e.kind != 'parse':
                continue
            cls, arg = e.data
            if not isinstance(cls, P.ClassInfo):
                continue
            hs = tested_heads(arg, e.pc)
            if hs is None:
                continue
            k = m.reader(cls)
            for h in hs:
                res.count('dispatched tokens')
                if k.abstract:
                    if not k.raises or cls.name in spec.UNSUPPORTED:
                        res.ok()
                    else:
                        res.bad(f'DISPATCH:{c.name}:{h}', f'{c.name} hands ({h} ..) to {cls.name}, which cannot be loaded', e.where())
                    continue
                if cls.name in spec.ANY_HEAD:
                    res.ok()
                    continue
                if k.value is None:
                    res.unknown(f'{c.name}: ({h} ..) to {cls.name}')
                    continue
                d = rejected(m, cls, k, ('nodev', (lit(h), ('unk', top('tail'))), None))
                if surely(d):
                    res.bad(f'DISPATCH:{c.name}:{h}', f'{c.name} hands ({h} ..) to {cls.name}, which rejects it', e.where())
                    continue
                own = heads(m, cls) | set(spec.LEGACY_HEADS.get(cls.name, ()))
                if own and h not in own:
                    res.bad(f'DISPATCH:{c.name}:{h}', f'{c.name} hands ({h} ..) to {cls.name}, which writes ({"/".join(sorted(own))} ..)', e.where())
                else:
                    res.ok()


def whole(ctx, res):
    """A child recognised by its token is loaded whatever else the child holds."""
    res.rule('whether a recognised child is loaded depends on its leading token only, not on what else the child holds')
    m = ctx.model
    for c in m.item_classes():
        by = {}
        for e in m.reader(c).events:
            if e.kind != 'parse' or e.data[1][0] != 'elem':
                continue
            for h in tested_heads(e.data[1], e.pc) or ():
                by.setdefault((e.data[1], h), []).append(e)
        for (arg, h), es in sorted(by.items(), key=lambda x: (x[0][1], x[1][0].node.lineno if x[1][0].node is not None else 0)):
            res.count('children loaded whole')
            cs = [restrict(e.pc, arg, h) for e in es]
            if any(contains(x, lambda y: y[0] in ('top', 'phi', 'unk')) for x in cs):
                res.unknown(f'{c.name}: whether every ({h} ..) is loaded')
                continue
            atoms = sorted({a for x in cs for a in leaves(x)}, key=show)
            if len(atoms) > 8:
                res.unknown(f'{c.name}: whether every ({h} ..) is loaded')
                continue
            gap = None
            for bits in itertools.product((True, False), repeat=len(atoms)):
                env = dict(zip(atoms, bits))
                if not any(truth(x, env) for x in cs):
                    gap = env
                    break
            if gap is None:
                res.ok()
            else:
                txt = ' and '.join(show(a) if v else f'not {show(a)}' for a, v in gap.items())
                res.bad(f'DROPPED:{c.name}:{h}', f'{c.name} recognises ({h} ..) but does not load it when {txt or "reading it"}', es[0].where())


def restrict(c, arg, w):
    """What condition c asks of the element arg beyond being a list that starts with the word w; all else is taken to hold."""
    h = mk_idx(arg, const(0))
    k = c[0]
    if c in (TRUE, FALSE):
        return c
    if k == 'not':
        return mk_not(restrict_neg(c[1], arg, w))
    if k == 'and':
        return mk_and([restrict(x, arg, w) for x in c[1]])
    if k == 'or':
        return mk_or([restrict(x, arg, w) for x in c[1]])
    if k == 'any' and arg[1:] == c[1:3]:
        return restrict(c[3], arg, w)
    return leaf(c, arg, h, w, TRUE)


def restrict_neg(c, arg, w):
    """The same under a negation: what does not concern the element is taken to fail."""
    h = mk_idx(arg, const(0))
    k = c[0]
    if c in (TRUE, FALSE):
        return c
    if k == 'not':
        return mk_not(restrict(c[1], arg, w))
    if k == 'and':
        return mk_and([restrict_neg(x, arg, w) for x in c[1]])
    if k == 'or':
        return mk_or([restrict_neg(x, arg, w) for x in c[1]])
    return leaf(c, arg, h, w, FALSE)


def leaf(c, arg, h, w, free):
    t = holds_for(c, h, w)
    if t is not None:
        return TRUE if t else FALSE
    if c[0] == 'istype' and c[1] == arg:
        names = c[2] if isinstance(c[2], (tuple, list, frozenset)) else (c[2],)
        return TRUE if 'list' in names else FALSE
    if c[0] == 'eq' and arg in (c[1], c[2]) and any(is_const(x) and isinstance(x[2], str) for x in c[1:3]):
        return FALSE
    if c == ('truthy', arg) or c == arg:
        return TRUE
    if c == ('isnone', arg):
        return FALSE
    if c[0] == 'le' and is_const(c[1]) and c[1][2] in (0, 1, 2) and c[2][:2] == ('call', 'len') and c[2][2] == (arg,):
        return TRUE                         # (word) with nothing behind it holds nothing that could be lost
    if c[0] == 'any' or not contains(c, lambda x: x == arg):
        return free
    return c


def leaves(c):
    if c in (TRUE, FALSE):
        return []
    if c[0] == 'not':
        return leaves(c[1])
    if c[0] in ('and', 'or'):
        return [a for x in c[1] for a in leaves(x)]
    return [c]


def truth(c, env):
    if c in (TRUE, FALSE):
        return c == TRUE
    if c[0] == 'not':
        return not truth(c[1], env)
    if c[0] in ('and', 'or'):
        return (all if c[0] == 'and' else any)(truth(x, env) for x in c[1])
    return env[c]


def tested_heads(arg, pc):
    """Leading tokens of arg under which the path condition can hold, as far as it names them; None if it names none."""
    h = mk_idx(arg, const(0))
    words = set()
    for x in walk(pc):
        if x[0] == 'eq':
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                if a == h and is_const(b) and isinstance(b[2], str):
                    words.add(b[2])
        elif x[0] == 'in' and x[1] == h and x[2][0] == 'seq':
            words |= {p[1][2] for p in x[2][2] if p[0] == 'item' and is_const(p[1])}
    if not words:
        return None
    return [w for w in sorted(words) if holds_for(pc, h, w) is not False]


def holds_for(c, h, w):
    """Truth of condition c when the word h is w: True, False or None (depends on more)."""
    k = c[0]
    if c == TRUE or c == FALSE:
        return c == TRUE
    if k == 'eq':
        for a, b in ((c[1], c[2]), (c[2], c[1])):
            if a == h and is_const(b):
                return b[2] == w
        return None
    if k == 'in' and c[1] == h and c[2][0] == 'seq' and all(p[0] == 'item' and is_const(p[1]) for p in c[2][2]):
        return any(p[1][2] == w for p in c[2][2])
    if k == 'not':
        r = holds_for(c[1], h, w)
        return None if r is None else not r
    if k in ('and', 'or'):
        rs = [holds_for(x, h, w) for x in c[1]]
        if (k == 'or') in rs:
            return k == 'or'
        return None if None in rs else k == 'and'
    if k == 'ite':
        t = holds_for(c[1], h, w)
        if t is not None:
            return holds_for(c[2] if t else c[3], h, w)
        a, b = holds_for(c[2], h, w), holds_for(c[3], h, w)
        return a if a == b else None
    if k == 'any' and contains(h, lambda x: x == ('elem', c[1], c[2])):
        return holds_for(c[3], h, w)        # the condition on the very element that is handed over
    if k == 'istype' and c[1] == h:
        return True if 'str' in str(c[2]) else None
    return None
