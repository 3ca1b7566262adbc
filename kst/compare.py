"""Comparison of 'what loading reads back from what saving wrote' with the identity."""
import re
from . import program as P
from .values import *
from .budget import limit, Timeout
from .unroll import Check
from .logic import Logic
from .roundtrip import Composer, UNDEF


class Issue:
    """kind:
      LOST   value not read back / not written for some admissible value
      GUARD  lost only for a 'falsy' value (0, '', False, empty)
      CROSS  value of another attribute shows up
      DEP    result depends on another attribute
      ENC    value comes back in another form (text for number, rounded, changed)
      ROUND  number rounded
      COLL   element of a collection lost   MULT  element more than once / extra   ORDER order changed
      FLAG   boolean comes back wrong       WORD  keyword not understood
      CRASH / REJECT  loading fails
    """
    def __init__(self, kind, cls, path, msg, facts=(), got=None, typ=('any',)):
        self.kind, self.cls, self.path, self.msg, self.facts, self.got = kind, cls, path, msg, facts, got
        self.typ = typ

    def kinds(self):
        return {m[0] for m in P.members(self.typ)}

    def optional(self):
        return 'none' in self.kinds()

    def key(self):
        return f'{self.kind}:{self.cls.name}.{self.path}'

    def text(self, relevant=None):
        fs = [show(f) for f in self.facts if f[0] != 'or']
        return f'{self.cls.name}.{self.path}: {self.msg}' + (f' (when {" and ".join(sorted(fs)[:4])})' if fs else '')


class Comparer:
    def __init__(self, model, wcls, spec):
        self.m, self.w, self.spec = model, wcls, spec
        self.comp = Composer(model, wcls)
        self.comp.spec = spec
        self.L = Logic(model, wcls, spec.DOMAINS, spec.RESERVED)
        self.comp.logic = self.L
        self.issues = []
        self.undecided = []      # (path, reason)
        self.decided = []        # paths shown equal
        self.bounded = []        # of these: shown by bounded unrolling
        self.unroll_lost = []
        self._n = 0
        self._T = ('any',)
        self.types = {}

    # ------------------------------------------------------------- entry
    def roots(self, items, facts):
        """Alternatives of the root: (facts, node value or None)."""
        items = self.comp.norm(items)
        if len(items) == 1 and items[0][0] == 'gate':
            g = items[0]
            for c, sub in ((g[1], g[2]), (mk_not(g[1]), g[3])):
                f = self.L.assume(facts, c)
                if f is not None:
                    yield from self.roots(sub, f)
            return
        if not items:
            yield facts, None
            return
        if len(items) == 1 and items[0][0] in ('node', 'onode'):
            yield facts, self.comp.val(items[0])
        else:
            yield facts, ('nodev', items, None)

    def run(self, tree=None):
        w = self.m.writer(self.w)
        r = self.m.reader(self.w)
        tree = w.tree if tree is None else tree
        if tree is None or r.fields is None:
            return False
        inv = self.spec.invariants(self.w, self.m)
        base = self.L.close(frozenset(inv))
        if base is None:
            base = frozenset()
        for facts, node in self.roots(tuple(tree), base):
            if not self.L.sat(facts):
                continue
            if node is None:
                if self.spec.omitted(self.w, facts, self):
                    continue
                self.empty_root(facts)
                continue
            if isinstance(node, tuple) and node[0] == 'nodev' and not self.comp.norm(node[1]):
                continue
            self.comp.rejects.clear()
            o = self.comp.parse(self.w, node, frozenset(facts))
            for (fx, cls, e) in list(self.comp.rejects):
                f = self.L.close(frozenset(fx) | facts)
                if f is None or not self.L.sat(f):
                    continue
                if any(has_top(x) for x in f):
                    self.undecided.append(('*', 'reject condition'))
                    continue
                self.issue('REJECT', '*', f'{cls.name} loader raises on text its saver produced ({e.where() if hasattr(e, "where") else ""})', f)
            if o[0] != 'obj':
                if o[0] == 'crash':
                    self.issue('REJECT', '*', show(o), facts)
                else:
                    self.undecided.append(('*', show(o)))
                continue
            self.cmp_obj(o, ('param', 'self'), facts, '')
        if type(self) is Comparer:
            self.unrolled(tree)
        self.dedupe()
        return True

    def unrolled(self, tree):
        """Attributes the summaries leave open: bounded unrolling."""
        open_ = {re.split(r'[.\[]', p)[0] for p, _ in self.undecided}
        if not open_:
            return
        names = [f for f in self.w.fields() if (f in open_ or '*' in open_) and not self.spec.not_persisted(self.w, f, self.w, f)]
        if not names:
            return
        ck = Check(self)
        try:
            with limit(20):
                good, bad = ck.run(names, tree)
        except Timeout:
            return
        self.unroll_lost = sorted(ck.lost)
        if ck.lost:
            return
        self.bounded = sorted(good)
        self.undecided = [(p, why) for p, why in self.undecided if re.split(r'[.\[]', p)[0] not in good | bad]
        self.decided += self.bounded

    def empty_root(self, facts):
        """Writer produced nothing: acceptable only if every attribute has its default."""
        for fn in self.w.fields():
            d = self.m.default(self.w, fn)
            if not self.is_default(("attr", ("param", "self"), fn), d, facts):
                self.issue("LOST", fn, "nothing is written although it may be set", facts)

    def dedupe(self):
        seen, out = set(), []
        for i in self.issues:
            if (i.kind, i.path) not in seen:
                seen.add((i.kind, i.path))
                out.append(i)
        self.issues = out

    def issue(self, kind, path, msg, facts, got=None):
        if any(has_top(f) for f in facts):
            self.undecided.append((path, 'condition'))
            return
        self.issues.append(Issue(kind, self.w, path, msg, self.relevant(facts, path), got, self._T))

    def relevant(self, facts, path):
        return tuple(f for f in facts if not (f[0] == 'not' and f[1][0] == 'isnone' and False))

    # ------------------------------------------------------------- possible values
    def possible(self, e, facts, T):
        """Finite set of constants e can have under facts, or None when unbounded."""
        if ('isnone', e) in facts:
            return [None]
        for f in facts:
            if f[0] == 'eq' and f[1] == e and is_const(f[2]):
                return [f[2][2]]
        ms = P.members(T)
        kinds = {m[0] for m in ms}
        opt = self.L.optional(e) and mk_not(('isnone', e)) not in facts and ('truthy', e) not in facts
        if opt:
            f = self.L.assume(facts, mk_not(('isnone', e)))
            if f is None or not self.L.sat(f):
                return [None]
        nt = mk_not(('truthy', e)) in facts
        vals = []
        if opt:
            vals.append(None)
        for m in ms:
            if m[0] == 'none':
                continue
            if m[0] == 'bool':
                if not nt:
                    vals.append(True)
                if ('truthy', e) not in facts:
                    vals.append(False)
            elif nt and m[0] == 'str':
                if self.L.domain(e) is not None and '' not in self.L.domain(e):
                    continue
                vals.append('')
            elif nt and m[0] in ('int', 'float'):
                vals.append(0)
            elif nt and m[0] in ('list', 'dict'):
                vals.append(())
            elif nt and m[0] == 'inst':
                continue
            else:
                d = self.L.domain(e)
                if d is not None:
                    ex = {f[1][2][2] for f in facts if f[0] == 'not' and f[1][0] == 'eq' and f[1][1] == e and is_const(f[1][2])}
                    vals.extend(x for x in d if x not in ex)
                    continue
                return None
        return vals

    def is_default(self, e, d, facts):
        T = self.L.typeof(e)
        pv = self.possible(e, facts, T)
        if is_const(d):
            return pv is not None and all(self.same_const(x, d[2]) for x in pv)
        if d[0] == 'seq' and not d[2] or d[0] == 'map' and not d[1]:
            return mk_not(('truthy', e)) in facts
        if d[0] == 'obj':
            return all(self.is_default(('attr', e, f), x, facts) for f, x in d[2])
        return False

    @staticmethod
    def same_const(a, b):
        if a is None or b is None or isinstance(a, bool) != isinstance(b, bool):
            return a is b
        return a == b

    def declared_default(self, e):
        if e[0] != 'attr':
            return None
        ds = {self.m.default(c, e[2]) for c in self.L.owner(e[1])}
        return ds.pop() if len(ds) == 1 else None

    # ------------------------------------------------------------- comparison
    def cmp_obj(self, o, e, facts, path):
        cls = o[1]
        skip = self.spec.virtual_parts(cls, self.m, dict(o[2]))
        for f, x in o[2]:
            if f in skip:
                continue
            p = f'{path}.{f}' if path else f
            if self.spec.not_persisted(self.w, p, cls, f):
                continue
            # a keyword-free attribute the writer reads through another name
            self.cmp(x, ('attr', e, f), self.L.typeof(('attr', e, f)), facts, p)

    def cmp(self, r, e, T, facts, path):
        self._n += 1
        self._T = T
        self.types[path] = T
        if self._n > 60000:
            self.undecided.append((path, 'budget'))
            return
        if r[0] == 'ite':
            for f, leaf in self.L.leaves(r, facts):
                self.cmp(leaf, e, T, f, path)
            return
        if not self.L.sat(facts):
            return
        if any(f[0] in ('truthy', 'not') and contains(f, lambda x: x[0] == 'crash') for f in facts):
            cr = next(x for f in facts for x in walk(f) if x[0] == 'crash')
            if any(has_top(f) for f in facts if not contains(f, lambda x: x[0] == 'crash')):
                self.undecided.append((path, 'condition'))
                return
            self.issue('CRASH', path, f'loading fails on saved text: {cr[1]}', facts)
            return
        if any(has_top(f) for f in facts):
            self.undecided.append((path, 'condition'))
            return
        if r == e:
            self.decided.append(path)
            return
        if r[0] == 'crash':
            self.issue('CRASH', path, f'loading fails on saved text: {r[1]}', facts)
            return
        if r[0] == 'top' and 'reordered by' in r[1] and {m[0] for m in P.members(T)} & {'list', 'dict', 'any'}:
            self.issue('ORDER', path, f'elements do not stay in order while loading ({r[1]})', facts)
            return
        if r[0] == 'top' and 'thinned by' in r[1] and {m[0] for m in P.members(T)} & {'list', 'dict', 'any'}:
            self.issue('COLL', path, f'elements collected earlier are dropped while loading ({r[1]})', facts)
            return
        if r[0] == 'undef' or r[0] == 'top':
            self.undecided.append((path, show(r)))
            return
        ms = P.members(P.without_none(T))
        if r[0] == 'obj':
            if ('isnone', e) in facts:
                self.issue('DEP', path, f'unset attribute comes back as {r[1].name}', facts)
                return
            if self.L.optional(e) and mk_not(('isnone', e)) not in facts and ('truthy', e) not in facts:
                f = self.L.assume(facts, ('isnone', e))
                if f is not None and self.L.sat(f):
                    self.issue('DEP', path, f'unset attribute comes back as {r[1].name}', f)
                facts = self.L.assume(facts, mk_not(('isnone', e))) or facts
            # class of the expected object
            if has_cls := [m[1] for m in ms if m[0] == 'inst']:
                if not any(r[1] is c or r[1] in c.mro() or c in r[1].mro() for c in has_cls):
                    self.issue('CROSS', path, f'comes back as {r[1].name} instead of {"/".join(c.name for c in has_cls)}', facts)
                    return
            self.cmp_obj(r, e, facts, path)
            return
        if r[0] == 'nodev' and r[2] is None and {m[0] for m in ms} & {'list'}:
            r = ('seq', 'list', tuple(self.comp.spread(r, facts)))
        if r[0] == 'seq':
            self.cmp_seq(r, e, T, facts, path)
            return
        if r[0] == 'map':
            self.cmp_map(r, e, T, facts, path)
            return
        if has_top(r):
            self.undecided.append((path, show(r)[:80]))
            return
        if T == ('bool',) or set(m[0] for m in ms) == {'bool'}:
            self.cmp_bool(r, e, T, facts, path)
            return
        if is_const(r):
            self.cmp_const(r, e, T, facts, path)
            return
        if is_bool_expr(r):
            self.issue('ENC', path, f'comes back as the truth value {show(r)[:80]}', facts)
            return
        # value of something else
        others = [x for x in walk(r) if x[0] == 'attr' and x != e]
        mentions = contains(r, lambda x: x == e)
        if mentions:
            if r == ('strof', e) or (r[0] == 'str' and len(r[1]) == 1):
                kinds = {m[0] for m in ms}
                if 'str' in kinds or 'any' in kinds:
                    self.decided.append(path)
                    return
                self.issue('ENC', path, f'comes back as text instead of {"/".join(sorted(kinds))}', facts)
                return
            if r[0] == 'fmt' or contains(r, lambda x: x[0] == 'fmt') or contains(r, lambda x: x[0] == 'call' and x[1] in ('round', 'int', 'trunc', 'floor', 'ceil', 'abs')):
                if self.spec.rounded(self, e):
                    x, digits = r, True
                    while x[0] == 'fmt' or x[0] == 'call' and x[1] in ('round', 'float') and x[2]:
                        if x[0] == 'fmt':
                            digits = digits and self.spec.enough_digits(x[2])
                        elif x[1] == 'round':
                            n = x[2][1] if len(x[2]) > 1 else const(0)
                            digits = digits and (n[2] >= 6 if is_const(n) and isinstance(n[2], int) else 'precision' in show(n))
                        x = x[1] if x[0] == 'fmt' else x[2][0]
                    if x == e:
                        if digits:
                            self.decided.append(path)
                            return
                    else:
                        self.issue('ENC', path, f'comes back changed: {show(r)[:100]}', facts)
                        return
                self.issue('ROUND', path, f'comes back as {show(r)[:100]}', facts)
                return
            if ('isnone', e) in facts:
                self.issue('DEP', path, f'unset attribute comes back as {show(r)[:80]}', facts)
                return
            if contains(r, lambda x: x[0] in ('call', 'slice', 'idx', 'strof', 'str')):
                self.issue('ENC', path, f'comes back changed: {show(r)[:120]}', facts)
                return
        if r[0] == 'nodev':
            self.issue('CROSS', path, f'comes back as an unprocessed list {show(r)[:80]}', facts)
            return
        # equal under facts?  (e.g. eq(e, other))
        if ('eq',) + tuple(sorted((r, e), key=repr)) in facts or mk_eq(r, e) in facts:
            self.decided.append(path)
            return
        if mk_not(('truthy', e)) in facts and mk_not(('truthy', r)) in facts and ms and len(ms) == 1 and not self.L.optional(e):
            self.decided.append(path)
            return
        self.issue('CROSS', path, f'comes back as {show(r)[:120]}', facts)

    def cmp_bool(self, r, e, T, facts, path):
        if not (is_bool_expr(r) or is_const(r)):
            if r[0] in ('attr', 'elem', 'idx') and r != e:
                self.issue('CROSS', path, f'comes back as {show(r)[:100]}', facts)
                return
            if r[0] in ('strof', 'str', 'call', 'fmt'):
                self.issue('FLAG', path, f'comes back as text {show(r)[:100]}', facts)
                return
            self.undecided.append((path, show(r)[:80]))
            return
        cases = [(True, [('truthy', e)]), (False, [mk_not(('truthy', e))])]
        if self.L.optional(e):
            cases[1] = (False, [mk_not(('truthy', e)), mk_not(('isnone', e))])
            cases.append((None, [('isnone', e)]))
        ok = True
        for val, lits in cases:
            f = self.L.close(facts | set(lits))
            if f is None or not self.L.sat(f):
                continue
            if is_const(r):
                if not self.same_const(r[2], val):
                    ok = False
                    kind = 'FLAG' if val is not None else 'DEP'
                    self.issue(kind, path, f'{val} comes back as {r[2]}', f)
                continue
            if val is None:
                # an unset flag: must not become a set one through something unrelated; None vs False reported
                ok = False
                self.issue('DEP', path, 'unset flag comes back as a boolean', f)
                continue
            bad = mk_not(r) if val else r
            fb = self.L.assume(f, bad)
            if fb is not None and self.L.sat(fb):
                if any(has_top(x) for x in fb):
                    self.undecided.append((path, 'condition'))
                    continue
                ok = False
                if any(contains(x, lambda y: y[0] == 'crash') for x in fb):
                    self.issue('CRASH', path, f'loading fails on saved text under {show(r)[:100]}', fb)
                    continue
                other = sorted({show(x) for x in walk(r) if x[0] == 'attr' and x != e and not contains(e, lambda z: z == x)})
                kind = 'DEP' if other else 'FLAG'
                self.issue(kind, path, f'{val} comes back as {not val}' + (f' because of {", ".join(other)[:100]}' if other else ''), fb)
        if ok:
            self.decided.append(path)

    def cmp_const(self, r, e, T, facts, path):
        pv = self.possible(e, facts, T)
        ms = P.members(P.without_none(T))
        if pv is not None:
            bad = [x for x in pv if not self.same_const(x, r[2])]
            if not bad:
                self.decided.append(path)
                return
            if r[2] is None and all(m[0] == 'inst' for m in ms):
                pass
            if bad and all(not x for x in bad):
                ok = ()
                if bad == [()] and r[2] is None:
                    self.issue('DEP', path, 'empty list comes back unset', facts)
                    return
                if bad == [None]:
                    if self.declared_default(e) == r:
                        # nothing was written for an unset attribute: it comes back with the declared default
                        self.decided.append(path)
                        return
                    self.issue('DEP', path, f'unset attribute comes back as {r[2]!r}', facts)
                    return
                self.issue('GUARD', path, f'value {"/".join(repr(x) for x in bad)} comes back as {r[2]!r}', facts)
                return
            self.issue('WORD' if self.L.domain(e) else 'LOST', path, f'value {"/".join(repr(x) for x in bad)} comes back as {r[2]!r}', facts)
            return
        if r[2] is None and self.spec.object_omitted(self, e, facts):
            self.decided.append(path)
            return
        if r[2] is None and ms and all(m[0] == 'inst' for m in ms):
            cs = [m[1] for m in ms]
            if all(self.is_default(("attr", e, f), self.m.default(c, f), facts) for c in cs for f in c.fields()):
                self.decided.append(path)
                return
        self.issue('LOST', path, f'comes back as {r[2]!r} whatever was set', facts)

    # ------------------------------------------------------------- collections
    def prune(self, parts, facts):
        out = []
        for p in parts:
            if p[0] == 'alt':
                fa, fb = self.L.assume(facts, p[1]), self.L.assume(facts, mk_not(p[1]))
                if fa is not None and not self.L.sat(fa):
                    fa = None
                if fb is not None and not self.L.sat(fb):
                    fb = None
                a = self.prune(p[2], fa) if fa is not None else None
                b = self.prune(p[3], fb) if fb is not None else None
                if a is None:
                    out.extend(b or [])
                elif b is None:
                    out.extend(a)
                elif a or b:
                    out.append(('alt', p[1], tuple(a), tuple(b)))
            elif p[0] == 'loop':
                b = self.prune(p[3], facts)
                if b and mk_not(('truthy', p[2])) not in facts:
                    out.append(('loop', p[1], p[2], tuple(b)))
            else:
                out.append(p)
        return out

    def alts(self, parts, facts, depth=0):
        """Enumerate alternatives not inside loops."""
        for n, p in enumerate(parts):
            if p[0] == 'alt':
                for c, sub in ((p[1], p[2]), (mk_not(p[1]), p[3])):
                    f = self.L.assume(facts, c)
                    if f is None or not self.L.sat(f):
                        continue
                    yield from self.alts(tuple(parts[:n]) + tuple(sub) + tuple(parts[n + 1:]), f, depth + 1)
                return
        yield facts, list(parts)

    def base_iter(self, it):
        """(base collection, list of transformations)"""
        tr = []
        while True:
            if it[0] == 'slice':
                tr.append('slice')
                it = it[1]
                if tr[-1] == 'slice' and it is not None:
                    pass
            elif it[0] == 'call' and it[1] in ('sorted', 'reversed', 'set', 'dedup', 'slice_step', 'fromkeys', 'keys', 'items', 'values', 'list', 'tuple') and it[2]:
                tr.append(it[1])
                it = it[2][0]
            elif it[0] == 'until':
                tr.append('until')
                it = it[2]
            else:
                return it, [t for t in tr if t not in ('list', 'tuple', 'items', 'keys')]

    def full_slice(self, it):
        while it[0] == 'slice' and it[2] == NONE and it[3] == NONE:
            it = it[1]
        return it

    def cmp_seq(self, r, e, T, facts, path):
        ms = [m for m in P.members(P.without_none(T))]
        elT = next((m[1] for m in ms if m[0] == 'list'), ('any',))
        if ms and all(m[0] not in ('list', 'any', 'dict') for m in ms):
            self.issue('ENC', path, 'comes back as a list', facts)
            return
        if self.L.optional(e) and mk_not(('isnone', e)) not in facts:
            f = self.L.assume(facts, ('isnone', e))
            if f is not None and self.L.sat(f) and not self.spec.none_is_empty(self.w, path):
                self.issue('DEP', path, 'unset list comes back as a list', f)
            f2 = self.L.assume(facts, mk_not(('isnone', e)))
            if f2 is None:
                return
            facts = f2
        parts = self.prune(r[2], facts)
        n = 0
        for f, ps in self.alts(parts, facts):
            n += 1
            if n > 64:
                self.undecided.append((path, 'too many alternatives'))
                break
            self.cmp_parts(ps, e, elT, f, path, 'item')

    def cmp_map(self, r, e, T, facts, path):
        if self.L.optional(e) and ('isnone', e) in facts:
            self.issue('DEP', path, 'unset mapping comes back as a mapping', facts)
            return
        parts = self.prune(r[1], facts)
        n = 0
        for f, ps in self.alts(parts, facts):
            n += 1
            if n > 64:
                self.undecided.append((path, 'too many alternatives'))
                break
            self.cmp_parts(ps, e, None, f, path, 'ent')

    def cmp_parts(self, ps, e, elT, facts, path, kind):
        ps = self.prune(ps, facts)
        if any(contains(p, lambda x: x[0] in ('top', 'phi')) for p in ps):
            self.undecided.append((path, 'undetermined elements'))
            return
        for p in ps:
            for x in walk(p):
                if x[0] == 'crash':
                    self.issue('CRASH', path, f'loading fails on saved text: {x[1]}', facts)
                    return
        if not ps:
            if ('truthy', e) in facts:
                self.issue('COLL', path, 'elements are lost', facts)
            elif mk_not(('truthy', e)) in facts:
                self.decided.append(path)
            else:
                f = self.L.assume(facts, ('truthy', e))
                if f is not None and self.L.sat(f):
                    self.issue('COLL', path, 'elements are not read back', f)
                else:
                    self.decided.append(path)
            return
        mine, foreign = [], []
        for p in ps:
            if p[0] == 'loop':
                b, tr = self.base_iter(p[2])
                (mine if b == e else foreign).append((p, tr))
            elif p[0] in ('item', 'ent'):
                # explicit elements: e[0], e[1] ...
                if kind == 'item' and contains(p[1], lambda x: x == e):
                    mine.append((p, ['item']))
                else:
                    foreign.append((p, []))
            elif p[0] == 'spread' and p[1] == e:
                mine.append((p, ['spread']))
            else:
                foreign.append((p, []))
        for p, tr in foreign:
            d = show(p[2] if p[0] == 'loop' else p[1])[:80]
            if p[0] == 'loop':
                f = self.L.assume(facts, ('truthy', p[2]))
                if f is None:
                    continue
                self.issue('MULT', path, f'additional elements come back from {d}', f)
            else:
                self.issue('MULT', path, f'additional element comes back: {d}', facts)
        if not mine:
            if not foreign:
                self.issue('COLL', path, 'elements are not read back', facts)
            else:
                f = self.L.assume(facts, ('truthy', e))
                if f is not None and self.L.sat(f):
                    self.issue('COLL', path, 'elements are not read back', f)
            return
        if len(mine) == 1 and mine[0][1] == ['spread']:
            if not foreign:
                self.decided.append(path)
            return
        if any('item' in tr for _, tr in mine):
            self.fixed_items(mine, e, facts, path)
            return
        if len(mine) > 1:
            # several passes over the same collection: every element must come exactly once and order is lost
            self.issue('ORDER', path, 'elements come back regrouped (several passes over the collection)', facts)
            return
        p, tr = mine[0]
        if any(t in ('sorted', 'reversed') for t in tr):
            self.issue('ORDER', path, f'order changed ({", ".join(tr)})', facts)
            return
        if any(t in ('set', 'dedup', 'fromkeys') for t in tr):
            self.issue('COLL', path, 'duplicates are merged', facts)
            return
        if 'until' in tr:
            self.issue('COLL', path, 'elements after a certain one are lost', facts)
            return
        if 'slice' in tr or 'slice_step' in tr:
            if self.full_slice(p[2]) != e:
                self.issue('COLL', path, f'only {show(p[2])} comes back', facts)
                return
        L = p[1]
        f = self.L.assume(facts, ('truthy', e))
        if f is None:
            f = facts
        elem = ('elem', L, p[2])
        n = 0
        good = True
        for fb, bp in self.alts(p[3], f):
            n += 1
            if n > 256:
                self.undecided.append((path, 'too many element alternatives'))
                break
            bp = self.prune(bp, fb)
            if any(q[0] == 'loop' for q in bp):
                self.undecided.append((path, 'nested collection'))
                good = False
                continue
            if len(bp) == 0:
                if self.spec.element_omitted(self, elem, fb):
                    continue
                good = False
                self.issue('COLL', path, 'an element is not read back', fb)
                continue
            if len(bp) > 1:
                good = False
                self.issue('MULT', path, 'an element comes back more than once', fb)
                continue
            q = bp[0]
            if kind == 'ent':
                if q[0] != 'ent':
                    self.undecided.append((path, 'entry'))
                    continue
                if q[1] != ('key', L, p[2]):
                    if self.is_key_text(q[1], L, p[2]):
                        pass
                    else:
                        good = False
                        self.issue('ENC', path, f'key comes back as {show(q[1])[:80]}', fb)
                        continue
                if q[2] not in (('val', L, p[2]), ('strof', ('val', L, p[2]))):
                    good = False
                    self.issue('CROSS', path, f'value comes back as {show(q[2])[:80]}', fb)
                continue
            if q[0] != 'item':
                self.undecided.append((path, 'element'))
                continue
            if q[1] == elem:
                continue
            before = len(self.issues)
            if q[1][0] == 'obj':
                ks = self.m.classes_of(elem, self.w) or []
                narrowed = [k for k in ks if self.L.assume(fb, ('istype', elem, (k.name,))) is not None]
                if narrowed and not any(k is q[1][1] or q[1][1] in k.mro() for k in narrowed):
                    self.issue('CROSS', path + '[]', f'{"/".join(k.name for k in narrowed[:3])} element comes back as {q[1][1].name}', fb)
                    good = False
                    continue
            et = self.L.typeof(elem)
            if et == ('any',) and elT != ('any',):
                et = elT
            self.cmp(q[1], elem, et, fb, path + '[]')
            good = good and len(self.issues) == before
        if good:
            self.decided.append(path)

    def is_key_text(self, v, L, it):
        k = ('key', L, it)
        return v == ('strof', k) or v == ('str', (('hole', k),))

    def fixed_items(self, mine, e, facts, path):
        """The collection comes back as explicit elements e[0], e[1], ..."""
        for p, tr in mine:
            if p[0] != 'item':
                self.undecided.append((path, 'explicit elements'))
                return
        elT = ('any',)
        before = len(self.issues)
        for n, (p, tr) in enumerate(mine):
            idx = {x[2][2] for x in walk(p[1]) if x[0] == 'idx' and x[1] == e and is_const(x[2])}
            if idx and idx != {n}:
                self.issue('ORDER', path, f'element {n} comes back as element {sorted(idx)}', facts)
                return
            el = ('idx', e, const(n))
            self.cmp(p[1], el, self.L.typeof(el), facts, path + '[]')
        ln = ('call', 'len', (e,), ())
        if not any(f[0] == 'eq' and ln in f[1:] and const(len(mine)) in f[1:] for f in facts):
            f = self.L.assume(facts, mk_not(mk_eq(ln, const(len(mine)))))
            if f is not None and self.L.sat(f):
                self.undecided.append((path, 'fixed number of elements'))
                return
        if len(self.issues) == before:
            self.decided.append(path)
