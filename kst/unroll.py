"""Bounded unrolling, for what the comparison of loop summaries leaves undecided.

The writer's token tree is instantiated symbolically: lists of 0 to 3 elements, optional parts present / absent / one at a
time the other way round.  The reader is then interpreted abstractly on that expression, whose loops unroll because the
number of entries is known; every atom in it is still a symbol ("self.name"), so one instance stands for all values of its
attributes.  An attribute that comes back as something else is reported; nothing is reported (and the attribute stays
undecided) when the interpretation loses track."""
from . import program as P
from .values import *
from .absint import Interp
from .budget import Timeout

REST = '?rest'


class GiveUp(Exception):
    pass


class Policy:
    """Which way to decide the k-th open condition."""
    def __init__(self, on=True, flip=None, size=2, mixed=False):
        self.on, self.flip, self.size, self.mixed, self.k = on, flip, size, mixed, 0

    def ask(self, what=None):
        k = self.k
        self.k += 1
        r = self.on
        if self.mixed and what is not None:
            r = bool(index_in(what) % 2) == self.on
        return not r if k == self.flip else r


def index_in(v):
    for x in walk(v):
        if x[0] == 'idx' and is_const(x[2]) and isinstance(x[2][2], int):
            return x[2][2]
    return 1


class Instance:
    def __init__(self, comparer, policy):
        self.c, self.m, self.L, self.w = comparer, comparer.m, comparer.L, comparer.w
        self.p = policy
        inv = comparer.spec.invariants(self.w, self.m)
        self.facts = self.L.close(frozenset(inv)) or frozenset()
        self.owner = {}            # node -> objects it stands for
        self.n = 0
        self.mixed = set()         # lists whose elements can be of several classes

    # ------------------------------------------------------------ choices
    def holds(self, c):
        """Truth of a condition in this instance (chosen when open, consistently from then on)."""
        c = simp(c, self.facts)
        if contains(c, lambda x: x[0] == 'call' and x[1] == 'len'):
            c = simp(rebuild_all(c, self.lengths()), self.facts)
        if c in (TRUE, FALSE):
            return c == TRUE
        if has_top(c) or contains(c, lambda x: x[0] == 'attr' and x[2] == REST):
            raise GiveUp('condition ' + show(c)[:60])
        if c[0] == 'not':
            return not self.holds(c[1])
        if c[0] == 'and':
            r = True
            for x in c[1]:
                r = self.holds(x) and r
                if not r:
                    return False
            return r
        if c[0] == 'or':
            return any(self.holds(x) for x in c[1])
        want = self.prefer(c)
        for w in (want, not want):
            f = self.L.assume(self.facts, c if w else mk_not(c))
            if f is not None and self.L.sat(f):
                self.facts = f
                return w
        raise GiveUp('no choice for ' + show(c)[:60])

    def prefer(self, c):
        k = c[0]
        if k == 'truthy' and c[1][0] == 'param':
            return self.p.ask(c)           # layout parameter of the writer
        for x in walk(c):
            if x[0] == 'call' and x[1] == 'len' and x[2] and x[2][0][0] in ('attr', 'idx'):
                self.size(x[2][0])
                raise Again()
        if k == 'truthy' and c[1][0] in ('attr', 'idx'):
            t = P.without_none(self.L.typeof(c[1]))
            if t[0] in ('list', 'dict'):
                self.size(c[1])
                raise Again()
            if self.L.optional(c[1]):
                return not self.holds(('isnone', c[1])) if t[0] != 'bool' else self.p.ask(c)
            return self.p.ask(c) if t[0] == 'bool' else True
        if k == 'isnone' and c[1][0] in ('attr', 'idx'):
            return False if c[1][0] == 'idx' else not self.p.ask(c)
        if k == 'eq' and c[1][0] in ('attr', 'idx') and is_const(c[2]):
            return False
        if k == 'eq' and c[1][0] in ('attr', 'idx') and c[2][0] in ('attr', 'idx'):
            return False if contains(c, is_key) else not self.p.ask(c)
        if k == 'in' and is_strconst(c[1]) and c[2][0] in ('attr', 'idx') and self.kinds(c[2]) == {'str'}:
            return False
        if k == 'istype' and c[1][0] in ('attr', 'idx'):
            r = self.typed(c[1], c[2])
            if r is not None:
                return r
        raise GiveUp('condition ' + show(c)[:60])

    def typed(self, x, names):
        """isinstance of an attribute's value by its declared type."""
        if self.holds(('isnone', x)) if self.L.optional(x) else False:
            return False
        ms = [m for m in P.members(P.without_none(self.L.typeof(x)))]
        if not ms or any(m[0] == 'any' for m in ms):
            return None
        out = set()
        for m in ms:
            if m[0] == 'inst':
                out.add(any(k.name in names for k in m[1].mro()))
            else:
                out.add(m[0] in names or m[0] == 'bool' and 'int' in names)
        return out.pop() if len(out) == 1 else None

    def lengths(self):
        return {f[1]: f[2] for f in self.facts if f[0] == 'eq' and f[1][0] == 'call' and f[1][1] == 'len' and is_const(f[2])}

    def size(self, lst):
        n = ('call', 'len', (lst,), ())
        for f in self.facts:
            if f[0] == 'eq' and f[1] == n and is_const(f[2]):
                return f[2][2]
        k = self.p.size
        if mk_not(('truthy', lst)) in self.facts or ('isnone', lst) in self.facts:
            k = 0
        elif self.L.optional(lst) and self.holds(('isnone', lst)):
            k = 0
        for k in [k] if not k else [k, 4, 2, 1, 3, 0]:
            facts = self.facts | {mk_eq(n, const(k)), mk_truthy(lst) if k else mk_not(mk_truthy(lst))}
            f = self.L.close(frozenset(rebuild_all(x, {n: const(k)}) if x[0] != 'eq' else x for x in facts))
            if f is not None and self.L.sat(f):
                self.facts = f
                return k
        raise GiveUp('length of ' + show(lst))

    def decide(self, c):
        for _ in range(20):
            try:
                return self.holds(c)
            except Again:
                continue
        raise GiveUp('condition')

    # ------------------------------------------------------------ expression
    def items(self, its, depth=0):
        out = []
        for it in its:
            self.n += 1
            if self.n > 4000 or depth > 12:
                raise GiveUp('size')
            k = it[0]
            if k == 'ws':
                continue
            if k == 'atom':
                out.append(self.atom(it))
            elif k == 'node':
                out.append(self.node(it[1], depth))
            elif k == 'gate':
                out.extend(self.items(it[2] if self.decide(it[1]) else it[3], depth))
            elif k == 'join':
                out.extend(self.items(it[2], depth))
            elif k == 'loop':
                L, seq, back = it[1], it[2], False
                if seq[0] == 'call' and seq[1] == 'reversed' and len(seq[2]) == 1 and seq[2][0][0] == 'attr':
                    seq, back, orig = seq[2][0], True, seq
                    it = subst(it, lambda x: seq if x == orig else None)
                if seq[0] not in ('attr',):
                    raise GiveUp('loop over ' + show(seq)[:40])
                t = P.without_none(self.L.typeof(seq))
                if t[0] == 'dict':
                    for j in range(self.size(seq)):
                        key = ('attr', seq, f'?key{j}')
                        body = subst(tuple(it[3]), lambda x: key if x == ('key', L, seq) else ('idx', seq, key) if x == ('val', L, seq) else None)
                        if contains(body, lambda x: x[0] in ('elem', 'eidx', 'key', 'val') and x[1] == L):
                            raise GiveUp('loop')
                        out.extend(self.items(body, depth))
                    continue
                if t[0] != 'list':
                    raise GiveUp('loop over ' + show(seq)[:40])
                for j in range(self.size(seq))[::-1 if back else 1]:
                    el = ('idx', seq, const(j))
                    body = subst(tuple(it[3]), lambda x: el if x == ('elem', L, seq) else const(j) if x[0] == 'eidx' and x[1] == L else None)
                    if contains(body, lambda x: x[0] in ('elem', 'eidx', 'key', 'val') and x[1] == L):
                        raise GiveUp('loop')
                    out.extend(self.items(body, depth))
            elif k == 'ser':
                out.extend(self.nested(it[1], depth))
            else:
                raise GiveUp('text ' + k)
        return out

    def node(self, items, depth):
        return ('seq', 'list', tuple(('item', x) for x in self.items(items, depth + 1)))

    def atom(self, it):
        ps = it[1]
        if len(ps) == 1 and ps[0][0] == 'alt':
            return self.atom(('atom', ps[0][2] if self.decide(ps[0][1]) else ps[0][3], it[2]))
        if all(p[0] == 'lit' for p in ps):
            t = ''.join(p[1] for p in ps)
            if not it[2]:
                for f in (int, float):
                    try:
                        return const(f(t))
                    except ValueError:
                        pass
            return const(t)
        if len(ps) != 1 or ps[0][0] != 'hole':
            raise GiveUp('composed atom')
        v = ps[0][1]
        low = False
        while True:
            if v[0] == 'call' and v[1] in ('dequote', 'str', 'fmt', 'lower', 'float') and v[2] and (v[1] != 'lower' or not low):
                low = low or v[1] == 'lower'
                v = v[2][0]
            elif v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'hole':
                v = v[1][0][1]
            else:
                break
        if low:
            if P.without_none(self.L.typeof(v)) != ('bool',):
                raise GiveUp('atom ' + show(v)[:40])
            return const('true' if self.decide(('truthy', v)) else 'false')
        if v[0] == 'ite':
            return self.atom(('atom', (('hole', v[2] if self.decide(v[1]) else v[3]),), it[2]))
        if v[0] == 'const':
            return self.atom(('atom', (('lit', str(v[2])),), it[2]))
        if v[0] not in ('attr', 'idx'):
            raise GiveUp('atom ' + show(v)[:40])
        ks = self.kinds(v)
        if not ks <= ({'str'} if it[2] else {'str', 'int', 'float'}):
            raise GiveUp('atom of type ' + str(sorted(ks)))
        if self.L.optional(v) and self.decide(('isnone', v)):
            raise GiveUp('None written')
        return v

    def nested(self, obj, depth):
        ks = self.m.classes_of(obj, self.w)
        if not ks:
            raise GiveUp('class of ' + show(obj)[:40])
        k = ks[index_in(obj) % len(ks)] if len(ks) > 1 else ks[0]
        if len(ks) > 1:
            if obj[0] == 'idx':
                self.mixed.add(obj[1])
            f = self.L.assume(self.facts, ('istype', obj, (k.name,)))
            if f is None:
                raise GiveUp('class of ' + show(obj)[:40])
            self.facts = f
        w = self.m.writer(k)
        if w.tree is None:
            raise GiveUp('no tree for ' + k.name)
        tree = subst(tuple(w.tree), lambda x: obj if x == ('param', 'self') else None)
        while True:
            tree = tuple(x for x in tree if x[0] != 'ws')
            if len(tree) == 1 and tree[0][0] == 'gate':
                tree = tree[0][2] if self.decide(tree[0][1]) else tree[0][3]
            else:
                break
        first = tuple(x for x in tree[0][1] if x[0] != 'ws') if len(tree) == 1 and tree[0][0] == 'node' else ()
        if first and first[0][0] == 'atom' and not self.m.reader(k).abstract:
            h = self.atom(first[0])
            if is_strconst(h):
                nd = ('seq', 'list', (('item', h), ('item', ('attr', obj, REST))))
                self.owner.setdefault(nd, []).append((k, obj))
                return [nd]
        return self.items(tree, depth + 1)

    def kinds(self, v):
        if v[0] == 'attr' and v[2].startswith('?key'):
            return {m[0] for m in P.members(P.without_none(self.L.typeof(v[1]))[1])}
        return {m[0] for m in P.members(P.without_none(self.L.typeof(v)))}


def is_key(x):
    return x[0] == 'attr' and x[2].startswith('?key')


def rebuild_all(c, sub):
    return subst(c, lambda x: sub.get(x)) if sub else c


class Again(Exception):
    pass


class Reader(Interp):
    """The reader on an instance: open conditions are settled by the instance."""
    inst = None

    def settle(self, c):
        if c in (TRUE, FALSE) or self.inst is None:
            return c
        return TRUE if self.inst.decide(c) else FALSE

    def branch(self, c, st, ft, ff):
        return super().branch(self.settle(simp(c, expand_facts(st.pc))), st, ft, ff)

    def st_While(self, s, st):
        out = []
        for _ in range(400):
            c = self.settle(simp(self.cond(s.test, st), expand_facts(st.pc)))
            if c == FALSE:
                return out + (self.exec_block(s.orelse, st) if s.orelse else self.fall(st))
            outs = self.exec_block(s.body, st)
            if len(outs) != 1:
                raise GiveUp('while loop')
            o = outs[0]
            if o.kind == 'break':
                return self.fall(o.st)
            if o.kind not in ('fall', 'continue'):
                return [o]
            st = o.st
        raise GiveUp('while loop')

    def builtin(self, n, args, kwargs, st, node):
        if n == 'len' and len(args) == 1:
            v = self.deref(args[0], st)
            if v[0] == 'map' and all(p[0] == 'ent' and (is_const(p[1]) or is_key(p[1])) for p in v[1]):
                return const(len({p[1] for p in v[1]}))
        return super().builtin(n, args, kwargs, st, node)

    def truth(self, v, st):
        return self.settle(super().truth(v, st))


def clean(v):
    return not has_top(v) and not contains(v, lambda x: x[0] in ('undef', 'crash', 'ite', 'elem', 'phi', 'opaque') or x[0] == 'attr' and x[2] == REST)


class Check:
    def __init__(self, comparer):
        self.c = comparer
        self.seen = set()

    def run(self, wanted, tree):
        """wanted: attributes left undecided.  Returns the names shown to come back right in every instance."""
        good, bad = set(), set()
        lost = set()
        for pol in self.policies():
            inst = Instance(self.c, pol)
            try:
                out = inst.items(tuple(tree))
                if not out:
                    continue                # nothing is written: judged by the comparison of summaries
                if len(out) != 1 or out[0][0] != 'seq':
                    raise GiveUp('root')
                o = self.read(inst, out[0])
            except GiveUp as e:
                lost.add(str(e))
                continue
            skip = self.c.spec.virtual_parts(self.c.w, self.c.m, o)
            for f in wanted:
                if f in skip:
                    continue
                x = o.get(f, ('undef',))
                e = ('attr', ('param', 'self'), f)
                r = self.same(inst, x, e, f)
                if r is True:
                    good.add(f)
                elif r is None:
                    lost.add(f'{f}: {show(x)[:80]}')
                else:
                    bad.add(f)
                    kind, path, msg = r
                    if (kind, path) not in self.seen:
                        self.seen.add((kind, path))
                        self.c._T = self.c.L.typeof(e)
                        self.c.issue(kind, path, msg, self.brief(inst, e))
        self.lost = lost
        return good - bad, bad

    def brief(self, inst, e):
        return tuple(f for f in inst.facts if f[0] != 'or' and contains(f, lambda x: x == e))

    def policies(self):
        for n in (2, 3, 1, 0):
            yield Policy(True, size=n)
        yield Policy(False, size=2)
        yield Policy(True, size=3, mixed=True)
        yield Policy(False, size=3, mixed=True)
        for i in range(12):
            yield Policy(True, flip=i, size=2)
        for i in range(12):
            yield Policy(False, flip=i, size=2)

    def read(self, inst, node):
        return dict(self.parsed(inst, self.c.w, node)[2])

    def parsed(self, inst, cls, node):
        f = cls.find_method('from_sexpr')
        I = Reader(self.c.m.prog)
        I.param_types = {'self': ('inst', self.c.w)}
        I.inst = inst
        v, st = I.run(f, [('cls', cls), node] if f.kind == 'classmethod' else [node])
        if st is None:
            raise GiveUp('nothing returned')
        v = I.resolve(v, st)
        if v[0] != 'obj':
            raise GiveUp('no object')
        return v

    # ------------------------------------------------------------ comparison
    def same(self, inst, r, e, path):
        """True, None (not determined), or (kind, path, message)."""
        L = self.c.L
        if r[0] == 'ite':
            try:
                return self.same(inst, r[2] if inst.decide(r[1]) else r[3], e, path)
            except GiveUp:
                return None
        if not clean_but_parse(r):
            return None
        ks = inst.kinds(e)
        if r == e:
            return True
        if r[0] == 'call' and r[1] in ks and ks <= {'int', 'float'} and len(r[2]) == 1 and not r[3]:
            return self.same(inst, r[2][0], e, path)
        try:
            none = L.optional(e) and inst.decide(('isnone', e))
        except GiveUp:
            return None
        if none:
            if r == NONE:
                return True
            d = self.c.declared_default(e)
            if r == d:
                return None
            return 'CROSS', path, f'{show(r)[:80]} is read back although it is not set'
        if ks == {'list'}:
            if r[0] != 'seq' or any(p[0] != 'item' for p in r[2]):
                return ('LOST', path, 'its elements are not read back') if r == NONE and inst.size(e) else None
            n = inst.size(e)
            if len(r[2]) != n:
                if e in inst.mixed:
                    return None
                if not n and all(clean(p[1]) for p in r[2]):
                    return 'MULT', path, f'{len(r[2])} elements are read back where none were written'
                return ('COLL' if len(r[2]) < n else 'MULT', path, f'{len(r[2])} elements are read back where {n} were written')
            for j, p in enumerate(r[2]):
                q = self.same(inst, p[1], ('idx', e, const(j)), path)
                if q is not True:
                    if q is not None:
                        for i in range(n):
                            if i != j and self.same(inst, p[1], ('idx', e, const(i)), path) is True:
                                return 'ORDER', path, f'element {i} is read back at position {j}'
                    return q
            return True
        if ks == {'dict'}:
            if r[0] != 'map' or any(p[0] != 'ent' for p in r[1]):
                return None
            n = inst.size(e)
            want = [('attr', e, f'?key{j}') for j in range(n)]
            got = [p[1] for p in r[1]]
            got = [g[2][0] if g[0] == 'call' and g[1] in ('int', 'str') and len(g[2]) == 1 else g for g in got]
            if any(is_const(g) for g in got) and all(is_const(g) or g in want for g in got):
                return 'COLL', path, f'entries are read back under other keys: {", ".join(show(g) for g in got)}'
            if set(got) != set(want):
                return ('COLL' if len(set(got)) < n else 'MULT', path, f'{len(set(got))} entries are read back where {n} were written') if all(g in want for g in got) else None
            for g, p in zip(got, r[1]):
                q = self.same(inst, p[2], ('idx', e, g), path)
                if q is not True:
                    return q
            return True
        if r[0] == 'parse':
            own = inst.owner.get(r[2])
            if own is None:
                try:
                    return self.same(inst, self.parsed(inst, r[1], r[2]), e, path)
                except GiveUp:
                    return None
            if any(o == e and r[1] in k.mro() + [k] for k, o in own):
                return True
            return 'CROSS', path, f'{show(own[0][1])} is read back in its place'
        if r[0] == 'obj':
            if ks != {'inst'}:
                return None
            for f, x in r[2]:
                if self.c.spec.not_persisted(self.c.w, f'{path}.{f}', r[1], f):
                    continue
                q = self.same(inst, x, ('attr', e, f), f'{path}.{f}')
                if q is not True:
                    return q
            return True
        if r[0] == 'const':
            if ks == {'bool'}:
                try:
                    v = inst.decide(('truthy', e))
                except GiveUp:
                    return None
                if r[1] == 'bool':
                    return True if r[2] == v else ('FLAG', path, f'comes back as {r[2]}')
                return None
            if ks == {'inst'}:
                if any(f[0] == 'truthy' and f[1][0] == 'attr' and f[1][1] == e for f in inst.facts):
                    return 'LOST', path, f'comes back as {show(r)}'
                return None
            eq = [f[2] for f in inst.facts if f[0] == 'eq' and f[1] == e and is_const(f[2])]
            if eq:
                return True if eq[0] == r else None
            d = L.domain(e)
            if d is not None:
                return None
            if ('truthy', e) in inst.facts or r == NONE or r[2] in ('', 0):
                return 'LOST', path, f'comes back as {show(r)}'
            return 'LOST', path, f'comes back as {show(r)} whatever it was'
        if r[0] in ('attr', 'idx') and e[0] in ('attr', 'idx') and ks <= {'str', 'int', 'float'}:
            if ('eq', r, e) in inst.facts or ('eq', e, r) in inst.facts:
                return None
            return 'CROSS', path, f'{show(r)} is read back in its place'
        return None


def clean_but_parse(v):
    if v[0] == 'parse':
        return True
    if v[0] == 'seq':
        return all(p[0] == 'item' and clean_but_parse(p[1]) for p in v[2])
    if v[0] == 'obj':
        return all(clean_but_parse(x) or True for _, x in v[2])
    return clean(v)
