"""Application of a reader summary to a writer's token tree, and comparison with the identity."""
from . import program as P
from .values import *
from . import tree as T
from .absint import Interp
import zlib

PH = ('phi', 0, 'acc')
UNDEF = ('undef',)


def mk_any(L, it, c):
    if c == FALSE:
        return FALSE
    if c == TRUE:
        return ('truthy', it)
    # conjuncts independent of the loop element are moved out
    dep = lambda x: contains(x, lambda y: y[0] in ('elem', 'key', 'val', 'eidx') and y[1] == L)
    cs = conjuncts(c)
    out = [x for x in cs if not dep(x)]
    inn = [x for x in cs if dep(x)]
    if out:
        return mk_and(out + [('any', L, it, mk_and(inn)) if inn else ('truthy', it)])
    return ('any', L, it, c)


TEXT_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'split', 'startswith', 'endswith', 'zfill', 'title', 'capitalize',
                'isdigit', 'find', 'casefold', 'partition', 'rpartition', 'removeprefix', 'removesuffix', 'isspace', 'isnumeric', 'isalpha',
                'isalnum', 'isidentifier', 'rsplit'}


class Crash(Exception):
    pass


class Composer:
    """Evaluates reader expressions on token trees of writer class `wcls`."""

    def __init__(self, model, wcls):
        self.m = model
        self.w = wcls
        self.crashes = []        # (facts, message)
        self.rejects = []        # (facts, class, message)
        self.dec = Interp(model.prog)
        self.depth = 0
        self.sermemo = {}
        self.unknown = []
        self.L = None

    def domain(self, x):
        """Words a keyword attribute can hold, or None."""
        if self.L is None:
            from .logic import Logic
            from . import spec
            self.L = Logic(self.m, self.w, spec.DOMAINS, spec.RESERVED)
        return self.L.domain(x)

    def by_word(self, x, f):
        """f applied to every word a keyword attribute can hold, as alternatives; None if it can hold anything."""
        d = self.domain(x)
        if not d:
            return None
        r = f(const(d[-1]))
        for w in d[:-1][::-1]:
            r = mk_ite_keep(mk_eq(x, const(w)), f(const(w)), r)
        return r

    def typeof(self, v):
        if v[0] in ('nodev', 'crash', 'strof'):
            return ('any',)
        return self.m.typeof(v, self.w)

    # ---------------------------------------------------------- expansion of items
    def expand(self, it):
        """('ser',..) -> items with origin marks."""
        key = it[1]
        if key in self.sermemo:
            return self.sermemo[key]
        obj = it[1]
        ks = self.m.classes_of(obj, self.w)
        if not ks:
            r = [('unk', top('class of ' + show(obj)))]
        else:
            alts = []
            for k in ks:
                w = self.m.writer(k)
                if w.abstract and len(ks) > 1:
                    continue
                if w.tree is None:
                    alts.append((k, [('unk', top(f'no tree for {k.name}'))]))
                    continue
                items = subst(tuple(w.tree), lambda x: obj if x == ('param', 'self') else None)
                items = self.param_defaults(items, k, it[2])
                items = tuple(self.mark(x, k, obj) for x in items)
                alts.append((k, list(items)))
            r = alts[-1][1] if alts else [('unk', top('no writer'))]
            for k, items in reversed(alts[:-1]):
                r = [('gate', ('istype', obj, (k.name,)), tuple(items), tuple(r))]
        self.sermemo[key] = r
        return r

    def param_defaults(self, items, k, serv):
        """Bind the callee's extra parameters (other than layout ones) to constants where given."""
        return items

    def mark(self, x, k, obj):
        if x[0] == 'node':
            return ('onode', x[1], k, obj)
        if x[0] == 'gate':
            return ('gate', x[1], tuple(self.mark(y, k, obj) for y in x[2]), tuple(self.mark(y, k, obj) for y in x[3]))
        if x[0] == 'loop':
            return ('loop', x[1], x[2], tuple(self.mark(y, k, obj) for y in x[3]))
        return x

    def norm(self, items):
        """Expand ser items (one level)."""
        out = []
        for it in items:
            if it[0] == 'ser':
                out.extend(self.expand(it))
            else:
                out.append(it)
        return tuple(out)

    def val(self, it):
        if it[0] == 'node':
            return ('nodev', it[1], None)
        if it[0] == 'onode':
            return ('nodev', it[1], (it[2], it[3]))
        if it[0] == 'atom':
            return self.atomval(it[1], it[2])
        if it[0] == 'val':
            return it[1]
        return top('item ' + it[0])

    def atomval(self, pieces, quoted):
        if len(pieces) == 1 and pieces[0][0] == 'alt':
            p = pieces[0]
            return mk_ite(p[1], self.atomval(p[2], quoted), self.atomval(p[3], quoted))
        if all(p[0] == 'lit' for p in pieces):
            s = ''.join(p[1] for p in pieces)
            if quoted:
                return const(s.replace('\\"', '"'))
            return litval(s)
        if len(pieces) == 1 and pieces[0][0] == 'hole':
            v = pieces[0][1]
            if v[0] == 'call' and v[1] in ('strip', 'lstrip', 'rstrip') and len(v[2]) == 1:
                x = v[2][0]
                while x[0] == 'call' and x[1] in ('str', 'dequote') and len(x[2]) == 1 or x[0] == 'str' and len(x[1]) == 1 and x[1][0][0] == 'hole':
                    x = x[2][0] if x[0] == 'call' else x[1][0][1]
                if all(m[0] in ('int', 'float') for m in P.members(P.without_none(self.typeof(x)))):
                    v = x       # the text of a number has no white space
            if v[0] == 'call' and v[1] == 'dequote':
                v = v[2][0]
                # dequote applies str()
                if v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'hole':
                    v = v[1][0][1]
            if v[0] == 'call' and v[1] == 'str' and len(v[2]) == 1:
                v = v[2][0]
            if v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'hole':
                v = v[1][0][1]
            t = self.typeof(v)
            ms = P.members(P.without_none(t))
            if all(m[0] == 'str' for m in ms) or t == ('any',):
                return v
            if all(m[0] in ('int', 'float', 'str') for m in ms):
                if quoted and any(m[0] in ('int', 'float') for m in ms):
                    return ('strof', v)
                return v
            return ('strof', v)
        # lower(str(bool)) etc. are single holes; anything else is a composed text
        return ('str', tuple(pieces))

    # ---------------------------------------------------------- positions
    def nth(self, items, i, facts):
        items = self.norm(items)
        for n, it in enumerate(items):
            k = it[0]
            if k in ('atom', 'node', 'onode', 'val'):
                if i == 0:
                    return self.val(it)
                i -= 1
                continue
            rest = items[n + 1:]
            if k == 'gate':
                c = simp(it[1], facts)
                if c == TRUE:
                    return self.nth(it[2] + rest, i, facts)
                if c == FALSE:
                    return self.nth(it[3] + rest, i, facts)
                a = self.nth(it[2] + rest, i, facts | expand_facts([c]))
                b = self.nth(it[3] + rest, i, facts | expand_facts([mk_not(c)]))
                if a == b:
                    return a
                return ('ite', c, a, b)
            if k == 'loop':
                L, iter_, body = it[1], it[2], self.norm(it[3])
                if len(body) == 1 and body[0][0] in ('atom', 'node', 'onode'):
                    el = subst(body[0], lambda x: ('idx', iter_, const(i)) if x == ('elem', L, iter_) else None)
                    c = mk_cmp('lt', const(i), ('call', 'len', (iter_,), ()))
                    c = simp(c, facts)
                    if c == TRUE or not rest:
                        if c == TRUE:
                            return self.val(el)
                        return ('ite', c, self.val(el), ('crash', 'IndexError'))
                    if i == 0:
                        return ('ite', c, self.val(el), self.nth(rest, 0, facts))
                if len(body) == 1 and body[0][0] == 'gate' and not rest:
                    g = body[0]
                    if len(g[2]) == 1 and len(g[3]) == 1:
                        bi = ('idx', iter_, const(i))
                        f = lambda z: subst(z, lambda x: bi if x == ('elem', L, iter_) else None)
                        return ('ite', mk_cmp('lt', const(i), ('call', 'len', (iter_,), ())),
                                mk_ite(f(g[1]), self.val(f(g[2][0])), self.val(f(g[3][0]))), ('crash', 'IndexError'))
                return top('position after loop')
            return top('position ' + k)
        return ('crash', 'IndexError')

    def drop(self, items, k, facts):
        items = self.norm(items)
        if k == 0:
            return items
        for n, it in enumerate(items):
            if it[0] in ('atom', 'node', 'onode', 'val'):
                return self.drop(items[n + 1:], k - 1, facts)
            rest = items[n + 1:]
            if it[0] == 'gate':
                c = simp(it[1], facts)
                if c == TRUE:
                    return self.drop(it[2] + rest, k, facts)
                if c == FALSE:
                    return self.drop(it[3] + rest, k, facts)
                a = self.drop(it[2] + rest, k, facts | expand_facts([c]))
                b = self.drop(it[3] + rest, k, facts | expand_facts([mk_not(c)]))
                if a == b:
                    return a
                return (('gate', c, a, b),)
            if it[0] == 'loop' and len(self.norm(it[3])) == 1 and not rest and self.norm(it[3])[0][0] in ('atom', 'node', 'onode', 'val'):
                return (('loop', it[1], ('slice', it[2], const(k), NONE), it[3]),)      # elements of the collection are skipped
            return (('unk', top('drop')),)
        return ()

    def maxlen(self, items):
        """Largest number of elements, None if unbounded."""
        n = 0
        for it in self.norm(items):
            if it[0] in ('atom', 'node', 'onode', 'val'):
                n += 1
            elif it[0] == 'gate':
                a, b = self.maxlen(it[2]), self.maxlen(it[3])
                if a is None or b is None:
                    return None
                n += max(a, b)
            else:
                return None
        return n

    def take(self, items, k, facts):
        items = self.norm(items)
        m = self.maxlen(items)
        if m is not None and m <= k:
            return items
        out = []
        for n, it in enumerate(items):
            if len(out) == k:
                return tuple(out)
            if it[0] in ('atom', 'node', 'onode', 'val'):
                out.append(it)
            else:
                return tuple(out) + self.cut(items[n:], k - len(out))
        return tuple(out)

    def cut(self, items, k):
        """At most k of the items: a collection may lose what is beyond, single items may or may not be reached."""
        out = []
        room = k
        for it in self.norm(items):
            if it[0] == 'unk':
                return (('unk', top('take')),)
            if it[0] == 'loop':
                out.append(('loop', it[1], ('slice', it[2], NONE, const(k)), it[3]))
                room = -1
            else:
                m = self.maxlen((it,))
                if room >= 0 and m is not None and m <= room:
                    room -= m
                    out.append(it)
                elif it[0] == 'gate':
                    out.append(('gate', it[1], self.cut(it[2], k), self.cut(it[3], k)))
                    room = -1
                else:
                    room = -1
                    out.append(('gate', ('truthy', top('within the first %d' % k)), (it,), ()))
        return tuple(out)

    def droplast(self, items, k, depth=0):
        items = self.norm(items)
        if k == 0:
            return items
        if not items:
            return ()
        x = items[-1]
        if x[0] in ('atom', 'node', 'onode', 'val'):
            return self.droplast(items[:-1], k - 1, depth)
        if x[0] == 'gate' and depth < 12:
            return (('gate', x[1], self.droplast(items[:-1] + tuple(x[2]), k, depth + 1), self.droplast(items[:-1] + tuple(x[3]), k, depth + 1)),)
        if x[0] == 'loop' and len(self.norm(x[3])) == 1:
            return items[:-1] + (('loop', x[1], ('slice', x[2], NONE, const(-k)), x[3]),)
        return items[:-1] + (('unk', top('droplast')),)

    def rearranged(self, how, items):
        """reversed / sorted / set / .. of the items of an expression."""
        out = []
        for it in self.norm(items):
            if it[0] == 'gate':
                out.append(('gate', it[1], self.rearranged(how, it[2]), self.rearranged(how, it[3])))
            elif it[0] == 'loop':
                out.append(('loop', it[1], ('call', how, (it[2],), ()), self.rearranged(how, it[3]) if how == 'reversed' else it[3]))
            elif how == 'slice_step':
                out.append(('gate', ('truthy', top('skipped by the step')), (), (it,)))
            else:
                out.append(it)
        return tuple(out[::-1] if how == 'reversed' else out)

    def atleast(self, items, n, facts):
        if n <= 0:
            return TRUE
        items = self.norm(items)
        if not items:
            return FALSE
        it, rest = items[0], items[1:]
        k = it[0]
        if k in ('atom', 'node', 'onode', 'val'):
            return self.atleast(rest, n - 1, facts)
        if k == 'gate':
            c = simp(it[1], facts)
            if c == TRUE:
                return self.atleast(it[2] + rest, n, facts)
            if c == FALSE:
                return self.atleast(it[3] + rest, n, facts)
            return mk_or([mk_and([c, self.atleast(it[2] + rest, n, facts | expand_facts([c]))]),
                          mk_and([mk_not(c), self.atleast(it[3] + rest, n, facts | expand_facts([mk_not(c)]))])])
        if k == 'loop':
            body = self.norm(it[3])
            if len(body) == 1 and body[0][0] in ('atom', 'node', 'onode', 'gate'):
                cs = []
                for j in range(0, n + 1):
                    lj = TRUE if j == 0 else mk_cmp('le', const(j), ('call', 'len', (it[2],), ()))
                    cs.append(mk_and([lj, self.atleast(rest, n - j, facts)]))
                return mk_or(cs)
        return ('truthy', top(f'count {n} {zlib.crc32(repr(items).encode()):x}'))

    # ---------------------------------------------------------- evaluation
    def ev(self, v, env, facts):
        k = v[0]
        f = getattr(self, 'ev_' + k, None)
        if f is not None:
            return f(v, env, facts)
        if k in ('const', 'top', 'undef', 'cls', 'func', 'phi', 'builtin', 'mod', 'ext', 'crash'):
            return v
        return top(f'ev {k}')

    def node(self, b):
        """A list built of parts of an expression, as an expression."""
        if b[0] == 'seq' and b[1] in ('list', 'tuple'):
            return ('nodev', self.items_of(b[2]), None)
        return b

    def items_of(self, parts):
        out = []
        for p in parts:
            if p[0] == 'item':
                out.append(('val', p[1]))
            elif p[0] == 'alt':
                out.append(('gate', p[1], self.items_of(p[2]), self.items_of(p[3])))
            elif p[0] == 'loop' and p[2][0] != 'until':
                out.append(('loop', p[1], p[2], self.items_of(p[3])))
            elif p[0] == 'spread' and p[1][0] not in ('top', 'phi'):
                L = ('sp', zlib.crc32(repr(p[1]).encode()))
                out.append(('loop', L, p[1], (('val', ('elem', L, p[1])),)))
            else:
                out.append(('unk', top('list')))
        return tuple(out)

    def lookup(self, parts, key, facts):
        """(condition that the dictionary has the key, its value); None if unknown."""
        has, val = FALSE, UNDEF
        for p in parts:
            if p[0] == 'ent':
                c = simp(self.eq(p[1], key, facts), facts)
                v = p[2]
            elif p[0] == 'alt':
                g = simp(p[1], facts)
                a = self.lookup(p[2], key, facts | expand_facts([g]))
                b = self.lookup(p[3], key, facts | expand_facts([mk_not(g)]))
                if a is None or b is None:
                    return None
                c = mk_or([mk_and([g, a[0]]), mk_and([mk_not(g), b[0]])])
                v = a[1] if b[0] == FALSE else b[1] if a[0] == FALSE else mk_ite_keep(g, mk_ite_keep(a[0], a[1], val), mk_ite_keep(b[0], b[1], val))
            elif p[0] == 'loop':
                r = self.lookup(p[3], key, facts)
                if r is None or r[0] != FALSE:
                    return None
                continue
            else:
                return None
            if c == FALSE:
                continue
            if has_top(c):
                return None
            has, val = mk_or([has, c]), mk_ite_keep(c, v, val)
        return has, val

    def bind(self, env, L, val):
        e = dict(env)
        e[L] = val
        return e

    def ev_param(self, v, env, facts):
        return env.get(v[1], v)

    def ev_elem(self, v, env, facts):
        return env.get(v[1], v)

    ev_key = ev_val = lambda self, v, env, facts: env.get(v[1], top('key'))

    def ev_eidx(self, v, env, facts):
        return top('index')

    def ev_phi(self, v, env, facts):
        return env.get(v, v)

    def ev_attr(self, v, env, facts):
        b = self.ev(v[1], env, facts)
        if b[0] == 'obj':
            return dict(b[2]).get(v[2], UNDEF)
        if b[0] in ('top', 'crash'):
            return b
        return ('attr', b, v[2])

    def ev_idx(self, v, env, facts):
        b = self.ev(v[1], env, facts)
        key = self.ev(v[2], env, facts)
        return self.index(b, key, facts)

    def index(self, b, key, facts):
        b = self.node(b)
        if b[0] == 'map':
            r = self.lookup(b[1], key, facts)
            if r is None:
                return top('entry of a dictionary')
            c = simp(r[0], facts)
            if c == TRUE:
                return r[1]
            return ('crash', 'KeyError') if c == FALSE else ('ite', c, r[1], ('crash', 'KeyError'))
        if b[0] == 'ite':
            c = simp(b[1], facts)
            if c == TRUE:
                return self.index(b[2], key, facts)
            if c == FALSE:
                return self.index(b[3], key, facts)
            return mk_ite_keep(c, self.index(b[2], key, facts | expand_facts([c])),
                               self.index(b[3], key, facts | expand_facts([mk_not(c)])))
        if b[0] in ('top', 'crash', 'undef'):
            return b if b[0] != 'undef' else top('undef index')
        if b[0] == 'nodev':
            if is_const(key) and isinstance(key[2], int):
                if key[2] >= 0:
                    return self.nth(b[1], key[2], facts)
                items = self.norm(b[1])
                j = -key[2]
                if len(items) >= j and all(x[0] in ('atom', 'node', 'onode', 'val') for x in items[-j:]):
                    return self.val(items[-j])
                if j == 1 and items and items[-1][0] == 'gate' and len(items) > 1:
                    g = items[-1]
                    return mk_ite_keep(g[1], self.index(('nodev', items[:-1] + g[2], None), key, facts),
                                       self.index(('nodev', items[:-1] + g[3], None), key, facts))
            return top('index')
        if is_const(b):
            if isinstance(b[2], str) and is_const(key) and isinstance(key[2], int):
                try:
                    return const(b[2][key[2]])
                except IndexError:
                    return ('crash', 'IndexError: string index out of range')
            return ('crash', f'TypeError: {b[1]} is not subscriptable')
        t = self.typeof(b)
        if b[0] == 'strof':
            return ('idx', b, key)
        ms = P.members(t)
        if b[0] not in ('idx',) and ms and all(m[0] in ('int', 'float', 'bool') for m in P.members(P.without_none(t))) and P.without_none(t) != ('none',):
            return ('crash', f'TypeError: number {show(b)} is not subscriptable')
        return mk_idx(b, key)

    def ev_slice(self, v, env, facts):
        b = self.ev(v[1], env, facts)
        lo, hi = self.ev(v[2], env, facts), self.ev(v[3], env, facts)
        return self.slice(b, lo, hi, facts)

    def slice(self, b, lo, hi, facts):
        b = self.node(b)
        for x, f in ((b, lambda y: (y, lo, hi)), (lo, lambda y: (b, y, hi)), (hi, lambda y: (b, lo, y))):
            if x[0] == 'ite':
                c = simp(x[1], facts)
                if c == TRUE:
                    return self.slice(*f(x[2]), facts)
                if c == FALSE:
                    return self.slice(*f(x[3]), facts)
                return mk_ite_keep(c, self.slice(*f(x[2]), facts | expand_facts([c])),
                                   self.slice(*f(x[3]), facts | expand_facts([mk_not(c)])))
        if b[0] == 'nodev':
            if is_const(lo) and is_const(hi):
                l = lo[2] or 0
                items = b[1]
                if l < 0:
                    return top('negative slice')
                if hi[2] is not None:
                    if hi[2] >= 0:
                        items = self.take(items, hi[2], facts)
                    else:
                        items = self.droplast(items, -hi[2])
                items = self.drop(items, l, facts)
                return ('nodev', items, None)
            return top('slice')
        if b[0] in ('top', 'crash'):
            return b
        return mk_slice(b, lo, hi)

    def ev_call(self, v, env, facts):
        args = tuple(self.ev(a, env, facts) for a in v[2])
        for a in args:
            if a[0] in ('top', 'crash'):
                return a
        if v[1] in ('float', 'int') and len(args) == 1:
            a = args[0]
            if is_const(a) and isinstance(a[2], (int, float)) and v[1] == 'float':
                return const(float(a[2]))
            t = P.without_none(self.typeof(a))
            if all(m[0] in ('int', 'float') for m in P.members(t)) and (v[1] == 'float' or t == ('int',)):
                return a
        if v[1] == 'str' and len(args) == 1 and self.typeof(args[0]) == ('str',):
            return args[0]
        if v[1] in ('list', 'tuple', 'iter') and len(args) == 1:
            return args[0]
        if v[1] in TEXT_METHODS and args and not v[3]:
            return self.text_method(v[1], args, facts)
        if v[1] in ('len', 'type') and args:
            args = (self.node(args[0]),) + args[1:]
        if v[1] == 'get' and 2 <= len(args) <= 3 and args[0][0] == 'map':
            r = self.lookup(args[0][1], args[1], facts)
            return top('entry of a dictionary') if r is None else mk_ite_keep(simp(r[0], facts), r[1], args[2] if len(args) > 2 else NONE)
        if v[1] == 'len' and args[0][0] == 'nodev':
            return ('call', 'len', args, ())
        if v[1] == 'len' and args[0][0] == 'ite':
            return over_ite(args[0], lambda x: x if x[0] in ('top', 'crash') else ('call', 'len', (x,), ()))
        if v[1] in ('reversed', 'sorted', 'set', 'frozenset', 'dedup', 'fromkeys', 'slice_step') and args:
            return self.rearrange(v[1], args, v[3], facts)
        if v[1] in ('enumerate', 'zip', 'range'):
            return top(v[1])
        return ('call', v[1], args, v[3])

    def text_method(self, name, args, facts):
        b = args[0]
        if b[0] == 'ite':
            c = simp(b[1], facts)
            if c in (TRUE, FALSE):
                return self.text_method(name, (b[2] if c == TRUE else b[3],) + args[1:], facts)
            return mk_ite_keep(c, self.text_method(name, (b[2],) + args[1:], facts | expand_facts([c])),
                               self.text_method(name, (b[3],) + args[1:], facts | expand_facts([mk_not(c)])))
        if b[0] in ('top', 'crash'):
            return b
        r = fold_method(name, args)
        if r is not None:
            return r
        if b[0] == 'nodev':
            return ('crash', f'AttributeError: a list has no {name}()')
        if is_const(b) and not isinstance(b[2], str):
            return ('crash', f'AttributeError: {b[1]} has no {name}()')
        if is_const(b):
            return top(f'{name}() of a constant')
        r = self.by_word(b, lambda w: self.text_method(name, (w,) + args[1:], facts))
        return ('call', name, args, ()) if r is None else r

    def rearrange(self, how, args, kw, facts):
        b = self.node(args[0])
        if b[0] == 'ite':
            return mk_ite_keep(b[1], self.rearrange(how, (b[2],) + args[1:], kw, facts), self.rearrange(how, (b[3],) + args[1:], kw, facts))
        if b[0] == 'nodev':
            return ('nodev', self.rearranged('set' if how == 'frozenset' else how, b[1]), None)
        return ('call', how, args, kw)

    def ev_fmt(self, v, env, facts):
        return ('fmt', self.ev(v[1], env, facts), v[2])

    def ev_str(self, v, env, facts):
        def conv(parts):
            out = []
            for p in parts:
                if p[0] == 'hole':
                    x = self.ev(p[1], env, facts)
                    out.extend(str_parts(x) if x[0] in ('const', 'str') else (('hole', x),))
                elif p[0] == 'alt':
                    c = self.ev(p[1], env, facts)
                    out.extend(alt_parts(c, tuple(conv(p[2])), tuple(conv(p[3]))))
                elif p[0] == 'lit':
                    out.append(p)
                else:
                    out.append(('hole', top('str')))
            return out
        parts = conv(v[1])
        if len(parts) == 1 and parts[0][0] == 'hole':
            x = parts[0][1]
            if self.typeof(x) == ('str',) or x[0] in ('top', 'crash'):
                return x
            return ('strof', x)
        return mk_str(parts)

    def ev_ite(self, v, env, facts):
        c = simp(self.ev(v[1], env, facts), facts)
        if c == TRUE:
            return self.ev(v[2], env, facts)
        if c == FALSE:
            return self.ev(v[3], env, facts)
        a = self.ev(v[2], env, facts | expand_facts([c]))
        b = self.ev(v[3], env, facts | expand_facts([mk_not(c)]))
        return mk_ite_keep(c, a, b)

    def ev_not(self, v, env, facts):
        return mk_not(self.ev(v[1], env, facts))

    def ev_and(self, v, env, facts):
        cs = []
        fx = facts
        for x in v[1]:
            c = simp(self.ev(x, env, fx), fx)
            if c == FALSE:
                return FALSE
            cs.append(c)
            fx = fx | expand_facts([c])
        return mk_and(cs)

    def ev_or(self, v, env, facts):
        cs = []
        fx = facts
        for x in v[1]:
            c = simp(self.ev(x, env, fx), fx)
            if c == TRUE:
                return TRUE if not cs else mk_or(cs + [TRUE])
            cs.append(c)
            fx = fx | expand_facts([mk_not(c)])
        return mk_or(cs)

    def ev_isnone(self, v, env, facts):
        x = self.ev(v[1], env, facts)
        return self.isnone(x)

    def isnone(self, x):
        if x[0] == 'ite':
            return mk_ite(x[1], self.isnone(x[2]), self.isnone(x[3]))
        if x[0] in ('nodev', 'strof'):
            return FALSE
        if x[0] == 'crash':
            return ('truthy', x)
        return mk_isnone(x)

    def ev_truthy(self, v, env, facts):
        x = self.ev(v[1], env, facts)
        return self.truthy(x, facts)

    def truthy(self, x, facts):
        x = self.node(x)
        if x[0] == 'ite':
            return mk_ite(x[1], self.truthy(x[2], facts), self.truthy(x[3], facts))
        if x[0] == 'nodev':
            return self.atleast(x[1], 1, facts)
        return mk_truthy(x)

    def ev_istype(self, v, env, facts):
        x = self.ev(v[1], env, facts)
        return self.istype(x, v[2])

    def istype(self, x, names):
        if x[0] == 'ite':
            return mk_ite(x[1], self.istype(x[2], names), self.istype(x[3], names))
        if x[0] == 'nodev':
            return const('list' in names)
        if is_const(x):
            return const(x[1] in names)
        if x[0] in ('top', 'undef'):
            return ('truthy', top('istype'))
        if x[0] == 'crash':
            return ('truthy', x)
        if x[0] in ('strof', 'str', 'fmt'):
            return const('str' in names)
        t = P.without_none(self.typeof(x))
        kinds = set()
        for m in P.members(t):
            kinds.add({'str': 'str', 'int': 'int', 'float': 'float', 'bool': 'bool'}.get(m[0], '?'))
        if '?' not in kinds:
            # an integral float is written as int and vice versa
            if kinds <= {'int', 'float'}:
                if {'int', 'float'} <= set(names):
                    return TRUE
                if not ({'int', 'float'} & set(names)):
                    return FALSE
                return ('istype', x, names)
            if kinds <= set(names):
                return TRUE
            if not (kinds & set(names)) and not ({'int', 'float'} & kinds and {'int', 'float'} & set(names)):
                return FALSE
        elif 'list' in names and x[0] in ('attr', 'idx', 'elem', 'key', 'val', 'call'):
            # an atom is never a list
            return FALSE
        return ('istype', x, names)

    def ev_eq(self, v, env, facts):
        a, b = self.ev(v[1], env, facts), self.ev(v[2], env, facts)
        return self.eq(a, b, facts)

    def eq(self, a, b, facts):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'ite':
                c = simp(x[1], facts)
                if c == TRUE:
                    return self.eq(x[2], y, facts)
                if c == FALSE:
                    return self.eq(x[3], y, facts)
                return mk_ite(c, self.eq(x[2], y, facts | expand_facts([c])), self.eq(x[3], y, facts | expand_facts([mk_not(c)])))
        for x, y in ((a, b), (b, a)):
            if x[0] == 'crash':
                return ('truthy', x)
            if x[0] == 'top':
                return ('truthy', x)
            if x[0] == 'call' and x[1] == 'len' and x[2][0][0] == 'nodev' and is_const(y) and isinstance(y[2], int):
                n = y[2]
                return mk_and([self.atleast(x[2][0][1], n, facts), mk_not(self.atleast(x[2][0][1], n + 1, facts))])
            if x[0] == 'call' and x[1] == 'type':
                if y[0] == 'call' and y[1] == 'type':
                    tn = _tn(y[2][0])
                    if tn:
                        return self.istype(x[2][0], (tn,))
                if y[0] == 'builtin':
                    return self.istype(x[2][0], (y[1],))
            if x[0] == 'nodev':
                if y[0] == 'nodev':
                    return TRUE if x == y else ('truthy', top('node eq'))
                return FALSE
        if is_const(b):
            x = a
            # textual forms of booleans
            tb = self.booltext(x)
            if tb is not None and isinstance(b[2], str):
                t, f_, e = tb
                if b[2] == t and b[2] == f_:
                    return TRUE
                if b[2] == t:
                    return mk_truthy(e)
                if b[2] == f_:
                    return mk_not(mk_truthy(e))
                return FALSE
            if x[0] == 'strof' and isinstance(b[2], str):
                return ('eq', x, b)
            if x[0] == 'idx' and isinstance(b[2], str) and len(b[2]) > 1 and self.typeof(x) == ('str',):
                return FALSE
            if x[0] == 'idx' and isinstance(b[2], str) and len(b[2]) > 1 and (self.typeof(x[1])[0] == 'str' or x[1][0] == 'strof'):
                return FALSE
            t = P.without_none(self.typeof(x))
            if isinstance(b[2], str) and all(m[0] in ('int', 'float', 'bool') for m in P.members(t)) and x[0] not in ('strof',):
                return FALSE
            if isinstance(b[2], (int, float)) and not isinstance(b[2], bool) and t == ('str',):
                return FALSE
        if a[0] == 'str' and is_const(b) and isinstance(b[2], str):
            return ('eq', a, b)
        return mk_eq(a, b)

    def booltext(self, x):
        """(text when true, text when false, expr) for textual forms of a bool expression."""
        if x[0] == 'strof' and P.without_none(self.typeof(x[1])) == ('bool',):
            return 'True', 'False', x[1]
        if x[0] == 'call' and x[1] in ('lower', 'upper') and len(x[2]) == 1:
            y = x[2][0]
            if y[0] == 'str' and len(y[1]) == 1 and y[1][0][0] == 'hole' and P.without_none(self.typeof(y[1][0][1])) == ('bool',):
                g = getattr(str, x[1])
                return g('True'), g('False'), y[1][0][1]
        return None

    def ev_le(self, v, env, facts):
        return self.cmp('le', self.ev(v[1], env, facts), self.ev(v[2], env, facts), facts)

    def ev_lt(self, v, env, facts):
        return self.cmp('lt', self.ev(v[1], env, facts), self.ev(v[2], env, facts), facts)

    def cmp(self, op, a, b, facts):
        for i, x in enumerate((a, b)):
            if x[0] == 'ite':
                c = simp(x[1], facts)
                r = [self.cmp(op, *((y, b) if i == 0 else (a, y)), facts | expand_facts([d])) for y, d in ((x[2], c), (x[3], mk_not(c)))]
                return r[0] if c == TRUE else r[1] if c == FALSE else mk_or([mk_and([c, r[0]]), mk_and([mk_not(c), r[1]])])
        for x in (a, b):
            if x[0] in ('top', 'crash'):
                return ('truthy', x)
        if b[0] == 'call' and b[1] == 'len' and b[2][0][0] == 'nodev' and is_const(a):
            return self.atleast(b[2][0][1], a[2] + (1 if op == 'lt' else 0), facts)
        if a[0] == 'call' and a[1] == 'len' and a[2][0][0] == 'nodev' and is_const(b):
            return mk_not(self.atleast(a[2][0][1], b[2] + (0 if op == 'lt' else 1), facts))
        return mk_cmp(op, a, b)

    def ev_in(self, v, env, facts):
        a, b = self.ev(v[1], env, facts), self.ev(v[2], env, facts)
        return self.within(a, b, facts)

    def within(self, a, b, facts):
        b = self.node(b)
        if b[0] == 'ite' and b[1] not in (TRUE, FALSE) and any(x[0] in ('nodev', 'seq', 'map') for x in b[2:]):
            return mk_or([mk_and([b[1], self.within(a, b[2], facts | expand_facts([b[1]]))]),
                          mk_and([mk_not(b[1]), self.within(a, b[3], facts | expand_facts([mk_not(b[1])]))])])
        if b[0] == 'nodev':
            return self.anyof(b[1], lambda x, fx: self.eq(x, a, fx), facts)
        if b[0] == 'map':
            r = self.lookup(b[1], a, facts)
            return ('truthy', top('key of a dictionary')) if r is None else r[0]
        if b[0] in ('top', 'crash'):
            return ('truthy', b)
        if a[0] in ('top', 'crash'):
            return ('truthy', a)
        if b[0] == 'seq' and all(p[0] == 'item' for p in b[2]):
            return mk_or([self.eq(a, p[1], facts) for p in b[2]])
        if is_const(a) and is_const(b) and isinstance(b[2], str) and isinstance(a[2], str):
            return const(a[2] in b[2])
        if is_strconst(b) and not is_const(a):
            r = self.by_word(a, lambda w: const(w[2] in b[2]))
            if r is not None:
                return simp(r, facts) if r in (TRUE, FALSE) or r[0] != 'ite' else self.asbool(r)
        return ('in', a, b)

    def asbool(self, r):
        """An alternative of booleans as a condition."""
        if r[0] != 'ite':
            return r if r in (TRUE, FALSE) else ('truthy', r)
        return mk_or([mk_and([r[1], self.asbool(r[2])]), mk_and([mk_not(r[1]), self.asbool(r[3])])])

    def anyof(self, items, pred, facts):
        cs = []
        for it in self.norm(items):
            if it[0] in ('atom', 'node', 'onode', 'val'):
                cs.append(pred(self.val(it), facts))
            elif it[0] == 'gate':
                g = simp(it[1], facts)
                if g != FALSE:
                    cs.append(mk_and([g, self.anyof(it[2], pred, facts | expand_facts([g]))]))
                ng = mk_not(g)
                if ng != FALSE:
                    cs.append(mk_and([ng, self.anyof(it[3], pred, facts | expand_facts([ng]))]))
            elif it[0] == 'loop':
                cs.append(mk_any(it[1], it[2], self.anyof(it[3], pred, facts)))
            else:
                cs.append(('truthy', top('unknown item')))
        return mk_or(cs)

    def ev_any(self, v, env, facts):
        b = self.node(self.ev(v[2], env, facts))
        L = v[1]
        if b[0] == 'nodev':
            return self.anyof(b[1], lambda x, fx: self.ev(v[3], self.bind(env, L, x), fx), facts)
        if b[0] == 'ite':
            return mk_ite(b[1], self.ev_any(('any', L, ('param', '$b'), v[3]), {**env, '$b': b[2]}, facts),
                          self.ev_any(('any', L, ('param', '$b'), v[3]), {**env, '$b': b[3]}, facts))
        if b[0] in ('top', 'crash'):
            return ('truthy', b)
        return ('truthy', top('any over value'))

    def ev_first(self, v, env, facts):
        b = self.node(self.ev(v[2], env, facts))
        L = v[1]
        if b[0] != 'nodev':
            return top('first over value')

        def fold(items, els, facts):
            items = self.norm(items)
            res = els
            for it in reversed(items):
                if it[0] in ('atom', 'node', 'onode', 'val'):
                    e = self.bind(env, L, self.val(it))
                    c = simp(self.ev(v[3], e, facts), facts)
                    if c != FALSE:
                        res = mk_ite_keep(c, self.ev(v[4], e, facts | expand_facts([c])), res)
                elif it[0] == 'gate':
                    res = mk_ite_keep(it[1], fold(it[2], res, facts | expand_facts([it[1]])),
                                      fold(it[3], res, facts | expand_facts([mk_not(it[1])])))
                elif it[0] == 'loop':
                    r = fold(it[3], PH, facts)
                    if r != PH:
                        c, x = self.dec.decompose(r, PH)
                        if x is not None and c != FALSE:
                            res = mk_ite_keep(mk_any(it[1], it[2], c), ('first', it[1], it[2], c, x), res)
                else:
                    return top('unknown item')
            return res
        return fold(b[1], UNDEF, facts)

    def ev_last(self, v, env, facts):
        L = v[1]
        itv = v[2]
        until = None
        if itv[0] == 'until':
            until = itv[3]
            itv = itv[2]
        b = self.ev(itv, env, facts)
        init = self.ev(v[5], env, facts)
        return self.last_over(b, L, v[3], v[4], init, env, facts, until)

    def last_over(self, b, L, cond, val, init, env, facts, until):
        b = self.node(b)
        if b[0] == 'ite':
            c = b[1]
            return mk_ite_keep(c, self.last_over(b[2], L, cond, val, init, env, facts | expand_facts([c]), until),
                               self.last_over(b[3], L, cond, val, init, env, facts | expand_facts([mk_not(c)]), until))
        if b[0] != 'nodev':
            return b if b[0] in ('top', 'crash') else top('loop over value')
        carried = self.carried(L, (cond, val), env)
        if carried is None:
            return top('loop-carried condition')
        state = {ph: self.ev(init_, env, facts) for ph, (init_, step) in carried.items()}
        if until is not None and contains(until, lambda x: x[0] in ('phi', 'top')):
            return top('loop exit')
        stopped = [FALSE]

        def fold(items, res, facts):
            for it in self.norm(items):
                if it[0] in ('atom', 'node', 'onode', 'val'):
                    e = self.bind(env, L, self.val(it))
                    e.update(state)
                    live = mk_not(stopped[0])
                    fx = facts | expand_facts([live])
                    c = simp(self.ev(cond, e, fx), fx)
                    c = mk_and([live, c])
                    if c != FALSE:
                        res = mk_ite_keep(c, self.ev(val, e, fx | expand_facts([c])), res)
                    if until is not None:
                        u = simp(self.ev(until, e, fx), fx)
                        stopped[0] = mk_or([stopped[0], u])
                    if carried:
                        state.update({ph: self.ev(step, e, facts) for ph, (_, step) in carried.items()})
                elif it[0] == 'gate':
                    g = simp(it[1], facts)
                    if g == TRUE:
                        res = fold(it[2], res, facts)
                    elif g == FALSE:
                        res = fold(it[3], res, facts)
                    else:
                        s0, st0 = stopped[0], dict(state)
                        a = fold(it[2], res, facts | expand_facts([g]))
                        sa, sta = stopped[0], dict(state)
                        stopped[0] = s0
                        state.update(st0)
                        bb = fold(it[3], res, facts | expand_facts([mk_not(g)]))
                        stopped[0] = mk_or([mk_and([g, sa]), mk_and([mk_not(g), stopped[0]])]) if until is not None else FALSE
                        res = mk_ite_keep(g, a, bb)
                        for ph in state:
                            state[ph] = mk_ite_keep(g, sta[ph], state[ph])
                elif it[0] == 'loop':
                    s0, st0 = stopped[0], dict(state)
                    if carried:
                        fold(it[3], PH, facts)
                        st1 = dict(state)
                        fold(it[3], PH, facts)
                        same = state == st1
                        for ph in state:
                            state[ph] = mk_ite_keep(('truthy', top('first round')), st0[ph], st1[ph] if same else top('loop'))
                    r = fold(it[3], PH, facts)
                    if carried:
                        for ph in state:
                            state[ph] = mk_ite_keep(('truthy', it[2]), st1[ph] if same else top('loop'), st0[ph])
                    if until is not None:
                        stopped[0] = mk_or([s0, mk_any(it[1], it[2], stopped[0])])
                    if r != PH:
                        c, x = self.dec.decompose(r, PH)
                        if x is not None and c != FALSE:
                            res = mk_ite_keep(mk_any(it[1], it[2], c), ('last', it[1], it[2], c, x, UNDEF), res)
                else:
                    res = mk_ite_keep(('truthy', top('unknown item')), top('unknown item'), res)
            return res
        return fold(b[1], init, facts)

    def carried(self, L, exprs, env):
        """Loop-carried variables the expressions depend on: phi -> (init, step); None if unknown."""
        steps = env.get('$steps') or {}
        out, todo = {}, list(exprs)
        while todo:
            for x in walk(todo.pop()):
                if x[0] == 'phi' and x not in out:
                    if x[1] != L or x not in steps or has_ref(steps[x]):
                        return None
                    out[x] = steps[x]
                    todo.append(steps[x][1])
        return out

    def ev_parse(self, v, env, facts):
        b = self.ev(v[2], env, facts)
        return self.parse(v[1], b, facts)

    def parse(self, cls, b, facts):
        b = self.node(b)
        if b[0] == 'ite':
            c = simp(b[1], facts)
            if c == TRUE:
                return self.parse(cls, b[2], facts)
            if c == FALSE:
                return self.parse(cls, b[3], facts)
            return mk_ite_keep(c, self.parse(cls, b[2], facts | expand_facts([c])),
                               self.parse(cls, b[3], facts | expand_facts([mk_not(c)])))
        if b[0] in ('top', 'crash', 'undef'):
            return b
        r = self.m.reader(cls)
        if r.value is None or r.fields is None:
            return top(f'reader of {cls.name}')
        if b[0] == 'nodev' and b[2] is not None:
            k, obj = b[2]
            if k is cls or k.find_method('from_sexpr') is cls.find_method('from_sexpr') and k is cls:
                return obj
        self.depth += 1
        try:
            if self.depth > 12:
                return top('depth')
            env = {'exp': b, '$steps': r.steps}
            for e in r.raises:
                c = simp(self.ev(e.pc, env, facts), facts)
                if c == TRUE:
                    self.rejects.append((facts, cls, e))
                    return ('crash', f'{cls.name} rejects the expression')
                if c != FALSE and not has_top(c):
                    self.rejects.append((facts | expand_facts([c]), cls, e))
            if b[0] != 'nodev':
                return top('parse of atom')
            return ('obj', cls, tuple((f, self.ev(x, env, facts)) for f, x in r.value[2]))
        finally:
            self.depth -= 1

    def ev_obj(self, v, env, facts):
        return ('obj', v[1], tuple((f, self.ev(x, env, facts)) for f, x in v[2]))

    def parts_of(self, parts, env, facts, kind):
        out = []
        for p in parts:
            if p[0] == 'item':
                out.append(('item', self.ev(p[1], env, facts)))
            elif p[0] == 'ent':
                out.append(('ent', self.ev(p[1], env, facts), self.ev(p[2], env, facts)))
            elif p[0] == 'alt':
                c = simp(self.ev(p[1], env, facts), facts)
                if c == TRUE:
                    out.extend(self.parts_of(p[2], env, facts, kind))
                elif c == FALSE:
                    out.extend(self.parts_of(p[3], env, facts, kind))
                else:
                    a = self.parts_of(p[2], env, facts | expand_facts([c]), kind)
                    b = self.parts_of(p[3], env, facts | expand_facts([mk_not(c)]), kind)
                    if a or b:
                        out.append(('alt', c, tuple(a), tuple(b)))
            elif p[0] == 'loop':
                itv, until = p[2], None
                if itv[0] == 'until':
                    itv, until = itv[2], itv[3]
                b = self.ev(itv, env, facts)
                out.extend(self.loop_parts(b, p[1], p[3], env, facts, kind, until))
            elif p[0] == 'spread':
                b = self.ev(p[1], env, facts)
                out.extend(self.spread(b, facts))
            else:
                out.append(('item', top('part ' + p[0])))
        return out

    def spread(self, b, facts):
        if b[0] == 'ite':
            return [('alt', b[1], tuple(self.spread(b[2], facts)), tuple(self.spread(b[3], facts)))]
        if b[0] == 'nodev':
            return self.each(b[1], lambda x, fx: [('item', x)], facts)
        if b[0] in ('seq',):
            return list(b[2])
        if b[0] == 'map':
            return list(b[1])
        return [('spread', b)]

    def each(self, items, fn, facts):
        out = []
        for it in self.norm(items):
            if it[0] in ('atom', 'node', 'onode', 'val'):
                out.extend(fn(self.val(it), facts))
            elif it[0] == 'gate':
                g = simp(it[1], facts)
                if g == TRUE:
                    out.extend(self.each(it[2], fn, facts))
                elif g == FALSE:
                    out.extend(self.each(it[3], fn, facts))
                else:
                    a = self.each(it[2], fn, facts | expand_facts([g]))
                    b = self.each(it[3], fn, facts | expand_facts([mk_not(g)]))
                    if a or b:
                        out.append(('alt', g, tuple(a), tuple(b)))
            elif it[0] == 'loop':
                b = self.each(it[3], fn, facts)
                if b:
                    out.append(('loop', it[1], it[2], tuple(b)))
            else:
                out.append(('item', top('unknown item')))
        return out

    def loop_parts(self, b, L, body, env, facts, kind, until):
        b = self.node(b)
        if b[0] == 'ite':
            return [('alt', b[1], tuple(self.loop_parts(b[2], L, body, env, facts, kind, until)),
                     tuple(self.loop_parts(b[3], L, body, env, facts, kind, until)))]
        if b[0] != 'nodev':
            return [('item', b if b[0] in ('top', 'crash') else top('loop over value'))]
        if until is not None:
            return [('item', top('loop with early exit'))] if False else self.each_until(b[1], L, body, env, facts, kind, until)
        return self.each(b[1], lambda x, fx: self.parts_of(body, self.bind(env, L, x), fx, kind), facts)

    def each_until(self, items, L, body, env, facts, kind, until):
        """Loop left early: elements after the first one satisfying `until` are not visited."""
        stopped = FALSE
        out = []
        for it in self.norm(items):
            if it[0] in ('atom', 'node', 'onode', 'val'):
                e = self.bind(env, L, self.val(it))
                ps = self.parts_of(body, e, facts, kind)
                if ps:
                    out.extend(ps if stopped == FALSE else [('alt', stopped, (), tuple(ps))])
                stopped = mk_or([stopped, simp(self.ev(until, e, facts), facts)])
            elif it[0] == 'loop':
                box = []

                def fn(x, fx):
                    e = self.bind(env, L, x)
                    box.append(simp(self.ev(until, e, fx), fx))
                    return self.parts_of(body, e, fx, kind)
                ps = self.each(it[3], fn, facts)
                u = mk_or(box)
                itr = it[2] if u == FALSE else ('until', it[1], it[2], u)
                if ps:
                    lp = ('loop', it[1], itr, tuple(ps))
                    out.append(lp if stopped == FALSE else ('alt', stopped, (), (lp,)))
                stopped = mk_or([stopped, mk_any(it[1], it[2], u)])
            elif it[0] == 'gate':
                a = self.each_until(it[2], L, body, env, facts, kind, until)
                bb = self.each_until(it[3], L, body, env, facts, kind, until)
                # exits inside the gate
                sa = self.anyof(it[2], lambda x, fx: self.ev(until, self.bind(env, L, x), fx), facts)
                sb = self.anyof(it[3], lambda x, fx: self.ev(until, self.bind(env, L, x), fx), facts)
                if a or bb:
                    al = ('alt', it[1], tuple(a), tuple(bb))
                    out.append(al if stopped == FALSE else ('alt', stopped, (), (al,)))
                stopped = mk_or([stopped, mk_and([it[1], sa]), mk_and([mk_not(it[1]), sb])])
            else:
                out.append(('item', top('unknown item')))
        return out

    def ev_seq(self, v, env, facts):
        return ('seq', v[1], tuple(self.parts_of(v[2], env, facts, 'seq')))

    def ev_map(self, v, env, facts):
        return ('map', tuple(self.parts_of(v[1], env, facts, 'map')))

    def ev_nodev(self, v, env, facts):
        return v

    def ev_strof(self, v, env, facts):
        return v


def mk_ite_keep(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if a[0] == 'nodev' or b[0] == 'nodev' or a[0] in ('crash', 'undef') or b[0] in ('crash', 'undef'):
        return ('ite', c, a, b)
    return mk_ite(c, a, b)


def has_ref(v):
    return contains(v, lambda x: x[0] in ('ref', 'top', 'undef'))


def _tn(v):
    if v[0] == 'seq':
        return v[1]
    if v[0] == 'nodev':
        return 'list'
    return None


def litval(s):
    """Value the tokeniser gives to a bare literal atom."""
    import re
    if re.fullmatch(r'[+-]?\d+\.\d+|-?\d+', s):
        x = float(s)
        return const(int(x) if x.is_integer() else x)
    return const(s)
