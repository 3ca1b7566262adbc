"""Abstract domain of identifier texts: sequences of separators and opaque segments.

A text is a tuple of parts: ':' and '_' stand for themselves, ('w', i) is any non-empty text without separators that is not all digits,
('n', i) any non-empty text of digits.  split, partition, find, slices and tests used to take an identifier apart are computed exactly on
such texts, for every content of the segments.  Anything else gives up (Unknown)."""
import itertools
from .values import *

SEPS = (':', '_')


class Unknown(Exception):
    pass


def shapes(seps, longest=6):
    """All texts of up to `longest` parts without two adjacent segments."""
    kinds = ('w', 'n') if '_' in seps else ('w',)
    for n in range(1, longest + 1):
        for ks in itertools.product(tuple(seps) + kinds, repeat=n):
            if any(a in kinds and b in kinds for a, b in zip(ks, ks[1:])):
                continue
            if sum(k in kinds for k in ks) > 4:
                continue
            yield tuple(k if k in seps else (k, i) for i, k in enumerate(ks))


def display(parts):
    return ''.join(p if isinstance(p, str) else 'abcdefgh'[p[1]] if p[0] == 'w' else str(p[1] + 1) for p in parts)


class Shape:
    def __init__(self, sid, parts):
        self.sid, self.parts = sid, parts
        self.elems = {}

    # ---------------------------------------------------------------- values
    def text(self, v):
        x = self.ev(v)
        if x[0] == 't':
            return x[1]
        if x[0] == 'i':
            return (('c', x[1]),)
        if x[0] == 'k' and isinstance(x[1], int):
            return lit(str(x[1]))
        raise Unknown

    def cat(self, ps):
        out = ()
        for p in ps:
            if p[0] == 'lit':
                out += lit(p[1])
            elif p[0] == 'hole':
                out += self.text(p[1])
            elif p[0] == 'alt':
                out += self.cat(p[2] if self.true(p[1]) else p[3])
            elif p[0] == 'join':
                sep = self.cat(p[1])
                first = True
                for q in p[2]:
                    for t in self.items(q):
                        if not first:
                            out += sep
                        out += t
                        first = False
            else:
                raise Unknown
        return out

    def items(self, q):
        if q[0] == 'item':
            yield self.text(q[1])
        elif q[0] == 'spread':
            x = self.ev(q[1])
            if x[0] != 'l':
                raise Unknown
            for y in x[1]:
                if y[0] != 't':
                    raise Unknown
                yield y[1]
        elif q[0] == 'loop':
            x = self.ev(q[2])
            if x[0] != 'l':
                raise Unknown
            for y in x[1]:
                self.elems[q[1]] = y
                for z in q[3]:
                    yield from self.items(z)
            self.elems.pop(q[1], None)
        elif q[0] in ('gate', 'alt'):
            for z in (q[2] if self.true(q[1]) else q[3]):
                yield from self.items(z)
        else:
            raise Unknown

    def ev(self, v):
        k = v[0]
        if v == self.sid:
            return ('t', self.parts)
        if k == 'const':
            return ('t', lit(v[2])) if isinstance(v[2], str) else ('k', v[2])
        if k == 'str':
            return ('t', self.cat(v[1]))
        if k == 'ite':
            return self.ev(v[2] if self.true(v[1]) else v[3])
        if k == 'elem':
            if v[1] in self.elems:
                return self.elems[v[1]]
            raise Unknown
        if k == 'idx':
            b, i = self.ev(v[1]), self.ev(v[2])
            if b[0] == 'l' and i[0] == 'k' and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]):
                return b[1][i[1]]
            raise Unknown
        if k == 'seq':
            return ('l', [('t', t) for q in v[2] for t in self.items(q)])
        if k == 'slice':
            return self.slice(self.ev(v[1]), self.ev(v[2]), self.ev(v[3]))
        if k == 'call':
            return self.call(v)
        if k in ('truthy', 'not', 'and', 'or', 'eq', 'in', 'lt', 'le', 'isnone', 'any', 'isinstance'):
            return ('k', self.true(v))
        raise Unknown

    def slice(self, b, lo, hi):
        if b[0] == 'l' and lo[0] == 'k' and hi[0] == 'k':
            return ('l', b[1][slice(lo[1], hi[1])])
        if b[0] == 't':
            i = 0 if lo == ('k', None) else self.at(lo, b[1])
            j = len(b[1]) if hi == ('k', None) else self.at(hi, b[1])
            return ('t', b[1][i:j])
        raise Unknown

    def at(self, x, parts):
        """Index into the parts for a position."""
        if x[0] == 'p' and x[2] == parts and isinstance(x[1], int):
            return x[1]
        if x == ('k', 0):
            return 0
        if x == ('k', -1) and parts and isinstance(parts[-1], str):
            return len(parts) - 1
        if x[0] == 'k' and isinstance(x[1], int) and x[1] > 0 and all(isinstance(p, str) for p in parts[:x[1]]):
            return min(x[1], len(parts))
        raise Unknown

    def shift(self, x, n):
        i, parts = x[1], x[2]
        while n > 0:
            if i >= len(parts) or not isinstance(parts[i], str):
                raise Unknown
            i, n = i + 1, n - 1
        if n == -1 and isinstance(i, int) and i > 0 and not isinstance(parts[i - 1], str):
            return ('p', i - 0.5, parts)         # somewhere in the segment before the boundary
        if not isinstance(i, int):
            raise Unknown
        while n < 0:
            if i <= 0 or not isinstance(parts[i - 1], str):
                raise Unknown
            i, n = i - 1, n + 1
        return ('p', i, parts)

    def call(self, v):
        n, a = v[1], v[2]
        kw = dict(v[3]) if v[3] else {}
        if n == 'str' and len(a) == 1:
            return ('t', self.text(a[0]))
        if n == 'int' and len(a) == 1:
            t = self.text(a[0])
            if len(t) == 1 and not isinstance(t[0], str) and t[0][0] == 'n':
                return ('i', t[0])
            raise Unknown
        if n == 'len' and len(a) == 1:
            x = self.ev(a[0])
            if x[0] == 'l':
                return ('k', len(x[1]))
            if x[0] == 't':
                return ('p', len(x[1]), x[1])
            raise Unknown
        if n in ('list', 'tuple') and len(a) == 1:
            x = self.ev(a[0])
            if x[0] == 'l':
                return x
            raise Unknown
        if n in ('add', 'sub') and len(a) == 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            if x[0] == 't' and y[0] == 't' and n == 'add':
                return ('t', x[1] + y[1])
            if x[0] == 'k' and y[0] == 'k' and isinstance(x[1], int) and isinstance(y[1], int):
                return ('k', x[1] + y[1] if n == 'add' else x[1] - y[1])
            if x[0] == 'p' and y[0] == 'k' and isinstance(y[1], int):
                return self.shift(x, y[1] if n == 'add' else -y[1])
            raise Unknown
        if n in ('split', 'rsplit', 'partition', 'rpartition', 'find', 'rfind', 'index', 'rindex', 'count') and len(a) >= 2:
            s, sep = self.text(a[0]), self.text(a[1])
            if len(sep) != 1 or not isinstance(sep[0], str):
                raise Unknown
            at = [i for i, p in enumerate(s) if p == sep[0]]
            if n == 'count':
                return ('k', len(at))
            if n in ('find', 'rfind', 'index', 'rindex'):
                if len(a) != 2:
                    raise Unknown
                if not at:
                    if n in ('index', 'rindex'):
                        raise Unknown
                    return ('k', -1)
                return ('p', at[-1 if n[0] == 'r' else 0], s)
            if n in ('partition', 'rpartition'):
                if not at:
                    return ('l', [('t', s), ('t', ()), ('t', ())] if n == 'partition' else [('t', ()), ('t', ()), ('t', s)])
                i = at[0 if n == 'partition' else -1]
                return ('l', [('t', s[:i]), ('t', sep), ('t', s[i + 1:])])
            lim = self.ev(a[2]) if len(a) > 2 else self.ev(kw['maxsplit']) if 'maxsplit' in kw else ('k', -1)
            if lim[0] != 'k' or not isinstance(lim[1], int):
                raise Unknown
            m = lim[1]
            cut = at if m < 0 else at[:m] if n == 'split' else at[max(0, len(at) - m):]
            out, prev = [], 0
            for i in cut:
                out.append(('t', s[prev:i]))
                prev = i + 1
            return ('l', out + [('t', s[prev:])])
        if n == 'isdigit' and len(a) == 1:
            t = self.text(a[0])
            if not t:
                return ('k', False)
            if any(p in SEPS or p[0] == 'w' for p in t):
                return ('k', False)
            return ('k', True)
        if n in ('startswith', 'endswith') and len(a) == 2:
            t, p = self.text(a[0]), self.text(a[1])
            if not p:
                return ('k', True)
            if not all(isinstance(x, str) for x in p):
                raise Unknown
            return ('k', (t[:len(p)] if n == 'startswith' else t[-len(p):]) == p)
        if n == 'bool' and len(a) == 1:
            return ('k', self.truth(self.ev(a[0])))
        if n == 'replace' and len(a) == 3:
            t, o, w = (self.text(x) for x in a)
            if len(o) == 1 and isinstance(o[0], str):
                out = ()
                for p in t:
                    out += w if p == o[0] else (p,)
                return ('t', out)
        raise Unknown

    # ---------------------------------------------------------------- conditions
    def truth(self, x):
        if x[0] in ('t', 'l'):
            return bool(x[1])
        if x[0] == 'k':
            return bool(x[1])
        if x[0] == 'p':
            return x[1] > 0
        raise Unknown

    def true(self, c):
        k = c[0]
        if k == 'not':
            return not self.true(c[1])
        if k == 'and':
            return all(self.true(x) for x in c[1])
        if k == 'or':
            return any(self.true(x) for x in c[1])
        if k == 'truthy':
            return self.truth(self.ev(c[1]))
        if k == 'isnone':
            return self.ev(c[1]) == ('k', None)
        if k == 'isinstance':
            raise Unknown
        if k == 'in':
            x, y = self.ev(c[1]), self.ev(c[2])
            if x[0] == 't' and y[0] == 't' and len(x[1]) == 1 and isinstance(x[1][0], str):
                return x[1][0] in y[1]
            if x[0] == 't' and y[0] == 'l':
                return any(self.same(x, z) for z in y[1])
            raise Unknown
        if k == 'any':
            x = self.ev(c[2])
            if x[0] != 'l':
                raise Unknown
            try:
                for y in x[1]:
                    self.elems[c[1]] = y
                    if self.true(c[3]):
                        return True
                return False
            finally:
                self.elems.pop(c[1], None)
        if k == 'eq':
            return self.same(self.ev(c[1]), self.ev(c[2]))
        if k in ('lt', 'le'):
            x, y = self.ev(c[1]), self.ev(c[2])
            r = self.order(x, y)
            return r < 0 if k == 'lt' else r <= 0
        if k == 'const':
            return bool(c[2])
        if k == 'call':
            return self.truth(self.ev(c))
        raise Unknown

    def same(self, x, y):
        if x[0] == y[0] == 't':
            if x[1] == y[1]:
                return True
            if all(isinstance(p, str) for p in x[1]) or all(isinstance(p, str) for p in y[1]):
                return False
            raise Unknown
        if x[0] == y[0] == 'k':
            return x[1] == y[1]
        if 'p' in (x[0], y[0]):
            return self.order(x, y) == 0
        if {x[0], y[0]} in ({'t', 'k'}, {'t', 'l'}, {'l', 'k'}):
            return False
        raise Unknown

    def order(self, x, y):
        if x[0] == y[0] == 'k':
            return (x[1] > y[1]) - (x[1] < y[1])
        if x[0] == y[0] == 'p' and x[2] == y[2]:
            if abs(x[1] - y[1]) == 0.5 and (x[1] < y[1]) == isinstance(x[1], int):
                raise Unknown         # the first or a later character of the segment
            return (x[1] > y[1]) - (x[1] < y[1])
        if x[0] == 'p' and y[0] == 'k' and isinstance(y[1], int):
            if y[1] < 0:
                return 1
            if not isinstance(x[1], int):
                if y[1] == 0 and x[1] > 1:
                    return 1
                raise Unknown
            if y[1] == 0:
                return 1 if x[1] > 0 else 0
            if all(isinstance(p, str) for p in x[2][:x[1]]):
                return (x[1] > y[1]) - (x[1] < y[1])
            if x[1] > y[1]:
                return 1          # every part has at least one character
            raise Unknown
        if x[0] == 'k' and y[0] == 'p':
            return -self.order(y, x)
        raise Unknown


def lit(s):
    out = ()
    for ch in s:
        out += (ch,)
    return out


def identity(v, sid, seps=(':',), longest=6):
    """True: v is the text sid for every shape; (text, result): a shape for which it is not; None: not decided."""
    und = False
    for parts in shapes(seps, longest):
        try:
            got = Shape(sid, parts).text(v)
        except (Unknown, RecursionError, KeyError, IndexError):
            und = True
            continue
        if got != parts:
            if any(not isinstance(p, str) and p[0] == 'c' for p in got) and tuple(p[1] if not isinstance(p, str) and p[0] == 'c' else p for p in got) == parts:
                return display(parts), 'a number without its leading zeros'
            return display(parts), display(tuple(p[1] if not isinstance(p, str) and p[0] == 'c' else p for p in got))
    return None if und else True
