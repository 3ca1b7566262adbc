"""Small decision procedure for sets of gate literals: used to discard impossible
combinations of conditions (contradictory None/truth/type/equality/length facts)."""
from . import program as P
from .values import *


class Logic:
    def __init__(self, model, wcls, domains, reserved=None):
        self.m, self.w = model, wcls
        self.domains = domains          # (class name, field) -> tuple of allowed constants
        self.reserved = reserved or {}
        self.memo = {}
        self.tmemo = {}

    # ------------------------------------------------------------- types / domains
    def typeof(self, v):
        if v not in self.tmemo:
            if v[0] in ('nodev', 'crash', 'strof', 'onode'):
                self.tmemo[v] = ('any',)
            else:
                self.tmemo[v] = self.m.typeof(v, self.w)
        return self.tmemo[v]

    def owner(self, base):
        if base == ('param', 'self'):
            return [self.w]
        return self.m.classes_of(base, self.w) or []

    def domain(self, x):
        """Allowed constants of a keyword attribute, or None."""
        while x[0] == 'strof':
            x = x[1]
        if x[0] != 'attr':
            return None
        pth = self.path(x)
        if pth is not None:
            for k in self.w.mro():
                d = self.domains.get((k.name, pth))
                if d is not None:
                    return d
        out = None
        for c in self.owner(x[1]):
            if x[2] not in c.fields():
                continue
            d = None
            for k in c.mro():
                d = self.domains.get((k.name, x[2]))
                if d is not None:
                    break
            if d is None:
                return None
            out = tuple(out or ()) + tuple(d)
        return out

    def path(self, x):
        out = []
        while x[0] == 'attr':
            out.append(x[2])
            x = x[1]
        return '.'.join(reversed(out)) if x == ('param', 'self') else None

    def excluded(self, x, v):
        """Constants an attribute is documented not to have (reserved words)."""
        while x[0] == 'strof':
            x = x[1]
        if x[0] != 'attr':
            return False
        if x[1][0] == 'elem':
            p = self.path(x[1][2])
            if p is not None and v in self.reserved.get((self.w.name, p + '[].' + x[2]), ()):
                return True
        p = self.path(x)
        return p is not None and v in self.reserved.get((self.w.name, p), ())

    def optional(self, x):
        """Can the value be None according to the declared types?"""
        if x[0] in ('strof', 'str', 'fmt', 'ser', 'seq', 'map', 'obj', 'parse'):
            return False
        t = self.typeof(x)
        return any(m[0] in ('none', 'any') for m in P.members(t))

    def objlike(self, x):
        t = P.without_none(self.typeof(x))
        ms = P.members(t)
        return bool(ms) and all(m[0] == 'inst' for m in ms)

    # ------------------------------------------------------------- closure
    def close(self, facts):
        """Saturated set of literals, or None when contradictory."""
        facts = frozenset(facts)
        if facts in self.memo:
            return self.memo[facts]
        r = self._close(set(facts))
        self.memo[facts] = r
        return r

    def _close(self, facts):
        todo = list(facts)
        known = set()
        clauses = []
        n = 0
        while True:
            while todo:
                n += 1
                if n > 4000:
                    return frozenset(known | set(clauses))
                c = todo.pop()
                if c == TRUE or c in known:
                    continue
                if c == FALSE:
                    return None
                if c[0] == 'and':
                    todo.extend(c[1])
                    continue
                if c[0] == 'or':
                    if c not in clauses:
                        clauses.append(c)
                    continue
                if mk_not(c) in known:
                    return None
                known.add(c)
                r = self.consequences(c)
                if r is None:
                    return None
                todo.extend(r)
            # pairwise theory checks
            if self.clash(known):
                return None
            # unit propagation
            progress = False
            new = []
            for cl in clauses:
                s = self.simp(cl, known)
                if s == TRUE:
                    continue
                if s == FALSE:
                    return None
                if s[0] == 'or':
                    new.append(s)
                else:
                    todo.append(s)
                    progress = True
            clauses = new
            if not progress:
                break
        return frozenset(known | set(clauses))

    def consequences(self, c):
        out = []
        neg = c[0] == 'not'
        a = c[1] if neg else c
        k = a[0]
        if k == 'isnone':
            x = a[1]
            if not neg:
                if not self.optional(x):
                    return None
                out.append(mk_not(('truthy', x)))
            else:
                if self.typeof(x) == ('none',):
                    return None
                if self.objlike(x):
                    out.append(('truthy', x))
        elif k == 'truthy':
            x = a[1]
            if x[0] in ('top', 'crash'):
                return out
            if not neg:
                out.append(mk_not(('isnone', x)))
            else:
                if self.objlike(x):
                    if not self.optional(x):
                        return None
                    out.append(('isnone', x))
                if self.optional(x) is False:
                    pass
        elif k == 'eq' and is_const(a[2]):
            x = a[1]
            if not neg:
                v = a[2][2]
                d = self.domain(x)
                if d is not None and v not in d:
                    return None
                if self.excluded(x, v):
                    return None
                if x[0] != 'call':
                    out.append(('truthy', x) if v else mk_not(('truthy', x)))
                if v is not None and x[0] != 'call':
                    out.append(mk_not(('isnone', x)))
                if isinstance(v, str) and x[0] == 'strof' and self.typeof(x[1]) == ('any',):
                    pass
        elif k in ('le', 'lt') and not neg:
            if a[2][0] == 'call' and a[2][1] == 'len' and is_const(a[1]) and a[1][2] + (k == 'lt') >= 1:
                out.append(('truthy', a[2][2][0]))
        elif k == 'any' and not neg:
            out.append(('truthy', a[2]))
            inner = self.close(frozenset([a[3]]))
            if inner is None or not self.sat(inner):
                return None
        elif k == 'istype' and not neg:
            if a[1][0] in ('attr', 'elem', 'idx', 'val'):
                t = self.typeof(a[1])
                ms = P.members(t)
                if ms and all(m[0] == 'inst' for m in ms):
                    if not any(cc.name in a[2] for m in ms for cc in m[1].mro()):
                        if not any(self.m.prog.class_named(n) and m[1] in self.m.prog.class_named(n).mro() for n in a[2] for m in ms):
                            return None
                out.append(mk_not(('isnone', a[1])))
        return out

    def clash(self, known):
        eqs, types, lens, nlens = {}, {}, {}, {}
        for c in known:
            neg = c[0] == 'not'
            a = c[1] if neg else c
            if a[0] == 'eq' and is_const(a[2]):
                eqs.setdefault(a[1], ([], []))[1 if neg else 0].append(a[2][2])
            elif a[0] == 'istype':
                types.setdefault(a[1], ([], []))[1 if neg else 0].append(set(a[2]))
            elif a[0] == 'le' and is_const(a[1]) and a[2][0] == 'call' and a[2][1] == 'len':
                (nlens if neg else lens).setdefault(a[2][2][0], []).append(a[1][2])
        for x, (pos, neg) in eqs.items():
            if x[0] == 'call' and x[1] == 'len' and pos:
                n, y = pos[0], x[2][0]
                if n and mk_not(('truthy', y)) in known or not n and ('truthy', y) in known:
                    return True
                if y in lens and n < max(lens[y]) or y in nlens and n >= min(nlens[y]):
                    return True
            if len({(type(v) is str, v) for v in pos}) > 1:
                return True
            d = self.domain(x)
            if d is not None and not pos:
                none_ok = self.optional(x) and mk_not(('isnone', x)) not in known
                falsy_ok = any(not v for v in d)
                if all(v in neg for v in d) and not none_ok:
                    return True
        # keyword attribute that is set must be one of its words: nothing more to do here
        for x, (pos, neg) in types.items():
            for i, p in enumerate(pos):
                for q in pos[i + 1:]:
                    if not (p & q):
                        return True
                for q in neg:
                    if p <= q:
                        return True
            if neg and not pos:
                ks = None
                if x[0] in ('elem', 'idx', 'attr', 'val'):
                    ks = self.m.classes_of(x, self.w)
                if ks and mk_not(('isnone', x)) in known or ks and not self.optional(x) or ks and x[0] == 'elem':
                    if all(any(k.name in q for q in neg) for k in ks):
                        return True
            # type tests against a class list
        for x, ns in lens.items():
            if x in nlens and min(nlens[x]) <= max(ns):
                return True
            if mk_not(('truthy', x)) in known:
                return True
        return False

    def simp(self, c, known):
        s = simp(c, known)
        return s

    # ------------------------------------------------------------- splitting
    def assume(self, facts, c):
        """facts (closed) + c, closed; None if impossible."""
        if c == TRUE:
            return facts
        if c == FALSE:
            return None
        s = simp(c, facts)
        if s == TRUE:
            return facts
        if s == FALSE:
            return None
        return self.close(facts | {s})

    def sat(self, facts, budget=200):
        """Is the closed set satisfiable as far as the theory can tell (case splits on clauses)?"""
        if facts is None:
            return False
        cl = sorted((c for c in facts if c[0] == 'or'), key=lambda c: len(c[1]))
        if not cl or budget <= 0:
            return True
        c = cl[0]
        base = facts - {c}
        for m in c[1]:
            f = self.close(base | {m})
            if f is not None and self.sat(f, budget // max(1, len(c[1]))):
                return True
        return False

    def leaves(self, v, facts):
        """Yield (facts, leaf) of the decision tree v; impossible paths are dropped."""
        if v[0] == 'ite':
            for c, sub in ((v[1], v[2]), (mk_not(v[1]), v[3])):
                f = self.assume(facts, c)
                if f is not None and self.sat(f):
                    yield from self.leaves(sub, f)
            return
        yield facts, v
