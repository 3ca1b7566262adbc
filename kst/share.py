"""Sharing analysis: the abstract interpreter with object identities kept.

Objects keep their allocation site through loops; module level and class level containers and objects, mutable default
arguments and results of memoised functions are tagged ('global', name, value)."""
import ast
from . import program as P
from .absint import Interp, State, Inst, Cell
from .values import *

MEMO = ('lru_cache', 'cache', 'cached', 'memoize', 'memoise', 'memo', 'cached_property', 'singleton')


def mutable(v):
    """Could v be (or contain) a mutable object?"""
    return v[0] in ('ref', 'obj', 'parse', 'map', 'global') or (v[0] == 'seq' and (v[1] != 'tuple' or any(
        mutable(p[1]) for p in v[2] if p[0] == 'item'))) or (v[0] == 'call' and v[1] in ('set', 'list', 'dict')) \
        or (v[0] == 'ite' and (mutable(v[2]) or mutable(v[3])))


class TrackInterp(Interp):
    def resolve(self, v, st, since=0, seen=()):
        if since:
            return v
        return super().resolve(v, st, since, seen)

    def shared(self, name, v):
        """v is evaluated once and shared between calls."""
        if v[0] == 'obj' or v[0] == 'parse':
            return ('global', name, v)
        if v[0] == 'seq' and v[1] != 'tuple':
            if not v[2] or any(p[0] != 'item' or mutable(p[1]) for p in v[2]):
                return ('global', name, v)
        if v[0] == 'seq' and any(p[0] == 'item' and mutable(p[1]) for p in v[2]):
            return ('global', name, v)
        if v[0] == 'map':
            if not v[1] or any(p[0] != 'ent' or mutable(p[2]) for p in v[1]):
                return ('global', name, v)
        if v[0] == 'call' and v[1] in ('set', 'list', 'dict', 'collections.defaultdict', 'collections.OrderedDict', 'defaultdict',
                                       'collections.deque', 'collections.Counter', 'weakref.WeakValueDictionary', 'itertools.count'):
            return ('global', name, v)
        return v

    def module_const(self, mod, expr, name):
        key = (mod.name, id(expr))
        if key not in self.constcache:
            self.constcache[key] = top('recursive constant')
            fn = P.FuncInfo(mod, ast.Lambda(args=ast.arguments([], [], None, [], [], None, []), body=expr))
            self.stack.append(fn)
            s = State({}, {}, ())
            sub = self.eval(expr, s)
            self.stack.pop()
            self.constcache[key] = self.shared(f'{mod.name}.{name}', self.resolve(sub, s))
        return self.constcache[key]

    def bind_args(self, func, args, kwargs, st, node):
        a = func.node.args
        env = super().bind_args(func, args, kwargs, st, node)
        params = [p.arg for p in a.posonlyargs + a.args]
        given = set(params[:len(args)]) | set(kwargs)
        ds = list(zip(params[len(params) - len(a.defaults):], a.defaults)) + [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in ds:
            if n not in given and n in env and env[n][0] in ('ref', 'obj', 'parse', 'seq', 'map', 'call'):
                v = self.resolve(env[n], st)
                if v[0] == 'seq' and v[1] == 'tuple' and not mutable(v):
                    continue
                env[n] = ('global', f'default of {n} in {func.qualname}', v)
        return env

    def call(self, func, args, kwargs, st, node):
        v, s2 = super().call(func, args, kwargs, st, node)
        decos = [P._deco_name(d) for d in getattr(func.node, 'decorator_list', [])]
        if s2 is not None and any(d in MEMO for d in decos if d):
            r = self.resolve(v, s2)
            if mutable(r):
                return ('global', f'memoised result of {func.qualname}', r), s2
        return v, s2

    def call_user(self, fi, args, kwargs, st, node):
        v = super().call_user(fi, args, kwargs, st, node)
        if v[0] == 'parse':
            decos = [P._deco_name(d) for d in fi.node.decorator_list]
            if any(d in MEMO for d in decos if d):
                return ('global', f'memoised result of {fi.qualname}', v)
            return self.alloc(st, Inst(v[1], {}, v))
        return v

    def default_of(self, f, st):
        v = super().default_of(f, st)
        if f.factory is None and f.default is not None and mutable(v):
            return ('global', f'default of {f.cls.name}.{f.name}', self.resolve(v, st))
        return v

    def typeof(self, v):
        if v[0] == 'global':
            return super().typeof(v[2])
        if v[0] == 'ref':
            return ('any',)
        return super().typeof(v)

    def external(self, name, args, kwargs, st, node):
        if name in ('copy.copy',) and len(args) == 1 and args[0][0] == 'ref':
            c = st.heap.get(args[0][1])
            if c is not None:
                return self.alloc(st, c.copy())
        if name == 'copy.copy' and args and args[0][0] == 'global' and args[0][2][0] == 'obj':
            o = args[0][2]
            # the parts stay shared
            return self.alloc(st, Inst(o[1], {f: (('global', f'{args[0][1]}.{f}', x) if mutable(x) else x) for f, x in o[2]}))
        if name == 'copy.deepcopy' and len(args) == 1:
            if args[0][0] == 'global':
                return args[0][2]
            return self.resolve(args[0], st)
        if name.endswith('dataclasses.replace') and args and args[0][0] in ('ref', 'global'):
            if args[0][0] == 'ref':
                c = st.heap.get(args[0][1])
                if isinstance(c, Inst):
                    n = c.copy()
                    n.fields.update(kwargs)
                    return self.alloc(st, n)
            elif args[0][2][0] == 'obj':
                o = args[0][2]
                d = {f: (('global', f'{args[0][1]}.{f}', x) if mutable(x) else x) for f, x in o[2]}
                d.update(kwargs)
                return self.alloc(st, Inst(o[1], d))
        return super().external(name, args, kwargs, st, node)

    def method(self, base, name, args, kwargs, st, node):
        if base[0] == 'global' and name in ('get', 'setdefault', 'pop'):
            if name != 'get':
                self.mutate(base, name, args, st, node)
            return ('idx', base, args[0] if args else NONE)
        if base[0] == 'global' and name == 'copy' and base[2][0] in ('seq', 'map'):
            return self.alloc(st, Cell(base[2]))
        return super().method(base, name, args, kwargs, st, node)


def root(v):
    """Object a chain of accesses starts from; slices copy their outermost list only."""
    depth = 0
    while True:
        if v[0] in ('attr', 'idx'):
            v = v[1]
            depth += 1
        elif v[0] in ('elem', 'val', 'key', 'eidx'):
            v = v[2]
            depth += 1
        elif v[0] in ('last', 'first'):
            v = v[4]
        elif v[0] == 'until':
            v = v[2]
        elif v[0] == 'slice' or (v[0] == 'call' and v[1] in ('list', 'sorted', 'reversed', 'tuple') and v[2]):
            if depth == 0:
                return ('fresh',)
            v = v[1] if v[0] == 'slice' else v[2][0]
        elif v[0] == 'ref':
            return v
        else:
            return v


def global_part(v, I):
    """Name of the shared object v denotes (or a mutable part of it), None when it is a plain value."""
    path = []
    w = v
    while w[0] in ('attr', 'idx', 'elem', 'val', 'first', 'last'):
        path.append(w)
        w = w[1] if w[0] in ('attr', 'idx') else w[2] if w[0] in ('elem', 'val') else w[4]
    if w[0] != 'global':
        return None
    cur = w[2]
    for a in reversed(path):
        if a[0] == 'attr' and cur[0] == 'obj':
            cur = dict(cur[2]).get(a[2], ('top',))
        elif a[0] in ('idx', 'elem', 'val', 'first', 'last') and cur[0] in ('seq', 'map'):
            kids = [p[1] for p in cur[2] if p[0] in ('item', 'spread')] if cur[0] == 'seq' else [p[2] for p in cur[1] if p[0] == 'ent']
            if not kids:
                return w[1]          # a container filled elsewhere
            cur = next((k for k in kids if mutable(k)), kids[0])
        elif cur[0] == 'call':
            return w[1]
        else:
            t = P.without_none(I.typeof(v))
            return w[1] if t[0] in ('list', 'dict', 'inst') else None
    return w[1] if mutable(cur) or cur[0] == 'call' and cur[1] not in ('str', 'int', 'float') else None


class Walk:
    """Everything reachable from a value: shared objects, objects reachable twice, parts of the parsed input."""
    def __init__(self, I, st, prog):
        self.I, self.st, self.prog = I, st, prog
        self.refs = {}        # id -> [(path, conds)]
        self.globals = []     # (path, name)
        self.loopshared = []  # (path, ref)
        self.alias = []       # (path, value)
        self.n = 0

    def go(self, v, path, typ=('any',), conds=(), loops=()):
        self.n += 1
        if self.n > 20000:
            return
        k = v[0]
        if k == 'ref':
            i = v[1]
            own = self.I.alloc_loops.get(i, ())
            sh = [L for L in loops if L not in own]
            if sh:
                self.loopshared.append((path, i))
            seen = i in self.refs
            self.refs.setdefault(i, []).append((path, conds))
            if seen:
                return
            c = self.st.heap.get(i)
            if isinstance(c, Inst):
                for f, x in c.fields.items():
                    t = self.prog.field_type(c.cls, f) if c.cls else ('any',)
                    self.go(x, f'{path}.{f}' if path else f, t, conds, ())
            elif isinstance(c, Cell):
                self.go_container(c.v, path, typ, conds, ())
            return
        if k == 'global':
            self.globals.append((path, v[1]))
            return
        if k in ('attr', 'idx', 'elem', 'val'):
            g = global_part(v, self.I)
            if g is not None:
                self.globals.append((path, g))
                return
            self.check_alias(v, path, typ)
            return
        if k in ('param', 'slice'):
            self.check_alias(v, path, typ)
            return
        if k == 'ite':
            self.go(v[2], path, typ, conds + self.tag(v[1], loops), loops)
            self.go(v[3], path, typ, conds + self.tag(mk_not(v[1]), loops), loops)
            return
        if k in ('last',):
            self.go(v[4], path, typ, conds + self.tag(v[3], (v[1],)), ())
            self.go(v[5], path, typ, conds, ())
            return
        if k == 'first':
            self.go(v[4], path, typ, conds, ())
            return
        if k == 'obj':
            for f, x in v[2]:
                self.go(x, f'{path}.{f}' if path else f, self.prog.field_type(v[1], f) if v[1] else ('any',), conds, ())
            return
        if k in ('seq', 'map'):
            self.go_container(v, path, typ, conds, loops)

    def go_container(self, v, path, typ, conds, loops):
        el = ('any',)
        for m in P.members(typ):
            if m[0] == 'list':
                el = m[1]
            elif m[0] == 'dict':
                el = m[2]
        parts = v[2] if v[0] == 'seq' else v[1] if v[0] == 'map' else None
        if parts is None:
            self.go(v, path, typ, conds, loops)
            return
        for n, p in enumerate(parts):
            self.part(p, f'{path}[{n}]', el, conds, loops)

    def part(self, p, path, el, conds, loops):
        if p[0] == 'item':
            self.go(p[1], path, el, conds, loops)
        elif p[0] == 'ent':
            self.go(p[2], path, el, conds, loops)
        elif p[0] == 'alt':
            for n, q in enumerate(p[2]):
                self.part(q, path + f'a{n}', el, conds + self.tag(p[1], loops), loops)
            for n, q in enumerate(p[3]):
                self.part(q, path + f'b{n}', el, conds + self.tag(mk_not(p[1]), loops), loops)
        elif p[0] == 'loop':
            for n, q in enumerate(p[3]):
                self.part(q, path + f'*{n}', el, conds, loops + (p[1],))
        elif p[0] == 'spread':
            x = p[1]
            if x[0] == 'seq' or x[0] == 'map':
                self.go_container(x, path, ('list', el), conds, loops)
            elif x[0] == 'global':
                inner = x[2]
                if inner[0] == 'seq' and any(q[0] == 'item' and mutable(q[1]) for q in inner[2]):
                    self.globals.append((path, x[1]))
            elif any(m[0] in ('list', 'dict') for m in P.members(el)) and root(('elem', 0, x)) == ('param', 'exp'):
                self.alias.append((path, x))

    @staticmethod
    def tag(c, loops):
        return tuple((loops[-1] if loops else None, x) for x in conjuncts(c))

    def check_alias(self, v, path, typ):
        r = root(v)
        if r != ('param', 'exp'):
            return
        if any(m[0] in ('list', 'dict') for m in P.members(typ)):
            self.alias.append((path, v))

    def twice(self):
        for i, ps in self.refs.items():
            by = {}
            own = self.I.alloc_loops.get(i, ())
            for p, c in ps:
                # a condition of a loop iteration separates only objects made in that iteration
                by.setdefault(p, []).append(tuple(x for L, x in c if L is None or L in own))
            names = list(by)
            for a in range(len(names)):
                for b in range(a + 1, len(names)):
                    for ca in by[names[a]]:
                        for cb in by[names[b]]:
                            if simp(mk_and(list(ca) + list(cb)), frozenset()) != FALSE and not excluded(ca, cb):
                                yield i, names[a], names[b]


def excluded(ca, cb):
    facts = expand_facts(tuple(ca))
    return any(simp(x, facts) == FALSE for x in cb)
