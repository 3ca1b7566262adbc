"""Abstract interpreter (dataflow over the syntax tree) producing gated value summaries.

A function body is walked once per loop-fixpoint pass; branches are joined with gated values,
loops are summarised into `loop` parts (accumulators) and `last` values (assignments).
No code of the analysed program is executed."""
import ast
import builtins
import itertools
from . import program as P
from .values import *
from . import values as V


class Undecided(Exception):
    pass


class State:
    __slots__ = ('env', 'heap', 'pc')

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def copy(self, extra=None):
        return State(dict(self.env), {k: v.copy() for k, v in self.heap.items()},
                     self.pc + ((extra,) if extra is not None and extra != TRUE else ()))


class Inst:
    """Heap cell of an object with fields."""
    __slots__ = ('cls', 'fields', 'base')

    def __init__(self, cls, fields, base=None):
        self.cls, self.fields, self.base = cls, fields, base

    def copy(self):
        return Inst(self.cls, dict(self.fields), self.base)


class Cell:
    """Heap cell of a list/dict: an immutable seq/map value."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def copy(self):
        return Cell(self.v)


class Outcome:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Event:
    def __init__(self, kind, pc, node, func, data):
        self.kind, self.pc, self.node, self.func, self.data = kind, pc, node, func, data
        self.val = None
        self.final = None

    @property
    def lineno(self):
        return getattr(self.node, 'lineno', 0)

    def where(self):
        return f'{self.func.module.path}:{self.lineno} {self.func.qualname}'


STRM = {'decode', 'isprintable', 'isascii', 'isupper', 'islower', 'isdecimal', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'split', 'startswith', 'endswith', 'zfill',
        'title', 'capitalize', 'ljust', 'rjust', 'splitlines', 'isdigit', 'find', 'rfind', 'index', 'rindex', 'count', 'encode',
        'casefold', 'partition', 'rpartition', 'removeprefix', 'removesuffix', 'is_integer', 'group', 'groups',
        'expandtabs', 'swapcase', 'center', 'translate', 'isspace', 'isnumeric', 'isalpha', 'isalnum', 'isidentifier', 'rsplit',
        'groupdict', 'span', 'start', 'end', 'format_map', 'utctimetuple', 'total_seconds', 'isoformat', 'as_posix'}
ORDINARY = {'classmethod', 'staticmethod', 'property', 'setter', 'getter', 'deleter', 'wraps', 'abstractmethod', 'override', 'final', 'overload', 'contextmanager', 'no_type_check',
            'lru_cache', 'cache', 'cached', 'memoize', 'memoise', 'memo', 'cached_property', 'singleton', 'dataclass', 'total_ordering'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault',
            'popitem', 'add', 'discard', '__setitem__', '__delitem__'}
PURE = {'len', 'str', 'float', 'int', 'bool', 'type', 'isinstance', 'round', 'abs', 'min', 'max', 'sum', 'repr',
        'sorted', 'reversed', 'range', 'enumerate', 'zip', 'list', 'tuple', 'dict', 'set', 'frozenset', 'map', 'filter',
        'any', 'all', 'iter', 'next', 'getattr', 'hasattr', 'hex', 'ord', 'chr', 'format', 'id', 'hash', 'callable',
        'issubclass', 'super', 'slice', 'divmod', 'pow', 'bin', 'oct', 'ascii', 'vars', 'dir', 'object'}


def partial(sl):
    """Does the slice leave out elements of a long sequence for certain?"""
    lo, hi = sl[2], sl[3]
    return lo not in (NONE, const(0)) and is_const(lo) or hi != NONE and is_const(hi)


class Interp:
    MAXDEPTH = 14

    def __init__(self, prog, virtual_props=True):
        self.prog = prog
        self.virtual_props = virtual_props     # treat getter/setter pairs as attributes
        self.steps = {}
        self.phi_refs = {}
        self.phi_writes = {}
        self.raises = []                       # Events
        self.events = []
        self.fresh = 0
        self.depth = 0
        self.stack = []
        self.notes = []
        self.constcache = {}
        self.loopstack = []
        self.broke, self.last_broke = [], FALSE
        self.alloc_loops = {}
        self.poisoned = set()                  # loop-carried values whose elements are changed in place
        self.iters = set()                     # references of iterators
        self.no_inline = set()                 # names of functions kept opaque
        self.inline_ser = False

    # ------------------------------------------------------------ helpers
    def new_id(self):
        self.fresh += 1
        return self.fresh

    def alloc(self, st, cell):
        i = self.new_id()
        self.alloc_loops[i] = tuple(self.loopstack)
        st.heap[i] = cell
        return ('ref', i)

    def note(self, node, msg):
        self.notes.append((getattr(node, 'lineno', 0), self.stack[-1].qualname if self.stack else '?', msg))

    def event(self, kind, st, node, data):
        self.events.append(Event(kind, mk_and(st.pc), node, self.stack[-1] if self.stack else None, data))

    def deref(self, v, st):
        """Heap list/dict -> its value; everything else unchanged."""
        if v[0] == 'ref' and isinstance(st.heap.get(v[1]), Cell):
            return st.heap[v[1]].v
        return v

    def resolve(self, v, st, since=0, seen=()):
        """Replace heap references (allocated after `since`) by structural values, deeply."""
        def fn(x):
            if x[0] == 'ref' and len(x) == 2:
                if x[1] <= since:
                    return x
                if x[1] in seen:
                    return top('cyclic')
                cell = st.heap.get(x[1])
                if cell is None:
                    return top('dangling')
                if isinstance(cell, Cell):
                    return self.resolve(cell.v, st, since, seen + (x[1],))
                fields = []
                names = list(cell.cls.fields()) if cell.cls else []
                for n in names + [n for n in cell.fields if n not in names]:
                    fields.append((n, self.resolve(self.field_of(cell, n, st), st, since, seen + (x[1],))))
                return ('obj', cell.cls, tuple(fields))
            return None
        return subst(v, fn)

    def field_of(self, cell, name, st):
        if name in cell.fields:
            return cell.fields[name]
        if cell.base is not None:
            return ('attr', cell.base, name)
        return ('undef',)

    # ------------------------------------------------------------ types
    def typeof(self, v):
        k = v[0]
        if k == 'const':
            n = v[1]
            return {'NoneType': ('none',), 'str': ('str',), 'int': ('int',), 'float': ('float',), 'bool': ('bool',)}.get(n, ('any',))
        if is_bool_expr(v):
            return ('bool',)
        if k in ('str', 'fmt', 'ser'):
            return ('str',)
        if k == 'param':
            return self.param_types.get(v[1], ('any',))
        if k == 'attr':
            b = P.without_none(self.typeof(v[1]))
            ts = []
            for m in P.members(b):
                if m[0] == 'inst':
                    ts.append(self.prog.field_type(m[1], v[2]))
                else:
                    return ('any',)
            return P.union(ts)
        if k in ('elem',):
            b = P.without_none(self.typeof(v[2]))
            if b[0] == 'list':
                return b[1]
            return ('any',)
        if k == 'key':
            b = P.without_none(self.typeof(v[2]))
            return b[1] if b[0] == 'dict' else ('any',)
        if k == 'val':
            b = P.without_none(self.typeof(v[2]))
            return b[2] if b[0] == 'dict' else ('any',)
        if k == 'eidx':
            return ('int',)
        if k == 'idx':
            b = P.without_none(self.typeof(v[1]))
            if b[0] == 'list':
                return b[1]
            if b[0] == 'dict':
                return b[2]
            if b[0] == 'str':
                return ('str',)
            return ('any',)
        if k == 'slice':
            return P.without_none(self.typeof(v[1]))
        if k == 'obj':
            return ('inst', v[1])
        if k == 'parse':
            return ('inst', v[1])
        if k == 'seq':
            return ('list', ('any',))
        if k == 'map':
            return ('dict', ('any',), ('any',))
        if k == 'ite':
            return P.union([self.typeof(v[2]), self.typeof(v[3])])
        if k == 'last':
            return P.union([self.typeof(v[4]), self.typeof(v[5])])
        if k == 'first':
            return self.typeof(v[4])
        if k == 'until':
            return self.typeof(v[2])
        if k == 'call':
            n = v[1]
            if n in ('len', 'int', 'ord'):
                return ('int',)
            if n in ('float',):
                return ('float',)
            if n in ('str', 'lower', 'upper', 'strip', 'replace', 'hex', 'lstrip', 'rstrip', 'zfill', 'dequote', 'join', 'repr', 'mul'):
                return ('str',)
            if n in ('sorted', 'reversed', 'set', 'frozenset', 'dedup', 'slice_step') and v[2]:
                return P.without_none(self.typeof(v[2][0]))
            if n in ('abs',) and v[2]:
                return self.typeof(v[2][0])
            if n in ('startswith', 'endswith', 'bool', 'isdigit'):
                return ('bool',)
        return ('any',)

    param_types = {}

    def norm_eq(self, a, b, st):
        a, b = self.deref(a, st), self.deref(b, st)
        r = mk_eq(a, b)
        if r[0] == 'eq' and is_const(r[2]) and r[2][1] == 'bool' and self.typeof(r[1]) == ('bool',):
            c = mk_truthy(r[1])
            return c if r[2][2] else mk_not(c)
        if r[0] == 'eq' and r[2] == const('') and self.typeof(r[1]) == ('str',) and r[1][0] != 'ser':
            return mk_not(mk_truthy(r[1]))
        if r[0] == 'eq' and r[2][0] == 'map' and not r[2][1]:
            return mk_not(mk_truthy(r[1]))
        return r

    # ------------------------------------------------------------ entry point
    def run(self, func, args, heap=None, kwargs=None):
        """Analyse func with abstract args. Returns (value, State, returns-list)."""
        st = State({}, heap or {}, ())
        return self.call(func, list(args), dict(kwargs or {}), st, None)

    # ------------------------------------------------------------ calls
    def bind_args(self, func, args, kwargs, st, node):
        a = func.node.args
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        rest = []
        cond = {}
        if any(v[0] == 'starred' for v in args):
            for n, v, c in self.spread_args(params, args, st):
                if n is None:
                    rest.append(v)
                else:
                    env[n] = v
                    if c is not None:
                        cond[n] = c
        else:
            for i, v in enumerate(args):
                if i < len(params):
                    env[params[i]] = v
                else:
                    rest.append(v)
        if a.vararg:
            env[a.vararg.arg] = ('seq', 'tuple', tuple(('item', v) for v in rest))
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = []
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                env[k] = v
            else:
                extra.append((k, v))
        if a.kwarg:
            env[a.kwarg.arg] = ('map', tuple(('ent', const(k), v) for k, v in extra))
        for k, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[k] = d
        for p in params + kwonly:
            if p not in env or p in cond and p in defaults:
                if p in defaults:
                    sub = State({}, st.heap, st.pc)
                    self.stack.append(func)
                    x = self.eval(defaults[p], sub)
                    env[p] = mk_ite(cond[p], env[p], x) if p in cond else x
                    self.stack.pop()
                else:
                    env[p] = top(f'missing argument {p}')
        return env

    def decorated(self, func, decos, args, kwargs, st, node):
        """A call of a function wrapped by decorators of the repository."""
        plain = P.FuncInfo(func.module, func.node, func.cls, 'function', func.closure)
        plain.plain = True
        s = st.copy()
        v = ('func', _F(plain), None)
        self.stack.append(func)
        self.depth += 1
        for d in reversed(decos):
            sub = State(dict(func.closure or {}), s.heap, s.pc)
            v = self.apply(self.eval(d, sub), [v], {}, sub, node)
            s.heap = sub.heap
        self.depth -= 1
        self.stack.pop()
        r = self.apply(v, args, kwargs, s, node)
        if FALSE in s.pc:
            return ('undef',), None
        return r, s

    def call(self, func, args, kwargs, st, node):
        """Inline a call. Returns (value, state) ; state.env is the caller's env."""
        decos = [d for d in getattr(func.node, 'decorator_list', ()) if P._deco_name(d) not in ORDINARY]
        if decos and not getattr(func, 'plain', False) and self.depth <= self.MAXDEPTH and sum(1 for f in self.stack if f.node is func.node) <= 2:
            return self.decorated(func, decos, args, kwargs, st, node)
        if self.depth > self.MAXDEPTH or sum(1 for f in self.stack if f.node is func.node) > 2:
            self.note(node, f'call depth: {func.qualname}')
            return top('depth'), st
        env = self.bind_args(func, args, kwargs, st, node)
        env['$frame'] = ('frame', self.new_id())
        parent = func.closure
        if parent is not None:
            if parent.get('$frame') == st.env.get('$frame'):
                parent = st.env
            env['$parent'] = ('penv', _Env(parent))
        self.stack.append(func)
        self.depth += 1
        inner = State(env, st.heap, st.pc)
        if isinstance(func.node, ast.Lambda):
            v = self.eval(func.node.body, inner)
            outs = [Outcome('return', inner, v)]
        else:
            if func.is_gen:
                env['$yield'] = ('seq', 'list', ())
            outs = self.exec_block(func.node.body, inner)
            outs = [Outcome('return', o.st, NONE) if o.kind == 'fall' else o for o in outs]
            if func.is_gen:
                for o in outs:
                    if o.kind == 'return':
                        o.val = o.st.env['$yield']
        self.depth -= 1
        self.stack.pop()
        rets = [o for o in outs if o.kind == 'return']
        if not rets:
            # every path raises
            return ('undef',), None
        acc = rets[-1]
        accst, accv = acc.st, acc.val
        for o in reversed(rets[:-1]):
            c = self.rel_cond(o.st, accst)
            accv = mk_ite(c, o.val, accv)
            accst = self.merge(o.st, accst)
        # nonlocal write-back
        nenv = dict(st.env)
        if func.closure is not None and not isinstance(func.node, ast.Lambda):
            for n in ast.walk(func.node):
                if isinstance(n, ast.Nonlocal):
                    for nm in n.names:
                        if nm in accst.env:
                            nenv[nm] = accst.env[nm]
        return accv, State(nenv, accst.heap, accst.pc)

    def rel_cond(self, a, b):
        """Condition (relative to the common prefix of path conditions) under which state a is taken."""
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] == b.pc[n]:
            n += 1
        return mk_and(a.pc[n:])

    def merge(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] == b.pc[n]:
            n += 1
        ca, cb = mk_and(a.pc[n:]), mk_and(b.pc[n:])
        pc = a.pc[:n]
        d = mk_or([ca, cb])
        if d != TRUE:
            pc = pc + (d,)
        env = {}
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k, ('undef',)), b.env.get(k, ('undef',))
            env[k] = x if x == y else mk_ite_u(ca, x, y)
        heap = {}
        for i in set(a.heap) | set(b.heap):
            x, y = a.heap.get(i), b.heap.get(i)
            if x is None or y is None:
                heap[i] = x or y
            elif isinstance(x, Cell) and isinstance(y, Cell):
                heap[i] = Cell(x.v if x.v == y.v else mk_ite(ca, x.v, y.v))
            elif isinstance(x, Inst) and isinstance(y, Inst):
                f = {}
                for k in list(x.fields) + [k for k in y.fields if k not in x.fields]:
                    p, q = self.field_of(x, k, a), self.field_of(y, k, b)
                    f[k] = p if p == q else mk_ite_u(ca, p, q)
                heap[i] = Inst(x.cls, f, x.base)
            else:
                heap[i] = x
        return State(env, heap, pc)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        """-> list of Outcomes; at most one 'fall'."""
        done = []
        cur = st
        for s in stmts:
            if cur is None:
                break
            outs = self.exec_stmt(s, cur)
            cur = None
            for o in outs:
                if o.kind == 'fall':
                    cur = o.st if cur is None else self.merge(cur, o.st)
                else:
                    done.append(o)
        if cur is not None:
            done.append(Outcome('fall', cur))
        return done

    def exec_stmt(self, s, st):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            self.note(s, f'statement {type(s).__name__}')
            return [Outcome('fall', st)]
        return m(s, st)

    def fall(self, st):
        return [Outcome('fall', st)] if st is not None else []

    def ev(self, e, st):
        """Evaluate; st is updated in place (calls replace its contents)."""
        return self.eval(e, st)

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return self.fall(st)
        self.eval(s.value, st)
        return self.fall_if_alive(st)

    def fall_if_alive(self, st):
        if FALSE in st.pc:
            return []
        return [Outcome('fall', st)]

    def st_Pass(self, s, st):
        return self.fall(st)

    def st_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
        return self.fall(st)

    def st_ImportFrom(self, s, st):
        for a in s.names:
            if s.module in self.prog.modules:
                r = self.prog.lookup(self.prog.modules[s.module], a.name)
                st.env[a.asname or a.name] = self.binding(r, st)
            else:
                st.env[a.asname or a.name] = ('ext', f'{s.module}.{a.name}')
        return self.fall(st)

    def st_Global(self, s, st):
        self.event('global', st, s, tuple(s.names))
        for n in s.names:
            st.env['$global:' + n] = TRUE
        return self.fall(st)

    def st_Nonlocal(self, s, st):
        for n in s.names:
            st.env[n] = self.lookup_name(n, st)
        return self.fall(st)

    def st_FunctionDef(self, s, st):
        st.env[s.name] = ('func', _F(P.FuncInfo(self.stack[-1].module, s, None, 'function', st.env)), None)
        return self.fall(st)

    def st_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return self.fall_if_alive(st)

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)
        return self.fall_if_alive(st)

    def st_AugAssign(self, s, st):
        cur = self.eval(_load(s.target), st)
        v = self.eval(s.value, st)
        if cur[0] == 'ref' and isinstance(st.heap.get(cur[1]), Cell) and isinstance(s.op, ast.Add):
            self.list_extend(cur, v, st, s)
            return self.fall_if_alive(st)
        t = self.typeof(cur)
        if isinstance(s.op, (ast.Add, ast.BitOr)) and t[0] in ('list', 'dict') and cur[0] not in ('seq', 'map', 'slice'):
            self.event('mutate', st, s, (cur, 'extend'))
            return self.fall_if_alive(st)
        if isinstance(s.op, ast.Add) and t == ('any',) and cur[0] in ('param', 'elem', 'idx', 'attr', 'global') and self.typeof(self.deref(v, st))[0] == 'list':
            self.event('mutate', st, s, (cur, 'extend'))
        r = self.binop(s.op, cur, v, st, s)
        self.assign(s.target, r, st, s)
        return self.fall_if_alive(st)

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                base = self.eval(t.value, st)
                self.mutate(base, 'del', (), st, s)
        return self.fall(st)

    def st_Assert(self, s, st):
        c = self.cond(s.test, st)
        c = simp(c, expand_facts(st.pc))
        if c == TRUE:
            return self.fall(st)
        self.raises.append(Event('assert', mk_and(st.pc + (mk_not(c),)), s, self.stack[-1], None))
        if c == FALSE:
            return []
        st.pc = st.pc + (c,)
        return self.fall(st)

    def st_Raise(self, s, st):
        name = None
        if s.exc is not None:
            e = s.exc
            name = ast.unparse(e.func) if isinstance(e, ast.Call) else ast.unparse(e)
        self.raises.append(Event('raise', mk_and(st.pc), s, self.stack[-1], name))
        return [Outcome('raise', st)]

    def st_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if FALSE in st.pc:
            return []
        return [Outcome('return', st, v)]

    def st_Continue(self, s, st):
        return [Outcome('continue', st)]

    def st_Break(self, s, st):
        return [Outcome('break', st)]

    def branch(self, c, st, ft, ff):
        """Run ft/ff (state -> outcomes) under c / not c."""
        c = simp(c, expand_facts(st.pc))
        if c == TRUE:
            return ft(st)
        if c == FALSE:
            return ff(st)
        a, b = st.copy(c), st.copy(mk_not(c))
        oa, ob = ft(a), ff(b)
        out, fl = [], []
        for o in oa + ob:
            (fl if o.kind == 'fall' else out).append(o)
        fl = [o for o in fl if FALSE not in o.st.pc] or fl
        if fl:
            acc = fl[0].st
            for o in fl[1:]:
                acc = self.merge(acc, o.st)
            out.append(Outcome('fall', acc))
        return out

    def st_If(self, s, st):
        c = self.cond(s.test, st)
        if FALSE in st.pc:
            return []
        return self.branch(c, st, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x))

    def st_Match(self, s, st):
        subj = self.eval(s.subject, st)

        def do(cases, st):
            if not cases:
                return self.fall(st)
            case = cases[0]
            c, binds = self.pattern(case.pattern, subj, st)

            def hit(x):
                for n, v in binds.items():
                    x.env[n] = v
                if case.guard is not None:
                    g = self.cond(case.guard, x)
                    return self.branch(g, x, lambda y: self.exec_block(case.body, y), lambda y: do(cases[1:], y))
                return self.exec_block(case.body, x)
            return self.branch(c, st, hit, lambda x: do(cases[1:], x))
        return do(s.cases, st)

    def pattern(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            return self.norm_eq(v, self.eval(p.value, st), st), {}
        if isinstance(p, ast.MatchSingleton):
            return self.norm_eq(v, const(p.value), st), {}
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern(x, v, st)[0] for x in p.patterns]
            return mk_or(cs), {}
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ({p.name: v} if p.name else {})
            c, b = self.pattern(p.pattern, v, st)
            if p.name:
                b[p.name] = v
            return c, b
        if isinstance(p, ast.MatchSequence):
            cs, b = [mk_istype(v, ('list',))], {}
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            n = len(p.patterns)
            ln = ('call', 'len', (v,), ())
            if star and star[0] == n - 1:
                if n > 1:
                    cs.append(mk_cmp('le', const(n - 1), ln))
                fixed = p.patterns[:-1]
                if p.patterns[-1].name:
                    b[p.patterns[-1].name] = mk_slice(v, const(n - 1), NONE)
            elif not star:
                cs.append(mk_eq(ln, const(n)))
                fixed = p.patterns
            else:
                return top('pattern'), {}
            for i, x in enumerate(fixed):
                c2, b2 = self.pattern(x, mk_idx(v, const(i)), st)
                cs.append(c2)
                b.update(b2)
            return mk_and(cs), b
        if isinstance(p, ast.MatchClass):
            nm = ast.unparse(p.cls)
            if not p.patterns and not p.kwd_patterns:
                return mk_istype(v, (nm.split('.')[-1],)), {}
            if nm in ('list', 'str', 'int', 'float') and len(p.patterns) == 1:
                c, b = self.pattern(p.patterns[0], v, st)
                return mk_and([mk_istype(v, (nm,)), c]), b
        self.note(p, 'pattern')
        return ('truthy', top('pattern')), {}

    def st_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        outs = self.exec_block(s.body, st)
        return outs

    def st_Try(self, s, st):
        pre = st.copy()
        nr, n0 = len(self.raises), len(self.events)
        outs = self.exec_block(s.body + s.orelse, st)
        caught = self.raises[nr:]
        if s.handlers:
            broad = any(h.type is None or ast.unparse(h.type) in ('Exception', 'BaseException') for h in s.handlers)
            flag = self.missing_index(s, pre.copy()) or ('truthy', ('top', f'exception@{self.new_id()}'))
            del self.raises[nr:]
            if not broad:
                self.raises.extend(caught)
            hs = []
            for h in s.handlers:
                x = pre.copy(flag)
                x.env = dict(pre.env)
                if h.name:
                    x.env[h.name] = top('exception')
                hs.extend(self.exec_block(h.body, x))
                self.event('handler', x, h, None)
            # states of the body are valid only when no exception occurred
            for o in outs:
                o.st.pc = pre.pc + (mk_not(flag),) + o.st.pc[len(pre.pc):]
            allo = outs + hs
            if flag in (TRUE, FALSE):
                allo = hs if flag == TRUE else outs
            out, fl = [], []
            for o in allo:
                (fl if o.kind == 'fall' else out).append(o)
            if fl:
                acc = fl[0].st
                for o in fl[1:]:
                    acc = self.merge(acc, o.st)
                out.append(Outcome('fall', acc))
            outs = out
        if s.finalbody:
            nouts = []
            ne, nb = len(self.events), n0
            for o in outs:
                fo = self.exec_block(s.finalbody, o.st)
                for f in fo:
                    nouts.append(Outcome(o.kind, f.st, o.val) if f.kind == 'fall' else f)
            for e in self.events[ne:]:
                e.final = (nb, ne)           # also happens when one of these events fails
            outs = nouts
        return outs

    def missing_index(self, s, st):
        """try: x = a[3] / except IndexError: ..  - the condition under which the handler runs; None if it is not just that."""
        if len(s.body) != 1 or s.orelse or len(s.handlers) != 1 or not isinstance(s.body[0], (ast.Assign, ast.Return, ast.Expr)) or s.body[0].value is None:
            return None
        h = s.handlers[0].type
        names = [ast.unparse(x) for x in (h.elts if isinstance(h, ast.Tuple) else [h])] if h is not None else []
        if not names or set(names) - {'IndexError', 'LookupError'}:
            return None
        if isinstance(s.body[0], ast.Assign) and not all(isinstance(t, (ast.Name, ast.Attribute)) for t in s.body[0].targets):
            return None
        cs = []
        for x in ast.walk(s.body[0].value):
            if isinstance(x, (ast.Call, ast.IfExp, ast.BoolOp, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda, ast.NamedExpr)):
                return None
            if isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Slice):
                k = self.eval(x.slice, st)
                b = self.deref(self.eval(x.value, st), st)
                if not (is_const(k) and isinstance(k[2], int) and k[2] >= 0) or has_top(b):
                    return None
                cs.append(mk_not(mk_cmp('lt', k, self.builtin('len', [b], {}, st, x))))
        return simp(mk_or(cs), expand_facts(st.pc)) if cs else None

    def st_ClassDef(self, s, st):
        self.note(s, 'nested class')
        return self.fall(st)

    # ------------------------------------------------------------ loops
    def st_For(self, s, st):
        it = self.eval(s.iter, st)
        if FALSE in st.pc:
            return []
        if it in self.iters and it[0] == 'ref':           # consumed by the loop
            it, ref = self.deref(it, st), it
            st.heap[ref[1]] = Cell(top('iterator'))

        def body(v, x):
            self.assign(s.target, v, x, s)
            return self.exec_block(s.body, x)
        outs = self.iterate(it, body, st, s)
        broke = self.last_broke
        if s.orelse:
            outs2 = []
            for o in outs:
                if o.kind == 'fall':
                    outs2.extend(self.branch(broke, o.st, self.fall, lambda x: self.exec_block(s.orelse, x)))
                else:
                    outs2.append(o)
            outs = outs2
        # 'break' outcomes have been folded into fall
        return outs

    def st_While(self, s, st):
        t = s.test
        # index loop: while i < len(x): ... i += 1
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], ast.Lt) \
                and s.body and _is_incr(s.body[-1], t.left.id) and \
                not any(_assigns(x, t.left.id) for x in s.body[:-1]) and not _has_continue(s.body):
            i0 = st.env.get(t.left.id)
            lim = self.eval(t.comparators[0], st)
            if i0 is not None and is_const(i0) and isinstance(i0[2], int) and lim[0] == 'call' and lim[1] == 'len':
                x = lim[2][0]
                it = ('call', 'range', (i0, lim), ())

                def body(v, y):
                    y.env[t.left.id] = v
                    return self.exec_block(s.body[:-1], y)
                outs = self.iterate(it, body, st, s)
                for o in outs:
                    if o.kind == 'fall':
                        o.st.env[t.left.id] = lim
                return outs
        self.note(s, 'while loop')
        # havoc everything the body may modify
        pre = st.copy()
        L = self.new_id()
        c = self.cond(t, st)
        mods = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        x = st.copy()
        for n in mods:
            x.env[n] = top(f'while {n}')
        c = self.cond(t, x)
        view = lambda z: {i: c.v if isinstance(c, Cell) else dict(c.fields) for i, c in z.heap.items() if i in pre.heap}
        pre_view, marks = view(st), (len(self.events), len(self.raises))
        for _ in range(4):
            del self.events[marks[0]:], self.raises[marks[1]:]
            outs = self.exec_block(s.body, x)
            fin = st.copy()
            for o in outs:
                if o.kind in ('fall', 'continue', 'break'):
                    self.havoc(fin, pre, o.st)
            if view(fin) == pre_view:
                break
            pre_view = view(fin)
            x = fin.copy()
            for n in mods:
                x.env[n] = top(f'while {n}')
            self.cond(t, x)
        res = []
        for o in outs:
            if o.kind in ('fall', 'continue', 'break'):
                self.havoc(fin, pre, o.st)
            elif o.kind == 'return':
                res.append(Outcome('return', State(o.st.env, o.st.heap, pre.pc + (('truthy', top('while')),)), top('while')))
        for n in mods:
            fin.env[n] = top(f'while {n}')
        res.append(Outcome('fall', fin))
        return res

    def havoc(self, fin, pre, end):
        for i, cell in end.heap.items():
            old = pre.heap.get(i)
            if old is None:
                fin.heap.setdefault(i, cell)
                continue
            if isinstance(cell, Cell) and cell.v != old.v:
                fin.heap[i] = Cell(top('while'))
            elif isinstance(cell, Inst):
                for f, v in cell.fields.items():
                    if old.fields.get(f) != v:
                        fin.heap[i].fields[f] = top('while')

    def iterate(self, it, body, st, node):
        """Run body(elemValue, state) for every element of `it`. Breaks are folded into fall."""
        it = self.deref(it, st)
        parts = self.as_parts(it, st)
        saved, self.broke = self.broke, []
        try:
            return self.iter_parts(parts, body, st, node)
        finally:
            self.last_broke, self.broke = mk_or(self.broke), saved

    def as_parts(self, it, st):
        if it[0] == 'seq':
            out = []
            for p in it[2]:
                if p[0] == 'spread':
                    out.extend(self.as_parts(self.deref(p[1], st), st) if p[1][0] in ('seq', 'ref', 'ite') else [p])
                else:
                    out.append(p)
            return tuple(out)
        if it[0] == 'map':
            return tuple(('item', p[1]) if p[0] == 'ent' else p for p in it[1])
        if is_const(it) and isinstance(it[2], str):
            return tuple(('item', const(ch)) for ch in it[2]) if len(it[2]) <= 16 else (('spread', it),)
        if it[0] == 'ite':
            return (('alt', it[1], self.as_parts(self.deref(it[2], st), st), self.as_parts(self.deref(it[3], st), st)),)
        if it[0] == 'call' and it[1] in ('items', 'keys', 'values') and it[2] and it[2][0][0] == 'map':
            f = {'items': lambda p: ('seq', 'tuple', (('item', p[1]), ('item', p[2]))), 'keys': lambda p: p[1], 'values': lambda p: p[2]}[it[1]]
            if all(p[0] == 'ent' for p in it[2][0][1]):
                return tuple(('item', f(p)) for p in it[2][0][1])
        if it[0] == 'call' and it[1] == 'enumerate' and it[2][0][0] == 'seq' and all(p[0] == 'item' for p in it[2][0][2]):
            start = it[2][1] if len(it[2]) > 1 else const(0)
            if is_const(start):
                return tuple(('item', ('seq', 'tuple', (('item', const(start[2] + i)), p))) for i, p in enumerate(it[2][0][2]))
        if it[0] == 'call' and it[1] == 'zip' and all(x[0] == 'seq' and all(p[0] == 'item' for p in x[2]) for x in it[2]):
            return tuple(('item', ('seq', 'tuple', tuple(ps))) for ps in zip(*[x[2] for x in it[2]]))
        if it[0] == 'call' and it[1] == 'zip':
            known = [self.as_parts(self.deref(x, st), st) for x in it[2]]
            known = [ps if all(p[0] == 'item' for p in ps) else None for ps in known]
            if any(ps is not None for ps in known):
                # the shortest known list bounds the number of steps; the others must be long enough
                n = min(len(ps) for ps in known if ps is not None)
                out = []
                for i in range(n):
                    row, need = [], []
                    for x, ps in zip(it[2], known):
                        if ps is not None:
                            row.append(ps[i])
                            continue
                        base, lo = (x[1], x[2][2] or 0) if x[0] == 'slice' and x[3] == NONE and is_const(x[2]) and (x[2][2] is None or isinstance(x[2][2], int) and x[2][2] >= 0) else (x, 0)
                        if base[0] == 'call':
                            return (('spread', it),)
                        row.append(('item', mk_idx(base, const(lo + i))))
                        need.append(mk_cmp('lt', const(lo + i), ('call', 'len', (base,), ())))
                    c = simp(mk_and(need), expand_facts(st.pc))
                    item = ('item', ('seq', 'tuple', tuple(row)))
                    out.append(item if c == TRUE else ('alt', c, (item,), ()))
                return tuple(out)
        if it[0] == 'call' and it[1] == 'range' and all(is_const(x) for x in it[2]):
            try:
                r = list(range(*[x[2] for x in it[2]]))
                if len(r) <= 32:
                    return tuple(('item', const(i)) for i in r)
            except TypeError:
                pass
        return (('spread', it),)

    def iter_parts(self, parts, body, st, node, nested=False):
        cur = st
        done = []
        for p in parts:
            if cur is None:
                break
            if p[0] == 'item':
                outs = body(p[1], cur)
                brk = [o for o in outs if o.kind == 'break']
                outs = [Outcome('fall', o.st) if o.kind == 'continue' else o for o in outs]
                if brk:
                    # static unrolled break: stop on that path
                    done.extend(Outcome('$broke', o.st) for o in brk)
                    self.broke.extend(mk_and(o.st.pc[len(st.pc):]) if not nested else ('truthy', top('break')) for o in brk)
                    outs = [o for o in outs if o.kind != 'break']
            elif p[0] == 'alt':
                outs = self.branch(p[1], cur, lambda x, p=p: self.iter_parts(p[2], body, x, node, True),
                                   lambda x, p=p: self.iter_parts(p[3], body, x, node, True))
            elif p[0] == 'loop':
                outs = self.loop(p[2], lambda v, x, p=p: self.iter_parts(
                    subst_loop(p[3], p[1], v), body, x, node, True), cur, node, fixed=p[1])
            elif p[0] == 'spread':
                outs = self.loop(p[1], body, cur, node)
            elif p[0] == 'phi':
                outs = self.loop(p, body, cur, node)          # what an outer loop has collected so far
            else:
                self.note(node, f'iteration over {p[0]}')
                outs = self.loop(('top', 'iter'), body, cur, node)
            cur = None
            for o in outs:
                if o.kind == 'fall':
                    cur = o.st if cur is None else self.merge(cur, o.st)
                else:
                    done.append(o)
        res = []
        for o in done:
            if o.kind == '$broke':
                cur = o.st if cur is None else self.merge(cur, o.st)
            else:
                res.append(o)
        if cur is not None:
            res.append(Outcome('fall', cur))
        return res

    def dict_view(self, d, L):
        """-> (what iterating over a dictionary goes through, key, value); copies and comprehensions are seen through."""
        while d[0] == 'map' and len(d[1]) == 1 and d[1][0][0] == 'spread' and P.without_none(self.typeof(d[1][0][1]))[0] == 'dict':
            d = d[1][0][1]
        if d[0] == 'map' and len(d[1]) == 1 and d[1][0][0] == 'loop' and len(d[1][0][3]) == 1 and d[1][0][3][0][0] == 'ent':
            # {key(x): value(x) for x in X}: equal keys overwrite each other
            L3, X, ((_, k, v),) = d[1][0][1:]
            if P.without_none(self.typeof(X))[0] == 'dict':
                if k == ('key', L3, X):
                    here = {('key', L3, X): ('key', L, X), ('val', L3, X): ('val', L, X)}
                    return (X,) + tuple(subst(z, here.get) for z in (k, v))
            else:
                cit = X if k[0] == 'eidx' and k[1] == L3 else ('call', 'dedup', (X,), ())
                here = {('elem', L3, X): ('elem', L, cit)}
                return (cit,) + tuple(subst(z, here.get) for z in (k, v))
        return d, ('key', L, d), ('val', L, d)

    def norm_iter(self, it, L, st):
        """-> (canonical iterable, element value)"""
        if it[0] == 'call':
            n, a = it[1], it[2]
            if n == 'enumerate':
                base = self.deref(a[0], st)
                off = a[1][2] if len(a) > 1 and is_const(a[1]) else 0
                cit, el = self.norm_iter(base, L, st)
                return cit, ('seq', 'tuple', (('item', ('eidx', L, cit, off)), ('item', el)))
            if n == 'range':
                lo, hi = (const(0), a[0]) if len(a) == 1 else (a[0], a[1])
                if len(a) <= 2 and hi[0] == 'call' and hi[1] == 'len' and is_const(lo) and isinstance(lo[2], int) and lo[2] >= 0:
                    x = hi[2][0]
                    cit = mk_slice(x, lo, NONE) if lo[2] else x
                    return cit, ('eidx', L, cit, lo[2])
            if n in ('items', 'keys', 'values') and a:
                d = a[0]
                d, k, v = self.dict_view(d, L)
                return d, {'items': ('seq', 'tuple', (('item', k), ('item', v))), 'keys': k, 'values': v}[n]
            if n in ('iter', 'list', 'tuple') and len(a) == 1:
                return self.norm_iter(self.deref(a[0], st), L, st)
            if n == 'zip':
                els = [self.norm_iter(self.deref(x, st), L, st)[1] for x in a]
                return it, ('seq', 'tuple', tuple(('item', e) for e in els))
        if it[0] == 'slice' and it[2] == NONE and it[3] == NONE:
            return self.norm_iter(it[1], L, st)
        if it[0] == 'seq' and it[1] == 'set' and len(it[2]) == 1 and it[2][0][0] == 'spread':
            it = ('call', 'set', (it[2][0][1],), ())
        t = P.without_none(self.typeof(it))
        if t[0] == 'dict':
            d, k, _ = self.dict_view(it, L)
            return d, k
        return it, ('elem', L, it)

    def loop(self, it, body, st, node, fixed=None):
        L = fixed if fixed is not None else self.new_id()
        if fixed is not None:
            cit, el = it, ('elem', L, it)
            t = P.without_none(self.typeof(it))
            if t[0] == 'dict':
                el = ('key', L, it)
        else:
            cit, el = self.norm_iter(it, L, st)
        base_id = self.fresh
        npc = len(st.pc)
        nev, nra = len(self.events), len(self.raises)
        phis = {}
        self.loopstack.append(L)
        for _ in range(8):
            del self.events[nev:]
            del self.raises[nra:]
            x = st.copy()
            for loc in phis:
                self.set_loc(x, loc, self.mk_phi(L, loc, st, x))
            x0 = x.copy()
            outs = body(el, x)
            ends = [o for o in outs if o.kind in ('fall', 'continue', 'break')]
            rets = [o for o in outs if o.kind == 'return']
            new = False
            for loc in phis:
                for y in [self.get_loc(st, loc)] + [self.get_loc(o.st, loc) for o in ends]:
                    rs = self.phi_refs.setdefault(('phi', L, loc), set())
                    if y[0] in ('ref', 'ite', 'phi') and y not in rs:
                        rs.add(y)
                        new = True
            for o in ends + rets:
                for loc in self.diff(x0, o.st, base_id):
                    if loc not in phis:
                        phis[loc] = True
                        new = True
            if not new:
                break
        self.loopstack.pop()
        for loc in phis:
            # objects made in one round and written in a later one
            for name in self.phi_writes.get(('phi', L, loc), ()):
                for o in ends:
                    for y in walk(self.get_loc(o.st, loc)):
                        if y[0] == 'ref' and y[1] > base_id:
                            self.aliased_cell(o.st.heap.get(y[1]), name)
        brks = [o for o in ends if o.kind == 'break']
        oit = cit
        if brks:
            cb = mk_or([mk_and(o.st.pc[npc:]) for o in brks])
            oit = ('until', L, cit, cb)
            self.broke.append(('any', L, cit, cb))
        for e in self.raises[nra:] + self.events[nev:]:
            e.pc = mk_and(list(st.pc) + [('any', L, cit, mk_and([c for c in conjuncts(e.pc) if c not in expand_facts(st.pc)]))]) \
                if e.kind != 'loopbody' else e.pc
        res = []
        fin = st.copy()
        if rets:
            cr = mk_or([mk_and(o.st.pc[npc:]) for o in rets])
            rv = rets[-1].val
            for o in reversed(rets[:-1]):
                rv = mk_ite(self.rel_cond(o.st, rets[-1].st), o.val, rv)
            rv = self.resolve(rv, rets[-1].st, base_id)
            ro = st.copy(('any', L, cit, cr))
            for loc in phis:
                if loc[0] == 'heap':
                    self.set_loc(ro, loc, top('return in loop'))
            if '$yield' in ro.env and '$yield' in [l[1] for l in phis]:
                ro.env['$yield'] = top('return in generator loop')
            res.append(Outcome('return', ro, rv if is_const(rv) else ('first', L, cit, cr, rv)))
            fin.pc = fin.pc + (mk_not(('any', L, cit, cr)),)
        if ends:
            acc = ends[-1].st
            for o in reversed(ends[:-1]):
                acc = self.merge(o.st, acc)
            # new heap cells created before the loop finished must stay reachable
            for i, c in acc.heap.items():
                if i not in fin.heap:
                    fin.heap[i] = c
            for loc in phis:
                init = self.get_loc(st, loc)
                end = self.get_loc(acc, loc)
                if loc[0] in ('env', 'heap') and not brks and not rets:
                    self.steps[('phi', L, loc)] = (self.resolve(init, st), self.resolve(end, acc, base_id))
                self.set_loc(fin, loc, self.close(L, oit, loc, init, end, acc, base_id, x0))
        elif not rets:
            pass   # every iteration raises; empty iteration falls through
        res.append(Outcome('fall', fin))
        return res

    # locations: ('env',name) ('heap',id,field) ('cell',id)
    def get_loc(self, st, loc):
        if loc[0] == 'env':
            return st.env.get(loc[1], ('undef',))
        c = st.heap.get(loc[1])
        if c is None:
            return ('undef',)
        if loc[0] == 'cell':
            return c.v
        return self.field_of(c, loc[2], st)

    def set_loc(self, st, loc, v):
        if loc[0] == 'env':
            st.env[loc[1]] = v
        elif loc[0] == 'cell':
            st.heap[loc[1]] = Cell(v)
        else:
            st.heap[loc[1]].fields[loc[2]] = v

    def diff(self, a, b, base_id):
        out = []
        for k, v in b.env.items():
            if k.startswith('$') and k != '$yield':
                continue
            if a.env.get(k, ('undef',)) != v:
                out.append(('env', k))
        for i, c in b.heap.items():
            if i > base_id or i not in a.heap:
                continue
            o = a.heap[i]
            if isinstance(c, Cell):
                if not isinstance(o, Cell) or o.v != c.v:
                    out.append(('cell', i))
            else:
                for f, v in c.fields.items():
                    if self.field_of(o, f, a) != v:
                        out.append(('heap', i, f))
        return out

    def mk_phi(self, L, loc, st, x):
        init = self.get_loc(st, loc)
        ph = ('phi', L, loc)
        if init[0] == 'str' or is_strconst(init):
            return ('str', (ph,))
        if init[0] == 'seq':
            return ('seq', init[1], (ph,))
        if init[0] == 'map':
            return ('map', (ph,))
        if init[0] == 'ref' and isinstance(st.heap.get(init[1]), Cell) and loc[0] != 'cell':
            cv = st.heap[init[1]].v
            if cv[0] == 'seq':
                return self.alloc(x, Cell(('seq', cv[1], (ph,))))
        return ph

    def close(self, L, it, loc, init, end, st, base_id, x0):
        """Summarise a loop-carried location."""
        ph = ('phi', L, loc)
        end = self.resolve(end, st, base_id)
        if ph in self.poisoned:
            if end[0] == 'seq' and init[0] == 'seq' and self.thinned(end, ph):
                return top(f'loop-carried {loc[-1]}, thinned by a condition on what was collected before')
            return top(f'loop-carried {loc[-1]}, elements changed')
        if init[0] == 'ref' and isinstance(st.heap.get(init[1]), Cell) and loc[0] != 'cell' and end[0] == 'seq':
            init = st.heap[init[1]].v
        isphi = lambda y: y == ph
        for tag in ('str', 'seq', 'map'):
            if end[0] == tag:
                parts = end[-1]
                if tag == 'seq' and init[0] == 'seq':
                    r = self.close_seq(L, it, ph, init, end)
                    if r is not None:
                        return r
                if parts and parts[0] == ph and not contains(tuple(parts[1:]), isphi):
                    add = parts[1:]
                    if not add:
                        return init
                    lp = (('loop', L, it, tuple(add)),)
                    if tag == 'str':
                        return mk_str(str_parts(init) + lp)
                    if tag == 'seq':
                        return ('seq', end[1], init[2] + lp) if init[0] == 'seq' else top('loop seq')
                    return ('map', init[1] + lp) if init[0] == 'map' else top('loop map')
                if parts and parts[-1] == ph and not contains(tuple(parts[:-1]), isphi):
                    # prepending: reverses order
                    lp = (('loop', L, ('call', 'reversed', (it,), ()), tuple(parts[:-1])),)
                    if tag == 'str':
                        return mk_str(lp + str_parts(init))
                    if tag == 'seq' and init[0] == 'seq':
                        return ('seq', end[1], lp + init[2])
        # str/seq values with embedded alternatives that reset the accumulator fall through to decompose
        end2 = self.unwrap_phi(end, ph)
        if end2 == ph:
            return init
        c, v = self.decompose(end2, ph)
        if v is not None and v[0] == 'top' and init[0] in ('seq', 'map'):
            return top(f'loop-carried {loc[-1]}')
        if v is not None and not contains(v, isphi) and not contains(c, isphi):
            at = next((f[2][2] - f[1][3] for f in (c[1] if c[0] == 'and' else (c,)) if f[0] == 'eq' and f[1][0] == 'eidx'
                       and f[1][1:3] == (L, it) and is_const(f[2]) and type(f[2][2]) is int), None)
            if at is not None and at >= 0:
                # only the element at that place
                el, nth = ('elem', L, it), mk_idx(it, const(at))
                to = lambda y: nth if y == el else const(at + y[3]) if y[0] == 'eidx' and y[1:3] == (L, it) else None
                there = mk_and([mk_truthy(mk_slice(it, const(at), NONE)), self.simp_eq(subst(c, to))])
                if not contains(there, lambda y: y[0] in ('eidx', 'elem') and y[1] == L):
                    return mk_ite(there, subst(v, to), init)
            return ('last', L, it, c, v, init)
        # boolean latch: flag' = c or flag
        if is_bool_expr(end2):
            if end2[0] == 'or' and ('truthy', ph) in end2[1]:
                rest = mk_or([y for y in end2[1] if y != ('truthy', ph)])
                if not contains(rest, isphi):
                    return ('last', L, it, rest, TRUE, init)
        if end[0] == 'seq' and init[0] == 'seq' and self.thinned(end, ph):
            return top(f'loop-carried {loc[-1]}, thinned by a condition on what was collected before')
        for y in walk(end):
            # the collection built so far is put into another order in every round
            if y[0] == 'call' and y[1] in ('sorted', 'reversed', 'set', 'frozenset') and y[2] and contains(y[2][0], isphi):
                return top(f'loop-carried {loc[-1]}, reordered by {y[1]}()')
            if y[0] == 'call' and y[1] == 'filtered' and contains(y[2][0], isphi):
                return top(f'loop-carried {loc[-1]}, thinned by a condition')
            if y[0] == 'slice' and y[1] in (ph, ('seq', 'list', (ph,))) and partial(y):
                return top(f'loop-carried {loc[-1]}, thinned by a slice')
        return top(f'loop-carried {loc[-1]}')

    def simp_eq(self, c):
        parts = c[1] if c[0] == 'and' else (c,)
        return mk_and([mk_eq(f[1], f[2]) if f[0] == 'eq' else f for f in parts])

    def thinned(self, end, ph):
        """Whether an element is added depends on the elements added before."""
        sp = self.around(end[2], ph)
        isphi = lambda y: y == ph
        if sp is None or sp[0] or not sp[1]:
            return False
        atoms = []

        def collect(x):
            if x[0] == 'not':
                collect(x[1])
            elif x[0] in ('and', 'or'):
                for y in x[1]:
                    collect(y)
            elif contains(x, isphi) and x not in atoms:
                atoms.append(x)

        def scan(parts):
            return all(scan2(p) for p in parts)

        def scan2(p):
            if p[0] == 'alt':
                if contains(p[1], lambda y: y[0] in ('top', 'undef', 'ref') or y[0] == 'phi' and y != ph):
                    return False
                collect(p[1])
                return scan(p[2]) and scan(p[3])
            return not contains(p, isphi)
        if not scan(sp[1]) or not atoms or len(atoms) > 3:
            return False
        if len(atoms) > 1 and all(a[0] in ('truthy', 'isnone') or const(0) in a[1:] for a in atoms):
            return False

        def under(parts, f):
            out = []
            for p in parts:
                if p[0] == 'alt':
                    c = simp(p[1], f)
                    x, y = under(p[2], f), under(p[3], f)
                    out.extend(x if c == TRUE else y if c == FALSE or x == y else [('alt', c, tuple(x), tuple(y))] if x or y else [])
                else:
                    out.append(p)
            return out
        vals = {tuple(under(sp[1], expand_facts(tuple(a if b else mk_not(a) for a, b in zip(atoms, bits)))))
                for bits in itertools.product((False, True), repeat=len(atoms))}
        return () in vals and len(vals) > 1 and not any(contains(v, isphi) for v in vals)

    def close_seq(self, L, it, ph, init, end):
        """A list that grows in every round: list' = before + list + after, where an element may be left out because of earlier ones."""
        isphi = lambda y: y == ph
        sp = self.around(end[2], ph)
        if sp is None:
            return None
        pre, post = sp
        out = [(), ()]
        for n, parts in enumerate((pre, post)):
            its = it if n else ('call', 'reversed', (it,), ())
            if not parts:
                continue
            seen = [False]
            parts = subst(parts, lambda x: self.unseen(x, L, seen))
            if seen[0]:
                parts = flat_parts(parts)
                its = ('call', 'dedup', (its,), ())
            if contains(parts, isphi):
                return None
            out[n] = (('loop', L, its, tuple(parts)),)
        return ('seq', end[1], out[0] + init[2] + out[1])

    def unseen(self, x, L, seen):
        """`not in what was collected so far` holds for elements that occur once."""
        if x[0] == 'not' and x[1][0] in ('in', 'any') and contains(x[1][2], lambda y: y[0] == 'phi' and y[1] == L) and x[1][2][0] in ('seq', 'map', 'phi', 'call'):
            seen[0] = True
            return TRUE
        if x[0] == 'in' and contains(x[2], lambda y: y[0] == 'phi' and y[1] == L) and x[2][0] in ('seq', 'map', 'phi', 'call'):
            seen[0] = True
            return FALSE
        return None

    def against_current(self, c, el, ph):
        """The condition compares an element collected earlier with the current one."""
        cur = lambda y: y[0] == 'elem' and y[1] == ph[1]
        return not contains(c, lambda y: y[0] in ('top', 'ref', 'undef')) and contains(c, lambda y: y == el) and contains(c, cur)

    def around(self, parts, ph):
        """(before, after) such that parts == before + (ph,) + after on every alternative."""
        hit = [n for n, p in enumerate(parts) if p == ph or p[0] == 'alt' and contains(p[2:], lambda y: y == ph) and self.around(p[2], ph) is not None]
        if len(hit) != 1:
            return None
        p = parts[hit[0]]
        if p == ph:
            a, b = (), ()
        else:
            x, y = self.around(p[2], ph), self.around(p[3], ph)
            if x is None or y is None:
                return None
            a = alt_parts(p[1], x[0], y[0]) if x[0] or y[0] else ()
            b = alt_parts(p[1], x[1], y[1]) if x[1] or y[1] else ()
        return tuple(parts[:hit[0]]) + tuple(a), tuple(b) + tuple(parts[hit[0] + 1:])

    def unwrap_phi(self, v, ph):
        if v[0] in ('str', 'map') and v[1] == (ph,):
            return ph
        if v[0] == 'seq' and v[2] == (ph,):
            return ph
        if v[0] == 'ite':
            return ('ite', v[1], self.unwrap_phi(v[2], ph), self.unwrap_phi(v[3], ph))
        if v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'alt':
            a = v[1][0]
            return ('ite', a[1], self.unwrap_phi(mk_str(a[2]), ph), self.unwrap_phi(mk_str(a[3]), ph))
        if v[0] == 'seq' and len(v[2]) == 1 and v[2][0][0] == 'alt':
            a = v[2][0]
            return ('ite', a[1], self.unwrap_phi(('seq', v[1], a[2]), ph), self.unwrap_phi(('seq', v[1], a[3]), ph))
        return v

    def decompose(self, v, ph):
        """v as (condition, value) with v == value if condition else phi."""
        if v == ph or v == ('truthy', ph):
            return FALSE, None
        if v[0] == 'ite':
            ca, va = self.decompose(v[2], ph)
            cb, vb = self.decompose(v[3], ph)
            c = mk_or([mk_and([v[1], ca]), mk_and([mk_not(v[1]), cb])])
            if va is None:
                return c, vb
            if vb is None:
                return c, va
            return c, mk_ite(v[1], va, vb)
        if v[0] == 'last' and v[5] in (ph, ('str', (ph,)), ('map', (ph,))):
            return ('any', v[1], v[2], v[3]), v[:5] + (('undef',),)
        if v[0] == 'last' and v[5][0] == 'ite':
            # nested conditional initial value
            ci, vi = self.decompose(v[5], ph)
            a = ('any', v[1], v[2], v[3])
            return mk_or([a, ci]), v[:5] + (vi if vi is not None else ('undef',),)
        if v[0] == 'or' and ('truthy', ph) in v[1]:
            return mk_or([x for x in v[1] if x != ('truthy', ph)]), TRUE
        if v[0] == 'and' and ('truthy', ph) in v[1]:
            return mk_not(mk_and([x for x in v[1] if x != ('truthy', ph)])), FALSE
        return TRUE, v

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if st.env.get('$global:' + t.id):
                self.event('globalwrite', st, node, t.id)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.deref(v, st)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    if i == len(t.elts) - 1:
                        self.assign(e.value, mk_slice(v, const(i), NONE), st, node)
                    else:
                        self.assign(e.value, top('star'), st, node)
                elif star and i > star[0]:
                    self.assign(e, mk_idx(v, const(i - len(t.elts))), st, node)
                else:
                    self.assign(e, mk_idx(v, const(i)), st, node)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            self.set_attr(base, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            key = self.eval(t.slice, st)
            self.set_item(base, key, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def set_item(self, base, key, v, st, node):
        if base[0] == 'ref' and isinstance(st.heap.get(base[1]), Cell):
            cv = st.heap[base[1]].v
            if cv[0] == 'map':
                parts = tuple(p for p in cv[1] if not (p[0] == 'ent' and p[1] == key and is_const(key)))
                st.heap[base[1]] = Cell(('map', parts + (('ent', key, v),)))
            else:
                st.heap[base[1]] = Cell(top('list item assignment'))
            return
        self.event('mutate', st, node, (base, 'setitem'))

    def set_attr(self, base, name, v, st, node):
        if base[0] == 'ite':
            outs = self.branch(base[1], st.copy(), lambda x: (self.set_attr(base[2], name, v, x, node), [Outcome('fall', x)])[1],
                               lambda x: (self.set_attr(base[3], name, v, x, node), [Outcome('fall', x)])[1])
            self.absorb(st, outs)
            return
        if base[0] == 'ref':
            cell = st.heap.get(base[1])
            if isinstance(cell, Inst):
                pr = cell.cls.find_prop(name) if cell.cls else None
                if pr and 'set' in pr:
                    if not self.virtual_props:
                        r, s2 = self.call(pr['set'], [base, v], {}, st, node)
                        self.adopt(st, s2)
                        return
                if cell.base is not None:
                    self.event('mutate', st, node, (('attr', cell.base, name), 'setattr'))
                st.heap[base[1]].fields[name] = v
                return
        if base[0] == 'cls':
            self.event('classwrite', st, node, (base[1].name, name))
            return
        if base[0] == 'mod':
            self.event('globalwrite', st, node, f'{base[1]}.{name}')
            return
        self.aliased(base, name, st)
        self.event('mutate', st, node, (('attr', base, name), 'setattr'))
        self.events[-1].val = self.resolve(v, st)

    def aliased(self, base, name, st):
        """A write through a loop-carried reference may reach every object the reference can stand for."""
        if base[0] not in ('phi', 'top'):
            self.poison(base)
            return
        todo, seen = [base], set()
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            if b[0] == 'ref':
                self.aliased_cell(st.heap.get(b[1]), name)
            elif b[0] == 'phi':
                self.phi_writes.setdefault(b, set()).add(name)
                todo.extend(self.phi_refs.get(b, ()))
            elif b[0] == 'ite':
                todo.extend(b[2:4])

    def poison(self, base):
        if base[0] in ('idx', 'elem', 'attr', 'slice', 'call', 'first', 'last'):
            self.poisoned.update(x for x in walk(base) if x[0] == 'phi')

    def aliased_cell(self, cell, name):
        if isinstance(cell, Inst) and (not cell.cls or cell.cls.field(name)):
            cell.fields[name] = top('written through an alias')

    def absorb(self, st, outs):
        fl = [o for o in outs if o.kind == 'fall']
        if not fl:
            st.pc = st.pc + (FALSE,)
            return
        acc = fl[0].st
        for o in fl[1:]:
            acc = self.merge(acc, o.st)
        self.adopt(st, acc)

    def adopt(self, st, new):
        if new is None:
            st.pc = st.pc + (FALSE,)
            return
        st.env, st.heap, st.pc = new.env, new.heap, new.pc

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        v = self.eval(e, st)
        return self.truth(v, st)

    def truth(self, v, st):
        if v[0] == 'ref':
            c = st.heap.get(v[1])
            if isinstance(c, Cell):
                return mk_truthy(c.v)
            return TRUE
        if v[0] == 'ite':
            return mk_ite(v[1], self.truth(v[2], st), self.truth(v[3], st))
        return mk_truthy(v)

    def eval(self, e, st):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            self.note(e, f'expression {type(e).__name__}')
            return top(type(e).__name__)
        return m(e, st)

    def ex_Constant(self, e, st):
        return const(e.value)

    def ex_Name(self, e, st):
        return self.lookup_name(e.id, st)

    def lookup_name(self, n, st):
        if n in st.env and not st.env.get('$global:' + n):
            return st.env[n]
        p = st.env.get('$parent')
        while p is not None:
            env = p[1].env
            if n in env:
                return env[n]
            p = env.get('$parent')
        mod = self.stack[-1].module if self.stack else None
        if mod is not None:
            r = self.prog.lookup(mod, n)
            if r is not None:
                return self.binding(r, st, n)
        if n in PURE or n in ('print', 'open', 'setattr', 'delattr', 'Exception', 'ValueError', 'TypeError', 'property', 'input', 'eval', 'exec', 'globals', 'locals'):
            return ('builtin', n)
        if n in ('True', 'False', 'None'):
            return const({'True': True, 'False': False, 'None': None}[n])
        if n.endswith('Error') or n in ('NotImplemented', 'StopIteration', '__file__', '__name__'):
            return ('builtin', n)
        self.note(None, f'unresolved name {n}')
        return top(f'name {n}')

    def binding(self, r, st, name=None):
        if r is None:
            return top(f'unresolved {name}')
        if r[0] == 'class':
            return ('cls', r[1])
        if r[0] == 'func':
            return ('func', _F(r[1]), None)
        if r[0] == 'module':
            return ('mod', r[1])
        if r[0] == 'ext':
            return ('ext', r[1])
        if r[0] == 'expr':
            return self.module_const(r[1], r[2], name)
        return top('binding')

    def module_const(self, mod, expr, name):
        key = (mod.name, id(expr))
        if key not in self.constcache:
            self.constcache[key] = top('recursive constant')
            fn = P.FuncInfo(mod, ast.Lambda(args=ast.arguments([], [], None, [], [], None, []), body=expr))
            self.stack.append(fn)
            s = State({}, {}, ())
            sub = self.eval(expr, s)
            self.stack.pop()
            r = self.resolve(sub, s)
            if r[0] in ('seq', 'map') or r[0] == 'obj':
                r = ('shared', f'{mod.name}.{name}', r)
            self.constcache[key] = r
        r = self.constcache[key]
        if r[0] == 'shared':
            # module level containers: usable as values; mutation is an event
            return r[2]
        return r

    def ex_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        st.env[e.target.id] = v
        return v

    def ex_Attribute(self, e, st):
        base = self.eval(e.value, st)
        return self.get_attr(base, e.attr, st, e)

    def get_attr(self, base, name, st, node, call=False):
        if name == '__dict__' and base[0] != 'ite':
            return self.object_dict(base, st, node)
        if base[0] == 'ite':
            a, b = self.get_attr(base[2], name, st, node, call), self.get_attr(base[3], name, st, node, call)
            return mk_ite_u(base[1], a, b)
        if base[0] == 'ref':
            cell = st.heap.get(base[1])
            if isinstance(cell, Inst):
                return self.inst_attr(base, cell.cls, name, st, node, cell)
            return ('method', base, name)
        if base[0] == 'cls':
            c = base[1]
            f = c.find_method(name)
            if f is not None:
                if f.kind == 'classmethod':
                    return ('func', _F(f), base)
                return ('func', _F(f), None)
            a = c.find_attr(name)
            if a:
                return self.module_const(a[0].module, a[1], f'{a[0].name}.{name}')
            fi = c.field(name)
            if fi is not None and fi.default is not None:
                return self.module_const(fi.cls.module, fi.default, name)
            if name == '__name__':
                return const(c.name)
            if name == '__dataclass_fields__':
                return ('seq', 'tuple', tuple(('item', const(n)) for n in c.fields()))
            return top(f'class attribute {name}')
        if base[0] == 'mod':
            if base[1] in self.prog.modules:
                r = self.prog.lookup(self.prog.modules[base[1]], name)
                if r is not None:
                    return self.binding(r, st, name)
                if base[1] + '.' + name in self.prog.modules:
                    return ('mod', base[1] + '.' + name)
            full = base[1] + '.' + name
            if full in self.prog.modules:
                return ('mod', full)
            return ('ext', full)
        if base[0] == 'ext':
            return ('ext', base[1] + '.' + name)
        if base[0] == 'super':
            f = base[1].find_method(name, skip_self=True)
            if f is not None:
                return ('func', _F(f), base[2] if f.kind != 'staticmethod' else None)
            return ('method', base, name)
        if base[0] == 'obj':
            d = dict(base[2])
            if name in d:
                return d[name]
        if base[0] == 'call' and base[1] == 're.compile' and name in ('match', 'fullmatch', 'search', 'finditer', 'findall', 'sub', 'split'):
            return ('method', base, name)
        # symbolic value: property / method of a statically known class
        t = P.without_none(self.typeof(base))
        if t[0] == 'inst':
            c = t[1]
            pr = c.find_prop(name)
            if pr is not None and not (self.virtual_props and 'set' in pr):
                r, s2 = self.call(pr['get'], [base], {}, st, node)
                self.adopt(st, s2)
                return r
            f = c.find_method(name)
            if f is not None:
                return ('method', base, name)
            if c.field(name) is None and pr is None:
                a = c.find_attr(name)
                if a:
                    return self.module_const(a[0].module, a[1], name)
        if self.is_method_name(name) and call or name in ('to_sexpr', 'from_sexpr'):
            return ('method', base, name)
        if name == 'join' and self.is_str(base):
            return ('method', base, name)
        return ('attr', base, name)

    def is_method_name(self, name):
        return name in ('to_sexpr', 'from_sexpr') or name in STRM or name in MUTATORS or name in (
            'items', 'keys', 'values', 'get', 'format', 'format_map', 'join', 'copy', 'write', 'read', 'close', 'open', 'writelines', '__class__', 'read_text', 'write_text', 'read_bytes', 'write_bytes', 'readlines', 'readline', 'flush', 'getvalue')

    def inst_attr(self, ref, cls, name, st, node, cell):
        if name in cell.fields:
            return cell.fields[name]
        if name == '__class__':
            return ('cls', cls)
        pr = cls.find_prop(name)
        if pr is not None and not (self.virtual_props and 'set' in pr):
            r, s2 = self.call(pr['get'], [ref], {}, st, node)
            self.adopt(st, s2)
            return r
        f = cls.find_method(name)
        if f is not None:
            if f.kind == 'staticmethod':
                return ('func', _F(f), None)
            if f.kind == 'classmethod':
                return ('func', _F(f), ('cls', cls))
            return ('func', _F(f), ref)
        if cell.base is not None:
            if cls.field(name) is None and pr is None:
                a = cls.find_attr(name)
                if a:
                    return self.module_const(a[0].module, a[1], name)
            return ('attr', cell.base, name)
        if pr is not None:
            return top(f'virtual property {name}')
        a = cls.find_attr(name)
        if a:
            return self.module_const(a[0].module, a[1], name)
        return ('attr', top('instance'), name)

    def ex_Subscript(self, e, st):
        base = self.deref(self.eval(e.value, st), st)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, st) if e.slice.lower else NONE
            hi = self.eval(e.slice.upper, st) if e.slice.upper else NONE
            step = self.eval(e.slice.step, st) if e.slice.step else NONE
            return over_ite_pair(base, lambda b: mk_slice(b, lo, hi, step))
        key = self.eval(e.slice, st)
        if key[0] == 'ite' and is_const(key[2]) and is_const(key[3]):
            return mk_ite(key[1], mk_idx(base, key[2]), mk_idx(base, key[3]))
        if not is_const(key):
            r = self.by_alternatives(base, self.deref(key, st))
            if r is not None:
                return r
        return mk_idx(base, key)

    def object_dict(self, v, st, node):
        """The attribute dictionary of an object, for reading only."""
        if v[0] == 'ref':
            cell = st.heap.get(v[1])
            cls = cell.cls if isinstance(cell, Inst) else None
        else:
            ms = P.members(self.typeof(v))
            cls = ms[0][1] if len(ms) == 1 and ms[0][0] == 'inst' else None
        if cls is None or any('__slots__' in k.attrs for k in cls.mro()):
            return top('vars')
        return ('map', tuple(('ent', const(f), self.get_attr(v, f, st, node)) for f in cls.fields()))

    def by_alternatives(self, base, key):
        """A two-element sequence or a dictionary indexed by a value that is only ever True, False or None."""
        ms = set(P.members(self.typeof(key)))
        if not ms <= {('bool',), ('none',)}:
            return None
        if base[0] == 'seq' and ms == {('bool',)} and len(base[2]) >= 2 and all(p[0] == 'item' for p in base[2]):
            return mk_ite(mk_truthy(key), base[2][1][1], base[2][0][1])
        if base[0] == 'map' and all(p[0] == 'ent' and is_const(p[1]) for p in base[1]):
            by = {p[1]: p[2] for p in base[1]}
            want = [TRUE, FALSE] + ([NONE] if ('none',) in ms else [])
            if any(w not in by for w in want):
                return None
            r = mk_ite(mk_truthy(key), by[TRUE], by[FALSE])
            return mk_ite(mk_isnone(key), by[NONE], r) if len(want) == 3 else r
        return None

    def ex_Tuple(self, e, st):
        return ('seq', 'tuple', self.seq_items(e.elts, st))

    def seq_items(self, elts, st):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.deref(self.eval(x.value, st), st)
                parts.extend(self.as_parts(v, st))
            else:
                parts.append(('item', self.eval(x, st)))
        return tuple(parts)

    def ex_List(self, e, st):
        return self.alloc(st, Cell(('seq', 'list', self.seq_items(e.elts, st))))

    def ex_Set(self, e, st):
        parts = self.seq_items(e.elts, st)
        if len(parts) == 1 and parts[0][0] == 'spread':
            return ('call', 'set', (self.deref(parts[0][1], st),), ())
        return ('seq', 'set', parts)

    def ex_Dict(self, e, st):
        parts = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.deref(self.eval(v, st), st)
                parts.extend(d[1] if d[0] == 'map' else (('spread', d),))
            else:
                parts.append(('ent', self.eval(k, st), self.eval(v, st)))
        return self.alloc(st, Cell(('map', tuple(parts))))

    def ex_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(('lit', x.value))
            else:
                parts.extend(self.ex_FormattedValue(x, st)[1])
        return mk_str(parts)

    def ex_FormattedValue(self, e, st):
        v = self.eval(e.value, st)
        v = self.deref(v, st)
        spec = ''
        if e.format_spec is not None:
            sv = self.eval(e.format_spec, st)
            spec = sv[2] if is_const(sv) else show(sv)
        if e.conversion == ord('r') or e.conversion == ord('a'):
            v = ('call', 'repr', (v,), ())
        return ('str', self.fmt_parts(v, spec))

    def fmt_parts(self, v, spec=''):
        if spec in ('', 's'):
            if is_const(v):
                return (('lit', str(v[2])),)
            return str_parts(v)
        return (('hole', ('fmt', v, spec)),)

    def ex_IfExp(self, e, st):
        c = simp(self.cond(e.test, st), expand_facts(st.pc))
        if c == TRUE:
            return self.eval(e.body, st)
        if c == FALSE:
            return self.eval(e.orelse, st)
        box = {}

        def run(expr, key):
            def f(x):
                box[key] = self.eval(expr, x)
                return self.fall_if_alive(x)
            return f
        outs = self.branch(c, st.copy(), run(e.body, 'a'), run(e.orelse, 'b'))
        self.absorb(st, outs)
        a, b = box.get('a', ('undef',)), box.get('b', ('undef',))
        return mk_ite_u(c, self.deref_if(a, st), self.deref_if(b, st)) if a != b else a

    def deref_if(self, v, st):
        return v

    def ex_BoolOp(self, e, st):
        # value semantics with short circuit
        vals = []
        x = st
        first = self.eval(e.values[0], st)
        rest = e.values[1:]
        isand = isinstance(e.op, ast.And)

        def go(v, rest):
            if not rest:
                return v
            c = self.truth(v, st)
            c = simp(c, expand_facts(st.pc))
            if c == TRUE and not isand or c == FALSE and isand:
                return v
            sub = st.copy(c if isand else mk_not(c))
            w = self.eval(rest[0], sub)
            w = go2(w, rest[1:], sub)
            # side effects inside boolean operands are limited to walrus bindings
            for k, z in sub.env.items():
                if k not in st.env:
                    st.env[k] = z
            for k, z in sub.heap.items():
                if k not in st.heap:
                    st.heap[k] = z
            if is_bool_expr(v) and is_bool_expr(w):
                return mk_and([v, w]) if isand else mk_or([v, w])
            if isand:
                return mk_ite(c, w, v) if not (is_bool_expr(w) or True and False) else ('ite', c, w, v) if not is_bool_expr(w) else mk_boolval(c, w, v, True)
            return mk_ite(c, v, w) if not is_bool_expr(w) else mk_boolval(c, w, v, False)

        def go2(w, rest, sub):
            if not rest:
                return w
            c = self.truth(w, sub)
            s2 = sub.copy(c if isand else mk_not(c))
            y = go2(self.eval(rest[0], s2), rest[1:], s2)
            for k, z in s2.env.items():
                sub.env.setdefault(k, z)
            for k, z in s2.heap.items():
                sub.heap.setdefault(k, z)
            if is_bool_expr(w) and is_bool_expr(y):
                return mk_and([w, y]) if isand else mk_or([w, y])
            if is_bool_expr(y):
                return mk_boolval(c, y, w, isand)
            return mk_ite(c, y, w) if isand else mk_ite(c, w, y)
        return go(first, rest)

    def ex_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return mk_not(self.truth(v, st))
        if is_const(v):
            try:
                return const(-v[2] if isinstance(e.op, ast.USub) else +v[2] if isinstance(e.op, ast.UAdd) else ~v[2])
            except TypeError:
                return top('unary')
        if isinstance(e.op, ast.UAdd):
            return v
        return ('call', 'neg' if isinstance(e.op, ast.USub) else 'inv', (v,), ())

    def ex_Compare(self, e, st):
        left = self.eval(e.left, st)
        cs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            cs.append(self.compare(op, left, right, st))
            left = right
        return mk_and(cs)

    def compare(self, op, a, b, st):
        a, b = self.deref(a, st), self.deref(b, st)
        if isinstance(op, ast.Eq):
            return self.norm_eq(a, b, st)
        if isinstance(op, ast.NotEq):
            return mk_not(self.norm_eq(a, b, st))
        if isinstance(op, ast.Is):
            if b == NONE:
                return mk_isnone(a)
            return self.norm_eq(a, b, st)
        if isinstance(op, ast.IsNot):
            if b == NONE:
                return mk_not(mk_isnone(a))
            return mk_not(self.norm_eq(a, b, st))
        if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            if isinstance(op, (ast.Gt, ast.GtE)):
                a, b = b, a
            return mk_cmp('lt' if isinstance(op, (ast.Lt, ast.Gt)) else 'le', a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains_(a, b, st)
            return r if isinstance(op, ast.In) else mk_not(r)
        return top('compare')

    def contains_(self, a, b, st):
        if b[0] == 'call' and b[1] == 'keys':
            b = self.deref(b[2][0], st)
        if b[0] == 'seq' and all(p[0] == 'item' for p in b[2]):
            return mk_or([self.norm_eq(a, p[1], st) for p in b[2]])
        if b[0] == 'map' and all(p[0] == 'ent' for p in b[1]):
            return mk_or([self.norm_eq(a, p[1], st) for p in b[1]])
        if is_const(b) and is_const(a):
            try:
                return const(a[2] in b[2])
            except TypeError:
                pass
        if b[0] == 'ite':
            return mk_ite(b[1], self.contains_(a, self.deref(b[2], st), st), self.contains_(a, self.deref(b[3], st), st))
        return ('in', a, b)

    def ex_BinOp(self, e, st):
        a, b = self.eval(e.left, st), self.eval(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def is_str(self, v):
        return v[0] in ('str', 'fmt', 'ser') or is_strconst(v) or self.typeof(v) == ('str',) or (
            v[0] == 'ite' and self.is_str(v[2]) and self.is_str(v[3]))

    def binop(self, op, a, b, st, node):
        a0, b0 = a, b
        a, b = self.deref(a, st), self.deref(b, st)
        for x, y, f in ((a, b, lambda z: (z, b)), (b, a, lambda z: (a, z))):
            if is_bool_expr(x) and not is_const(x) and is_const(y) and y[1] == 'int' and not isinstance(op, (ast.BitAnd, ast.BitOr)):
                x = ('ite', x, const(1), const(0))
            if x[0] == 'ite' and is_const(y) and y[1] == 'int' and int_leaves(x):
                return over_ite(x, lambda z: self.binop(op, *f(z), st, node))
        if isinstance(op, ast.Add):
            if a[0] == 'seq' and b[0] == 'seq':
                v = ('seq', a[1], a[2] + b[2])
                return self.alloc(st, Cell(v)) if a[1] == 'list' else v
            if a[0] == 'seq' or b[0] == 'seq':
                pa, pb = (x[2] if x[0] == 'seq' else self.as_parts(x, st) if x[0] == 'ite' else (('spread', x),) for x in (a, b))
                return self.alloc(st, Cell(('seq', 'list', pa + pb)))
            if self.is_str(a) or self.is_str(b):
                return concat(a, b)
            if is_const(a) and is_const(b):
                try:
                    return const(a[2] + b[2])
                except TypeError:
                    return top('add')
            for p, q in ((a, b), (b, a)):
                if p[0] == 'eidx' and is_const(q) and isinstance(q[2], int):
                    return ('eidx', p[1], p[2], p[3] + q[2])
            if a[0] == 'list' or self.typeof(a)[0] == 'list':
                return self.alloc(st, Cell(('seq', 'list', (('spread', a), ('spread', b)))))
            return ('call', 'add', (a, b), ())
        if isinstance(op, ast.Mult):
            if is_const(a) and is_const(b):
                try:
                    return const(a[2] * b[2])
                except TypeError:
                    return top('mul')
            if is_strconst(b):
                a, b = b, a
            for x, y in ((a, b), (b, a)):
                if x[0] == 'seq' and self.typeof(y) == ('bool',):
                    return self.alloc(st, Cell(('seq', x[1], (('alt', mk_truthy(y), x[2], ()),))))
            if is_strconst(a) and self.typeof(b) == ('bool',):
                return mk_ite(mk_truthy(b), a, const(''))
            return ('call', 'mul', (a, b), ())
        if isinstance(op, ast.Mod) and (is_strconst(a) or a[0] == 'str'):
            return self.percent(a, b, st)
        if isinstance(op, ast.BitOr) and (a[0] == 'map' or b[0] == 'map'):
            pa = a[1] if a[0] == 'map' else (('spread', a),)
            pb = b[1] if b[0] == 'map' else (('spread', b),)
            return self.alloc(st, Cell(('map', pa + pb)))
        name = {ast.Sub: 'sub', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow', ast.BitAnd: 'bitand',
                ast.BitOr: 'bitor', ast.BitXor: 'xor', ast.LShift: 'shl', ast.RShift: 'shr'}.get(type(op), 'op')
        if is_const(a) and is_const(b) and name in ('sub', 'mod', 'div', 'floordiv'):
            try:
                x, y = a[2], b[2]
                return const({'sub': lambda: x - y, 'mod': lambda: x % y, 'div': lambda: x / y, 'floordiv': lambda: x // y}[name]())
            except Exception:
                return top(name)
        if is_bool_expr(a) and is_bool_expr(b) and name in ('bitand', 'bitor'):
            return mk_and([a, b]) if name == 'bitand' else mk_or([a, b])
        if name == 'sub' and a[0] == 'eidx' and is_const(b) and isinstance(b[2], int):
            return ('eidx', a[1], a[2], a[3] - b[2])
        return ('call', name, (a, b), ())

    def percent(self, a, b, st):
        if not is_strconst(a):
            return top('percent format')
        args = [p[1] for p in b[2]] if b[0] == 'seq' and b[1] == 'tuple' else [b]
        import re
        if '*' in a[2] and re.search(r'%[-#0 +]*(\*|\d+\.\*)', a[2]):
            return top('percent format')
        parts, pos, i = [], 0, 0
        for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*\d*(?:\.(?:\d+|\*))?)([a-zA-Z%])', a[2]):
            parts.append(('lit', a[2][pos:m.start()]))
            pos = m.end()
            if m.group(3) == '%':
                parts.append(('lit', '%'))
                continue
            spec = m.group(2) + m.group(3)
            if '*' in spec:
                n = self.deref(args[i], st) if i < len(args) else top('percent')
                i += 1
                n = mk_str([('lit', spec[:spec.index('*')]), ('hole', n), ('lit', spec[spec.index('*') + 1:])])
                spec = n[2] if is_const(n) else show(n)
            if m.group(1):
                v = mk_idx(self.deref(b, st), const(m.group(1)))
            elif i < len(args):
                v = self.deref(args[i], st)
                i += 1
            else:
                v = top('percent')
            parts.extend(self.fmt_parts(v, '' if spec in ('s',) else spec))
        parts.append(('lit', a[2][pos:]))
        return mk_str(parts)

    def ex_Lambda(self, e, st):
        return ('func', _F(P.FuncInfo(self.stack[-1].module, e, None, 'lambda', st.env)), None)

    def comp(self, gens, st, leaf):
        """Evaluate comprehension generators; leaf(state) -> parts. Returns parts."""
        def go(gs, x):
            if not gs:
                return leaf(x)
            g = gs[0]
            it = self.deref(self.eval(g.iter, x), x)

            def over(parts, x):
                out = []
                for p in parts:
                    if p[0] == 'item':
                        out.extend(one(p[1], x))
                    elif p[0] == 'alt':
                        out.append(('alt', p[1], tuple(over(p[2], x.copy(p[1]))), tuple(over(p[3], x.copy(mk_not(p[1]))))))
                    elif p[0] == 'loop':
                        self.loopstack.append(p[1])
                        out.append(('loop', p[1], p[2], tuple(over(p[3], x))))
                        self.loopstack.pop()
                    elif p[0] == 'spread':
                        L = self.new_id()
                        cit, el = self.norm_iter(p[1], L, x)
                        self.loopstack.append(L)
                        out.append(('loop', L, cit, tuple(one(el, x))))
                        self.loopstack.pop()
                    elif p[0] == 'phi':
                        # what a loop has collected so far
                        el = ('elem', self.new_id(), p)
                        r = one(el, x)
                        if r == [('item', el)]:
                            out.append(p)
                        elif len(r) == 1 and r[0][0] == 'alt' and r[0][2] == (('item', el),) and not r[0][3] and self.against_current(r[0][1], el, p):
                            out.append(('spread', ('call', 'filtered', (('seq', 'list', (p,)),), ())))
                        else:
                            out.append(('loop', el[1], p, tuple(r)))
                    else:
                        out.append(('spread', top('comprehension')))
                return out

            def one(v, x):
                y = x.copy()
                self.assign(g.target, v, y, e_node)
                cs = []
                for i in g.ifs:
                    c = self.cond(i, y)
                    cs.append(c)
                    y.pc = y.pc + ((c,) if c != TRUE else ())
                c = simp(mk_and(cs), expand_facts(x.pc))
                if c == FALSE:
                    return []
                ps = go(gs[1:], y)
                # keep new heap objects
                for k, z in y.heap.items():
                    x.heap.setdefault(k, z)
                return list(ps) if c == TRUE else [('alt', c, tuple(ps), ())]
            return over(self.as_parts(it, x), x)
        e_node = gens[0]
        return tuple(go(list(gens), st))

    def ex_ListComp(self, e, st):
        base = self.fresh

        def leaf(x):
            return [('item', self.resolve(self.eval(e.elt, x), x, base))]
        return self.alloc(st, Cell(('seq', 'list', self.comp(e.generators, st, leaf))))

    def ex_GeneratorExp(self, e, st):
        return self.deref(self.ex_ListComp(e, st), st)

    def ex_SetComp(self, e, st):
        v = self.deref(self.ex_ListComp(e, st), st)
        return ('call', 'set', (v,), ())

    def ex_DictComp(self, e, st):
        base = self.fresh

        def leaf(x):
            return [('ent', self.eval(e.key, x), self.resolve(self.eval(e.value, x), x, base))]
        return self.alloc(st, Cell(('map', self.comp(e.generators, st, leaf))))

    def ex_Starred(self, e, st):
        return self.eval(e.value, st)

    def ex_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        y = st.env.get('$yield')
        if y and y[0] == 'seq':
            st.env['$yield'] = ('seq', 'list', y[2] + (('item', v),))
        return top('yield')

    def ex_YieldFrom(self, e, st):
        v = self.deref(self.eval(e.value, st), st)
        y = st.env.get('$yield')
        if y and y[0] == 'seq':
            st.env['$yield'] = ('seq', 'list', y[2] + tuple(self.as_parts(v, st)))
        return top('yield')

    # ------------------------------------------------------------ call expressions
    def ex_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            f = ('builtin', 'super')
        elif isinstance(e.func, ast.Attribute):
            f = self.get_attr(self.eval(e.func.value, st), e.func.attr, st, e, call=True)
        else:
            f = self.eval(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.deref(self.eval(a.value, st), st)
                if v[0] == 'seq' and all(p[0] == 'item' for p in v[2]):
                    args.extend(p[1] for p in v[2])
                else:
                    args.append(('starred', v))
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.deref(self.eval(k.value, st), st)
                if v[0] == 'map' and all(p[0] == 'ent' and is_const(p[1]) for p in v[1]):
                    for p in v[1]:
                        kwargs[p[1][2]] = p[2]
                else:
                    kwargs['**'] = v if self.bounded_keys(v, st) else top('kwargs')
            else:
                kwargs[k.arg] = self.eval(k.value, st)
        if FALSE in st.pc:
            return ('undef',)
        return self.apply(f, args, kwargs, st, e)

    def spread_args(self, names, args, st):
        """[(name, value, conditional on)] for positional arguments, starred ones spread over the remaining parameters."""
        out, i = [], 0
        for j, a in enumerate(args):
            if a[0] != 'starred':
                out.append((names[i] if i < len(names) else None, a, None))
                i += 1
                continue
            v = a[1]
            base, lo, hi = (v[1], v[2], v[3]) if v[0] == 'slice' else (v, NONE, NONE)
            ok = j == len(args) - 1 and base[0] in ('param', 'elem', 'attr', 'idx') and (lo == NONE or is_const(lo) and isinstance(lo[2], int) and lo[2] >= 0) \
                and (hi == NONE or is_const(hi) and isinstance(hi[2], int) and hi[2] >= 0)
            lo = (lo[2] or 0) if ok else 0
            k = 0
            while i < len(names):
                if not ok:
                    out.append((names[i], top('star argument'), None))
                elif hi != NONE and lo + k >= hi[2]:
                    break
                else:
                    has = self.simp(('lt', const(lo + k), ('call', 'len', (base,), ())), st)
                    if has == FALSE:
                        break
                    out.append((names[i], mk_idx(base, const(lo + k)), None if has == TRUE else has))
                i += 1
                k += 1
            if not ok:
                out.append((None, top('star argument'), None))
        return out

    def simp(self, c, st):
        return simp(c, expand_facts(tuple(st.pc)))

    def apply(self, f, args, kwargs, st, node):
        k = f[0]
        if any(a[0] == 'starred' for a in args) and not (k == 'func' or k == 'cls' and any(c.is_dataclass for c in f[1].mro())):
            args = [top('star argument') if a[0] == 'starred' else a for a in args]
        if k == 'ite':
            box = {}

            def run(g, key):
                def r(x):
                    box[key] = self.apply(g, args, kwargs, x, node)
                    return self.fall_if_alive(x)
                return r
            outs = self.branch(f[1], st.copy(), run(f[2], 'a'), run(f[3], 'b'))
            self.absorb(st, outs)
            c = f[1]
            if 'a' not in box:
                return box.get('b', ('undef',))
            if 'b' not in box:
                return box['a']
            return mk_ite_u(c, box['a'], box['b'])
        if k == 'func':
            fi = f[1].f
            a = ([f[2]] if f[2] is not None else []) + args
            return self.call_user(fi, a, kwargs, st, node)
        if k == 'cls':
            return self.construct(f[1], args, kwargs, st, node)
        if k == 'builtin':
            return self.builtin(f[1], args, kwargs, st, node)
        if k == 'method':
            return self.method(f[1], f[2], args, kwargs, st, node)
        if k == 'ext':
            return self.external(f[1], args, kwargs, st, node)
        if k == 'partial':
            kw = dict(f[3])
            kw.update(kwargs)
            return self.apply(f[1], list(f[2]) + args, kw, st, node)
        if k in ('top', 'undef', 'attr', 'idx', 'const', 'phi', 'last', 'first', 'elem'):
            self.note(node, f'call of {k}')
            for a in args:
                if a[0] == 'ref':
                    self.escape(a, st)
            self.event('unknowncall', st, node, f)
            return top('call of unknown')
        self.note(node, f'call {k}')
        return top(f'call {k}')

    def escape(self, ref, st):
        c = st.heap.get(ref[1])
        if isinstance(c, Cell):
            st.heap[ref[1]] = Cell(top('escaped'))

    def call_user(self, fi, args, kwargs, st, node):
        name = fi.name
        if name == 'dequote' or name in self.no_inline:
            return ('call', name, tuple(self.deref(a, st) for a in args), tuple(sorted(kwargs.items())))
        if name == 'from_sexpr' and fi.cls is not None and fi.kind == 'classmethod' and not self.is_super(fi, args):
            cls = args[0][1] if args and args[0][0] == 'cls' else fi.cls
            x = self.deref(args[1] if len(args) > 1 else kwargs.get('exp', top('no exp')), st)
            self.event('parse', st, node, (cls, x))
            return ('parse', cls, x)
        if name == 'from_sexpr' and fi.cls is not None and fi.kind in ('staticmethod',):
            x = self.deref(args[0], st)
            self.event('parse', st, node, (fi.cls, x))
            return ('parse', fi.cls, x)
        if name == 'to_sexpr' and fi.cls is not None and args and not getattr(fi, 'plain', False) and not self.is_super(fi, args) and not (self.inline_ser and args[0][0] == 'ref'):
            self.event('ser', st, node, args[0])
            return ('ser', self.ser_obj(args[0], st), tuple(args[1:]), tuple(sorted(kwargs.items())))
        r, s2 = self.call(fi, args, kwargs, st, node)
        if s2 is None:
            st.pc = st.pc + (FALSE,)
            return ('undef',)
        st.env, st.heap, st.pc = s2.env if s2.env is not st.env else st.env, s2.heap, s2.pc
        return r

    def ser_obj(self, v, st):
        if v[0] == 'ref':
            cell = st.heap.get(v[1])
            if isinstance(cell, Inst) and cell.base is not None and not cell.fields:
                return cell.base
            return self.resolve(v, st)
        return v

    def is_super(self, fi, args):
        """from_sexpr/to_sexpr of a base class called from the same-named method of a subclass."""
        if not self.stack:
            return False
        cur = self.stack[-1]
        if cur.cls is None or cur.cls is fi.cls:
            return False
        if cur.name == fi.name or True:
            if fi.cls in cur.cls.mro()[1:]:
                # inherited: super() or explicit base call
                return cur.name in ('from_sexpr', 'to_sexpr') and fi.name == cur.name
        return False

    def construct(self, cls, args, kwargs, st, node):
        if not cls.is_dataclass and not any(c.is_dataclass for c in cls.mro()):
            init = cls.find_method('__init__')
            ref = self.alloc(st, Inst(cls, {}))
            if init is not None:
                r, s2 = self.call(init, [ref] + args, kwargs, st, node)
                self.adopt_heap(st, s2)
            return ref
        fields = cls.fields()
        names = [n for n, f in fields.items() if f.init]
        vals, cond = {}, {}
        if any(a[0] == 'starred' for a in args):
            for n, a, c in self.spread_args(names, args, st):
                if n is not None:
                    vals[n] = a
                    if c is not None:
                        cond[n] = c
        else:
            for n, a in zip(names, args):
                vals[n] = a
        for n, a in kwargs.items():
            if n == '**':
                continue
            vals[n] = a
        ref = self.alloc(st, Inst(cls, {}))
        for n, f in fields.items():
            if n in vals:
                v = vals[n]
                if n in cond:
                    d = self.default_of(f, st)
                    if d != ('undef',):
                        v = mk_ite(cond[n], v, d)
            elif '**' in kwargs:
                v = kwargs['**']
                if v[0] == 'map':
                    v = ('call', 'get', (v, const(n), self.default_of(f, st)), ())
            else:
                v = self.default_of(f, st)
            st.heap[ref[1]].fields[n] = v
        for n in vals:
            if n not in fields:
                self.event('badkw', st, node, (cls, n))
        pi = cls.find_method('__post_init__')
        if pi is not None:
            r, s2 = self.call(pi, [ref], {}, st, node)
            self.adopt_heap(st, s2)
        return ref

    def bounded_keys(self, v, st):
        """Whether every key of a dictionary is one of a few constants."""
        def ok(parts, pc):
            for p in parts:
                if p[0] == 'ent':
                    if not is_const(p[1]):
                        k = self.among(p[1], State({}, {}, pc))
                        if any(not is_const(x) for x in ite_leaves(k)):
                            return False
                elif p[0] == 'alt':
                    if not ok(p[2], pc + (p[1],)) or not ok(p[3], pc + (mk_not(p[1]),)):
                        return False
                elif p[0] == 'loop':
                    if not ok(p[3], pc):
                        return False
                else:
                    return False
            return True
        return v[0] == 'map' and ok(v[1], st.pc)

    def adopt_heap(self, st, s2):
        if s2 is None:
            st.pc = st.pc + (FALSE,)
        else:
            st.heap, st.pc = s2.heap, s2.pc

    def default_of(self, f, st):
        fn = P.FuncInfo(f.cls.module, ast.Lambda(args=ast.arguments([], [], None, [], [], None, []),
                                                 body=f.default or f.factory or ast.Constant(None)))
        if f.factory is None and f.default is None:
            return ('undef',)
        self.stack.append(fn)
        self.depth += 1
        try:
            if self.depth > self.MAXDEPTH:
                return top('default depth')
            x = State({}, st.heap, st.pc)
            v = self.eval(f.factory if f.factory is not None else f.default, x)
            if f.factory is not None:
                v = self.apply(v, [], {}, x, f.factory)
            st.heap = x.heap
            return v
        finally:
            self.depth -= 1
            self.stack.pop()

    # ------------------------------------------------------------ builtins
    def builtin(self, n, args, kwargs, st, node):
        d = [self.deref(a, st) for a in args]
        if n == 'len' and d:
            v = d[0]
            if v[0] == 'seq' and all(p[0] == 'item' for p in v[2]):
                return const(len(v[2]))
            if is_const(v) and isinstance(v[2], str):
                return const(len(v[2]))
            if v[0] == 'seq' and len(v[2]) == 1 and v[2][0][0] == 'loop' and len(v[2][0][3]) == 1 and v[2][0][3][0][0] == 'item':
                return ('call', 'len', (v[2][0][2],), ())
            if v[0] == 'slice' and v[2] == NONE and v[3] == NONE:
                v = v[1]
            return ('call', 'len', (v,), ())
        if n in ('chr', 'ord', 'hex', 'oct', 'bin', 'ascii') and len(d) == 1 and is_const(d[0]):
            try:
                return const(getattr(builtins, n)(d[0][2]))
            except (TypeError, ValueError):
                return top(n)
        if n == 'str':
            if not d:
                return const('')
            return mk_str(self.fmt_parts(d[0]))
        if n == 'format':
            return mk_str(self.fmt_parts(d[0], d[1][2] if len(d) > 1 and is_const(d[1]) else '' if len(d) == 1 else show(d[1])))
        if n == 'bool':
            return self.truth(args[0], st) if args else FALSE
        if n == 'isinstance':
            names = []
            ts = [p[1] for p in d[1][2]] if d[1][0] == 'seq' else [d[1]]
            ok = True
            for t in ts:
                if t[0] == 'builtin':
                    names.append(t[1])
                elif t[0] == 'cls':
                    names.append(t[1].name)
                elif t[0] == 'call' and t[1] == 'type' and _tn(t[2][0]):
                    names.append(_tn(t[2][0]))
                else:
                    ok = False
            if not ok:
                if len(ts) == 1 and (ts[0][0] in ('param', 'idx', 'elem', 'const', 'attr', 'str') and d[0][0] in ('builtin', 'cls') or ts[0][0] in ('const', 'str')):
                    # a value in place of a type: TypeError on every call
                    self.raises.append(Event('raise', mk_and(st.pc), node, self.stack[-1] if self.stack else None, 'TypeError'))
                    st.pc = st.pc + (FALSE,)
                    return FALSE
                return ('truthy', top('isinstance'))
            v = args[0]
            if v[0] == 'ref':
                c = st.heap.get(v[1])
                if isinstance(c, Inst):
                    return const(any(k.name in names for k in c.cls.mro()))
                return mk_istype(c.v, names)
            return mk_istype(v, names)
        if n == 'type' and len(d) == 1:
            if args[0][0] == 'ref' and isinstance(st.heap.get(args[0][1]), Inst):
                return ('cls', st.heap[args[0][1]].cls)
            t = self.typeof(d[0])
            if d[0] == ('param', 'self') and t[0] == 'inst':
                return ('cls', t[1])
            return ('call', 'type', (d[0],), ())
        if n == 'super':
            cur = self.stack[-1]
            first = cur.node.args.args[0].arg if cur.node.args.args else None
            return ('super', cur.cls, st.env.get(first, ('undef',))) if cur.cls else top('super')
        if n == 'getattr':
            if len(d) > 1:
                d[1] = self.among(d[1], st)
            if len(d) > 1 and is_const(d[1]):
                return self.get_attr(args[0], d[1][2], st, node)
            if len(d) > 1 and d[1][0] == 'ite':
                return over_ite(d[1], lambda x: self.get_attr(args[0], x[2], st, node) if is_const(x) else top('getattr'))
            return top('getattr')
        if n == 'vars' and len(args) == 1:
            return self.object_dict(args[0], st, node)
        if n == 'setattr':
            self.setattr_dyn(args[0], d[1], args[2], st, node)
            return NONE
        if n in ('list', 'tuple'):
            if not d:
                return self.alloc(st, Cell(('seq', 'list', ()))) if n == 'list' else ('seq', 'tuple', ())
            parts = self.as_parts(d[0], st)
            parts = self.copy_parts(parts, st)
            v = ('seq', n, tuple(parts))
            return self.alloc(st, Cell(v)) if n == 'list' else v
        if n == 'dict':
            parts = []
            if d:
                v = d[0]
                if v[0] == 'map':
                    parts.extend(v[1])
                elif v[0] == 'seq' and all(p[0] == 'item' and p[1][0] == 'seq' and len(p[1][2]) == 2 for p in v[2]):
                    parts.extend(('ent', p[1][2][0][1], p[1][2][1][1]) for p in v[2])
                elif v[0] == 'seq':
                    def conv(ps):
                        o = []
                        for p in ps:
                            if p[0] == 'item' and p[1][0] == 'seq' and len(p[1][2]) == 2:
                                o.append(('ent', p[1][2][0][1], p[1][2][1][1]))
                            elif p[0] == 'alt':
                                o.append(('alt', p[1], conv(p[2]), conv(p[3])))
                            elif p[0] == 'loop':
                                o.append(('loop', p[1], p[2], conv(p[3])))
                            else:
                                o.append(('spread', top('dict')))
                        return tuple(o)
                    parts.extend(conv(v[2]))
                else:
                    parts.append(('spread', v))
            for k, v in kwargs.items():
                parts.append(('ent', const(k), v))
            return self.alloc(st, Cell(('map', tuple(parts))))
        if n == 'range' or n in ('enumerate', 'zip', 'reversed', 'iter'):
            if n == 'enumerate' and 'start' in kwargs:
                d = d + [kwargs['start']]
            if n == 'iter' and len(d) == 1:
                r = self.alloc(st, Cell(d[0]))
                self.iters.add(r)
                return r
            if n == 'reversed' and d[0][0] == 'seq' and all(p[0] == 'item' for p in d[0][2]):
                return ('seq', d[0][1], d[0][2][::-1])
            return ('call', n, tuple(d), ())
        if n == 'map' and len(args) == 2:
            return self.map_over(args[0], d[1], st, node)
        if n == 'filter' and len(args) == 2:
            return self.filter_over(args[0], d[1], st, node)
        if n in ('any', 'all') and d:
            return self.anyall(n, d[0], st)
        if n == 'next' and d:
            v = d[0]
            r = self.next_(d, st)
            if args[0][0] == 'ref' and isinstance(st.heap.get(args[0][1]), Cell):
                rest = top('iterator')
                if args[0] in self.iters and v[0] in ('param', 'slice', 'attr', 'elem', 'idx'):
                    r = mk_idx(v, const(0))
                    if len(d) > 1:
                        r = mk_ite_u(mk_truthy(v), r, d[1])
                    rest = mk_slice(v, const(1), NONE)
                elif v[0] == 'seq' and v[2] and v[2][0][0] == 'item':
                    rest = ('seq', v[1], v[2][1:])
                st.heap[args[0][1]] = Cell(rest)
            return r
        if n in ('int', 'float') and len(d) == 1 and d[0][0] == 'ite':
            return over_ite(d[0], lambda x: self.builtin(n, [x], {}, st, node))
        if n == 'int' and len(d) == 1 and d[0][0] == 'call' and d[0][1] == 'int':
            return d[0]
        if n == 'float' and d and is_const(d[0]) and isinstance(d[0][2], (int, float)):
            return const(float(d[0][2]))
        if n in ('sorted', 'set', 'frozenset'):
            return ('call', n, tuple(d), tuple(sorted((k, v) for k, v in kwargs.items())))
        if n in ('print', 'open', 'input', 'eval', 'exec', 'globals', 'locals', 'id', 'hash'):
            if n == 'open':
                v = ('file', self.new_id())
                self.event('open', st, node, (tuple(d), tuple(sorted(kwargs.items())), v))
                return v
            if n == 'print' and 'file' in kwargs and self.deref(kwargs['file'], st)[:2] == ('seq', 'buffer') and kwargs['file'][0] == 'ref':
                sep, end = self.deref(kwargs.get('sep', const(' ')), st), self.deref(kwargs.get('end', const('\n')), st)
                t = mk_str([q for i, x in enumerate(d) for q in ((('hole', sep),) if i else ()) + (('hole', x),)] + [('hole', end)])
                self.method(kwargs['file'], 'write', [t], {}, st, node)
                return NONE
            if n == 'print' and 'file' in kwargs and self.deref(kwargs['file'], st)[0] == 'file':
                sep, end = self.deref(kwargs.get('sep', const(' ')), st), self.deref(kwargs.get('end', const('\n')), st)
                t = d[0] if len(d) == 1 else mk_str([q for i, x in enumerate(d) for q in ((('hole', sep),) if i else ()) + (('hole', x),)])
                if end != const(''):
                    t = mk_str([('hole', t), ('hole', end)])
                self.event('write', st, node, (self.deref(kwargs['file'], st), [t]))
                return NONE
            self.event('io', st, node, (n, tuple(d)))
            return top(n)
        if n == 'repr' and d:
            return ('call', 'repr', tuple(d), ())
        if n == 'callable' and d:
            return mk_not(mk_isnone(d[0])) if d[0][0] in ('func', 'ite', 'const') else top('callable')
        if n == 'hasattr':
            if len(d) == 2:
                d[1] = self.among(d[1], st)
                cls = st.heap[args[0][1]].cls if args[0][0] == 'ref' and isinstance(st.heap.get(args[0][1]), Inst) else None
                if cls is not None and all(is_strconst(x) for x in ite_leaves(d[1])):
                    has = lambda x: const(bool(x[2] in cls.fields() or cls.find_method(x[2]) or cls.find_attr(x[2]) or cls.find_prop(x[2])))
                    return self.by_cases(d[1], has)
            return ('truthy', top('hasattr'))
        return ('call', n, tuple(d), tuple(sorted((k, self.deref(v, st)) for k, v in kwargs.items())))

    def by_cases(self, v, f):
        """A condition that depends on which of a few constants v is."""
        if v[0] == 'ite':
            return mk_or([mk_and([v[1], self.by_cases(v[2], f)]), mk_and([mk_not(v[1]), self.by_cases(v[3], f)])])
        return f(v)

    def copy_parts(self, parts, st):
        return parts

    def among(self, v, st):
        """v by cases, when the conditions on the path leave it a few constants."""
        if is_const(v) or v[0] in ('ite', 'top'):
            return v
        if v[0] == 'str' and all(p[0] in ('lit', 'hole') for p in v[1]):
            # a text put together from values that leave a few constants
            r = const('')
            for p in v[1]:
                x = const(p[1]) if p[0] == 'lit' else self.among(p[1], st)
                if not (is_const(x) or x[0] == 'ite'):
                    return v
                r = over_ite(r, lambda a: over_ite(x, lambda b: const(str(a[2]) + str(b[2])) if is_const(a) and is_const(b) else top('name')))
            return r
        facts = expand_facts(st.pc)
        left = None
        for f in sorted(facts, key=repr):
            cs = None
            eqs = f[1] if f[0] == 'or' else (f,)
            if all(x[0] == 'eq' and x[1] == v and is_const(x[2]) for x in eqs):
                cs = [x[2] for x in eqs]
            elif f[0] == 'in' and f[1] == v and f[2][0] == 'seq' and f[2][2] and all(x[0] == 'item' and is_const(x[1]) for x in f[2][2]):
                cs = [x[1] for x in f[2][2]]
            if cs:
                left = cs if left is None else [c for c in left if c in cs]
        left = [c for c in left or () if mk_not(mk_eq(v, c)) not in facts]
        if not left:
            return v
        r = left[-1]
        for c in reversed(left[:-1]):
            r = ('ite', mk_eq(v, c), c, r)
        return r

    def setattr_dyn(self, obj, name, v, st, node):
        name = self.among(name, st)
        if is_const(name) and not isinstance(name[2], str):
            # the name of an attribute must be a text
            self.raises.append(Event('raise', mk_and(st.pc), node, self.stack[-1] if self.stack else None, 'TypeError'))
            st.pc = st.pc + (FALSE,)
            return
        if is_const(name):
            self.set_attr(obj, name[2], v, st, node)
            return
        if name[0] == 'ite':
            outs = self.branch(name[1], st.copy(),
                               lambda x: (self.setattr_dyn(obj, name[2], simp_val(v, expand_facts(x.pc)), x, node), [Outcome('fall', x)])[1],
                               lambda x: (self.setattr_dyn(obj, name[3], simp_val(v, expand_facts(x.pc)), x, node), [Outcome('fall', x)])[1])
            self.absorb(st, outs)
            return
        if name[0] == 'top' and name[1] == 'missing key':
            return     # unreachable remainder of an exhaustive constant table
        # unknown attribute: every field may change
        self.note(node, 'dynamic setattr')
        self.event('dynsetattr', st, node, None)
        if obj[0] == 'ref' and isinstance(st.heap.get(obj[1]), Inst):
            c = st.heap[obj[1]]
            for f in c.cls.fields():
                c.fields[f] = top('dynamic setattr')

    def map_over(self, f, it, st, node):
        def conv(parts, x):
            out = []
            for p in parts:
                if p[0] == 'item':
                    out.append(('item', self.apply(f, [p[1]], {}, x, node)))
                elif p[0] == 'alt':
                    out.append(('alt', p[1], tuple(conv(p[2], x)), tuple(conv(p[3], x))))
                elif p[0] == 'loop':
                    self.loopstack.append(p[1])
                    out.append(('loop', p[1], p[2], tuple(conv(p[3], x))))
                    self.loopstack.pop()
                elif p[0] == 'spread':
                    L = self.new_id()
                    base = self.fresh
                    cit, el = self.norm_iter(p[1], L, x)
                    self.loopstack.append(L)
                    out.append(('loop', L, cit, (('item', self.resolve(self.apply(f, [el], {}, x, node), x, base)),)))
                    self.loopstack.pop()
                else:
                    out.append(('spread', top('map')))
            return out
        return ('seq', 'list', tuple(conv(self.as_parts(it, st), st)))

    def filter_over(self, f, it, st, node):
        out = []
        for p in self.as_parts(it, st):
            if p[0] == 'item':
                c = self.truth(p[1] if f == NONE else self.apply(f, [p[1]], {}, st, node), st)
                out.extend((p,) if c == TRUE else () if c == FALSE else (('alt', c, (p,), ()),))
            elif p[0] == 'spread':
                L = self.new_id()
                cit, el = self.norm_iter(p[1], L, st)
                c = self.truth(el if f == NONE else self.apply(f, [el], {}, st, node), st)
                out.append(('loop', L, cit, (('alt', c, (('item', el),), ()),)))
            elif p[0] == 'alt' and f == NONE:
                sub = lambda ps: self.filter_over(NONE, ('seq', 'list', ps), st, node)[2]
                out.append(('alt', p[1], sub(p[2]), sub(p[3])))
            elif p[0] == 'loop' and f == NONE:
                out.append(('loop', p[1], p[2], self.filter_over(NONE, ('seq', 'list', p[3]), st, node)[2]))
            else:
                out.append(('spread', top('filter')))
        return ('seq', 'list', tuple(out))

    def anyall(self, n, v, st):
        def go(parts, want):
            cs = []
            for p in parts:
                if p[0] == 'item':
                    c = self.truth(p[1], st)
                    cs.append(c if want else mk_not(c))
                elif p[0] == 'alt':
                    cs.append(mk_or([mk_and([p[1], go(p[2], want)]), mk_and([mk_not(p[1]), go(p[3], want)])]))
                elif p[0] == 'loop':
                    c = go(p[3], want)
                    cs.append(c if is_const(c) and c == FALSE else ('any', p[1], p[2], c))
                elif p[0] == 'spread':
                    L = self.new_id()
                    cit, el = self.norm_iter(p[1], L, st)
                    c = mk_truthy(el)
                    cs.append(('any', L, cit, c if want else mk_not(c)))
                else:
                    cs.append(('truthy', top('any')))
            return mk_or(cs)
        parts = self.as_parts(v, st)
        if n == 'any':
            return go(parts, True)
        return mk_not(go(parts, False))

    def next_(self, d, st):
        v = d[0]
        default = d[1] if len(d) > 1 else ('undef',)
        if v[0] == 'seq' and all(p[0] in ('item', 'alt') for p in v[2]):
            def pick(parts):
                if not parts:
                    return default
                if parts[0][0] == 'item':
                    return parts[0][1]
                if parts[0][0] != 'alt':
                    return top('next')
                return mk_ite_u(parts[0][1], pick(parts[0][2] + parts[1:]), pick(parts[0][3] + parts[1:]))
            if len(v[2]) <= 12:
                return pick(v[2])
        if v[0] == 'seq' and len(v[2]) == 1 and v[2][0][0] == 'loop':
            L, it, body = v[2][0][1], v[2][0][2], v[2][0][3]
            c, b = TRUE, body
            if len(b) == 1 and b[0][0] == 'alt' and not b[0][3]:
                c, b = b[0][1], b[0][2]
            if len(b) == 1 and b[0][0] == 'item':
                return mk_ite_u(('any', L, it, c), ('first', L, it, c, b[0][1]), default)
        return top('next')

    # ------------------------------------------------------------ methods on values
    def list_extend(self, ref, v, st, node):
        v = self.deref(v, st)
        cell = st.heap[ref[1]]
        if cell.v[0] == 'seq':
            if v[0] == 'seq':
                add = v[2]
            elif v[0] == 'ite':
                add = self.as_parts(v, st)
            else:
                add = (('spread', v),)
            st.heap[ref[1]] = Cell(('seq', cell.v[1], cell.v[2] + tuple(add)))
        elif cell.v[0] == 'map':
            add = v[1] if v[0] == 'map' else (('spread', v),)
            st.heap[ref[1]] = Cell(('map', cell.v[1] + tuple(add)))

    def mutate(self, base, name, args, st, node):
        if base[0] == 'attr':
            self.aliased(base[1], base[2], st)
        self.event('mutate', st, node, (base, name))
        return top(name)

    def method(self, base, name, args, kwargs, st, node):
        if base[0] == 'ite':
            return self.apply(('ite', base[1], self.get_attr(base[2], name, st, node), self.get_attr(base[3], name, st, node)), args, kwargs, st, node)
        d = [self.deref(a, st) for a in args]
        if base[0] == 'ref':
            cell = st.heap.get(base[1])
            if isinstance(cell, Cell):
                r = self.cell_method(base, cell, name, args, d, kwargs, st, node)
                if r is not None:
                    return r
                base = cell.v
        if name == 'to_sexpr':
            self.event('ser', st, node, base)
            return ('ser', self.ser_obj(base, st), tuple(args), tuple(sorted(kwargs.items())))
        t = P.without_none(self.typeof(base))
        if t[0] == 'inst':
            f = t[1].find_method(name)
            if f is not None:
                if f.kind == 'staticmethod':
                    return self.call_user(f, args, kwargs, st, node)
                if f.kind == 'classmethod':
                    return self.call_user(f, [('cls', t[1])] + args, kwargs, st, node)
                return self.call_user(f, [base] + args, kwargs, st, node)
        if name == 'from_sexpr':
            return top('from_sexpr of unknown class')
        if base[0] == 'call' and base[1] in ('pathlib.Path', 'Path') and name in ('read_text', 'write_text', 'open', 'read_bytes', 'write_bytes'):
            v = ('file', self.new_id())
            p = base[2][0] if base[2] else NONE
            kw = dict(kwargs)
            if name == 'open':
                self.event('open', st, node, ((p,) + tuple(d), tuple(sorted(kw.items())), v))
                return v
            rest = list(d[1:] if name.startswith('write') else d)
            if rest:
                kw.setdefault('encoding', rest[0])
            if len(rest) > 1:
                kw.setdefault('errors', rest[1])
            mode = ('w' if name.startswith('write') else 'r') + ('b' if name.endswith('bytes') else '')
            self.event('open', st, node, ((p, const(mode)), tuple(sorted(kw.items())), v))
            if name.startswith('read'):
                self.event('read', st, node, v)
                return ('call', 'read', (v,), ())
            self.event('write', st, node, (v, d[:1]))
            return NONE
        if base[0] == 'file':
            if name == 'readlines' and not args:
                self.event('read', st, node, base)
                return ('call', 'readlines', (base,), ())
            if name == 'read' and not args:
                self.event('read', st, node, base)
                return ('call', 'read', (base,), ())
            if name in ('write', 'writelines'):
                self.event('write', st, node, (base, d))
                return NONE
            if name in ('close', 'flush'):
                self.event('close', st, node, base)
                return NONE
            return self._opaque(name, base, d, kwargs)
        if name == 'join' and (is_strconst(base) or base[0] == 'str'):
            return self.join(base, d[0], st)
        if name == 'format' and is_strconst(base):
            return self.str_format(base[2], d, kwargs, st)
        if name == 'format_map' and is_strconst(base) and len(d) == 1 and d[0][0] == 'map' and all(p[0] == 'ent' and is_strconst(p[1]) for p in d[0][1]):
            return self.str_format(base[2], [], {p[1][2]: p[2] for p in d[0][1]}, st)
        if name == 'copy' and not args:
            return ('slice', base, NONE, NONE) if t[0] == 'list' else self.alloc(st, Cell(('map', (('spread', base),)))) if t[0] == 'dict' else ('call', 'copy', (base,), ())
        if name in ('items', 'keys', 'values') and not args:
            return ('call', name, (base,), ())
        if name == 'get' and args:
            if base[0] == 'map':
                return self.map_get(base, d, st)
            default = d[1] if len(d) > 1 else NONE
            return mk_ite_u(('in', d[0], base), mk_idx(base, d[0]), default)
        if name in MUTATORS and base[0] not in ('const', 'str'):
            if name in ('index', 'count'):
                return ('call', name, (base,) + tuple(d), ())
            self.poison(base)
            return self.mutate(base, name, d, st, node)
        if is_strconst(base) and name in STRM and not kwargs:
            r = fold_method(name, [base] + list(d))
            if r is not None:
                return self.alloc(st, Cell(r)) if r[0] == 'seq' else r
        if name == 'replace' and len(d) == 2 and d == [const('"'), const('\\"')] and not kwargs:
            return ('call', 'dequote', (base,), ())
        if name in ('strip', 'lstrip', 'rstrip') and not kwargs and base[0] in ('str', 'ser', 'ite') and (not d or len(d) == 1 and is_strconst(d[0]) and d[0][2].isspace()):
            r = self.trimmed(base, d[0][2] if d else None, name != 'rstrip', name != 'lstrip')
            if r is not None:
                return r
        if base == const('') and name in ('ljust', 'rjust', 'center') and len(d) == 1 and not kwargs:
            return ('call', 'mul', (const(' '), d[0]), ())
        if name in STRM:
            if base[0] == 'str' and len(base[1]) == 1 and base[1][0][0] == 'hole' and name in ('lower', 'upper', 'strip'):
                return ('call', name, (base,) + tuple(d), ())
            return ('call', name, (base,) + tuple(d), tuple(sorted(kwargs.items())))
        return self._opaque(name, base, d, kwargs)

    def trimmed(self, v, chars, left, right):
        """A composed text without the white space around it; None when its ends are not known."""
        from .tree import is_ws_parts
        if v[0] == 'ite':
            a, b = self.trimmed(v[2], chars, left, right), self.trimmed(v[3], chars, left, right)
            return None if a is None or b is None else mk_ite_u(v[1], a, b)
        if is_strconst(v):
            return const((v[2].lstrip(chars) if left else v[2]).rstrip(chars) if right else v[2].lstrip(chars))
        if v[0] == 'ser':
            ms = P.members(P.without_none(self.typeof(v[1])))
            if not ms or any(m[0] != 'inst' or m[1].find_method('to_sexpr') is None for m in ms) or chars not in (None, '\n') or len(v[2]) > 2 or chars and left:
                return None
            for m in ms:
                ps = [a.arg for a in m[1].find_method('to_sexpr').node.args.args][1:3]
                if ps != ['indent', 'newline']:
                    return None
            kw = dict(v[3])
            kw.update(zip(('indent', 'newline'), v[2]))
            if left:
                kw['indent'] = const(0)
            if right:
                kw['newline'] = FALSE
            return ('ser', v[1], (), tuple(sorted(kw.items())))
        if v[0] != 'str':
            return None
        parts = list(v[1])
        for side in ([0] if left else []) + ([-1] if right else []):
            while parts:
                p = parts[side]
                if p[0] == 'lit':
                    t = p[1].lstrip(chars) if side == 0 else p[1].rstrip(chars)
                    if t:
                        parts[side] = ('lit', t)
                        break
                    parts.pop(side)
                elif is_ws_parts((p,)) and (chars is None or not contains(p, lambda y: y[0] in ('lit', 'const') and isinstance(y[-1], str) and y[-1].strip(chars))):
                    parts.pop(side)
                elif p[0] == 'hole' and p[1][0] in ('ser', 'str', 'ite'):
                    t = self.trimmed(p[1], chars, side == 0, side == -1)
                    if t is None:
                        return None
                    parts[side] = ('hole', t)
                    break
                else:
                    return None
        return mk_str(parts)

    def _opaque(self, name, base, d, kwargs):
        return ('call', '.' + name, (base,) + tuple(d), tuple(sorted(kwargs.items())))

    def map_get(self, base, d, st):
        default = d[1] if len(d) > 1 else NONE
        if all(p[0] == 'ent' for p in base[1]):
            r = default
            for p in base[1]:
                c = self.norm_eq(d[0], p[1], st)
                r = mk_ite_u(c, p[2], r)
            return r
        if not any(p[0] in ('phi', 'spread') for p in base[1]):
            return ('call', 'get', (base, d[0], default), ())
        return top('dict get')

    def cell_method(self, ref, cell, name, args, d, kwargs, st, node):
        v = cell.v
        if v[0] == 'seq' and v[1] == 'buffer':
            if name == 'write' and len(args) == 1:
                st.heap[ref[1]] = Cell(('seq', v[1], v[2] + (('item', args[0]),)))
                return top('count')
            if name == 'writelines' and len(args) == 1:
                st.heap[ref[1]] = Cell(('seq', v[1], v[2] + tuple(self.as_parts(d[0], st))))
                return NONE
            if name == 'getvalue' and not args:
                return self.join(const(''), ('seq', 'list', v[2]), st)
            if name in ('close', 'flush'):
                return NONE
            st.heap[ref[1]] = Cell(top('buffer'))
            return top('buffer')
        if v[0] == 'seq':
            if name == 'append':
                st.heap[ref[1]] = Cell(('seq', v[1], v[2] + (('item', args[0]),)))
                return NONE
            if name == 'extend':
                self.list_extend(ref, args[0], st, node)
                return NONE
            if name == 'insert' and d[0] == ('call', 'len', (v,), ()):
                st.heap[ref[1]] = Cell(('seq', v[1], v[2] + (('item', args[1]),)))
                return NONE
            if name == 'insert' and is_const(d[0]) and d[0][2] == 0:
                st.heap[ref[1]] = Cell(('seq', v[1], (('item', args[1]),) + v[2]))
                return NONE
            if name == 'copy':
                return self.alloc(st, Cell(v))
            if name == 'sort':
                st.heap[ref[1]] = Cell(('seq', 'list', (('spread', ('call', 'sorted', (v,), tuple(sorted(kwargs.items())))),)))
                return NONE
            if name == 'reverse':
                if all(p[0] == 'item' for p in v[2]):
                    st.heap[ref[1]] = Cell(('seq', 'list', v[2][::-1]))
                else:
                    st.heap[ref[1]] = Cell(('seq', 'list', (('spread', ('call', 'reversed', (v,), ())),)))
                return NONE
            if name == 'clear':
                st.heap[ref[1]] = Cell(('seq', 'list', ()))
                return NONE
            if name == 'pop' and v[2]:
                i = d[0][2] if d and is_const(d[0]) else -1
                if all(p[0] == 'item' for p in v[2]) and i in (-1, 0):
                    r = v[2][i][1]
                    st.heap[ref[1]] = Cell(('seq', 'list', v[2][:-1] if i == -1 else v[2][1:]))
                    return r
                if i == -1 and v[2][-1][0] == 'item':
                    r = v[2][-1][1]
                    st.heap[ref[1]] = Cell(('seq', 'list', v[2][:-1]))
                    return r
                if i == 0 and v[2][0][0] == 'spread':
                    r = mk_idx(v[2][0][1], const(0))
                    st.heap[ref[1]] = Cell(('seq', 'list', (('spread', mk_slice(v[2][0][1], const(1), NONE)),) + v[2][1:]))
                    return r
            if name in MUTATORS:
                st.heap[ref[1]] = Cell(top(f'list.{name}'))
                self.note(node, f'list.{name}')
                return top(name)
        if v[0] == 'map':
            if name == 'update':
                parts = list(v[1])
                for a in d:
                    parts.extend(a[1] if a[0] == 'map' else (('spread', a),))
                for k, x in kwargs.items():
                    parts.append(('ent', const(k), x))
                st.heap[ref[1]] = Cell(('map', tuple(parts)))
                return NONE
            if name == 'get':
                return self.map_get(v, d, st)
            if name == 'copy':
                return self.alloc(st, Cell(v))
            if name == 'setdefault':
                parts = v[1] + (('alt', ('in', d[0], v), (), (('ent', d[0], args[1] if len(args) > 1 else NONE),)),)
                st.heap[ref[1]] = Cell(('map', parts))
                return top('setdefault')
            if name in MUTATORS:
                st.heap[ref[1]] = Cell(top(f'dict.{name}'))
                return top(name)
        if v[0] in ('top', 'phi') and name in MUTATORS:
            return top(name)
        return None

    def join(self, sep, seq, st):
        if sep == const('\\"') and seq[0] == 'call' and seq[1] == 'split' and len(seq[2]) == 2 and seq[2][1] == const('"'):
            return ('call', 'dequote', (seq[2][0],), ())
        if not str_parts(sep) and seq[0] == 'call' and seq[1] == 'readlines':
            return ('call', 'read', seq[2], ())
        if not str_parts(sep) and seq[0] == 'file':
            return ('call', 'read', (seq,), ())
        parts = self.as_parts(seq, st)
        seps = str_parts(sep)
        if all(p[0] == 'item' for p in parts):
            out = []
            for i, p in enumerate(parts):
                if i:
                    out.extend(seps)
                out.extend(str_parts(self.deref(p[1], st)))
            return mk_str(out)
        head = parts and parts[0][0] == 'item'
        tail = parts and parts[-1][0] == 'item' and not head
        if not seps or head or tail:
            # one element is always there: every other one comes with its separator
            before, after = (seps if head else ()), (seps if tail else ())

            def conv(ps):
                o = []
                for p in ps:
                    if p[0] == 'item':
                        o.extend(before)
                        o.extend(str_parts(self.deref(p[1], st)))
                        o.extend(after)
                    elif p[0] == 'alt':
                        o.append(('alt', p[1], tuple(conv(p[2])), tuple(conv(p[3]))))
                    elif p[0] == 'loop':
                        o.append(('loop', p[1], p[2], tuple(conv(p[3]))))
                    elif p[0] == 'spread':
                        L = self.new_id()
                        cit, el = self.norm_iter(p[1], L, st)
                        o.append(('loop', L, cit, tuple(before) + tuple(str_parts(el)) + tuple(after)))
                    else:
                        o.append(('hole', top('join')))
                return o
            if head:
                return mk_str(list(str_parts(self.deref(parts[0][1], st))) + conv(parts[1:]))
            if tail:
                return mk_str(conv(parts[:-1]) + list(str_parts(self.deref(parts[-1][1], st))))
            return mk_str(conv(parts))

        def conv2(ps):
            o = []
            for p in ps:
                if p[0] == 'item':
                    o.append(('item', mk_str(str_parts(self.deref(p[1], st)))))
                elif p[0] == 'alt':
                    o.append(('alt', p[1], tuple(conv2(p[2])), tuple(conv2(p[3]))))
                elif p[0] == 'loop':
                    o.append(('loop', p[1], p[2], tuple(conv2(p[3]))))
                elif p[0] == 'spread':
                    L = self.new_id()
                    cit, el = self.norm_iter(p[1], L, st)
                    o.append(('loop', L, cit, (('item', el),)))
                else:
                    o.append(('item', top('join')))
            return tuple(o)
        return ('str', (('join', tuple(seps), conv2(parts)),))

    def str_format(self, s, args, kwargs, st):
        import string
        parts, i = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(('lit', lit))
                if field is None:
                    continue
                name = field
                path = ''
                for ch in '.[':
                    if ch in name:
                        k = name.index(ch)
                        name, path = name[:k], name[k:] + path
                if name == '':
                    v = args[i]
                    i += 1
                elif name.isdigit():
                    v = args[int(name)]
                else:
                    v = kwargs.get(name, top('format'))
                if path.startswith('.'):
                    for a in path[1:].split('.'):
                        v = self.get_attr(v, a, st, None)
                elif path:
                    v = top('format path')
                v = self.deref(v, st)
                if conv == 'r':
                    v = ('call', 'repr', (v,), ())
                parts.extend(self.fmt_parts(v, spec or ''))
        except (ValueError, IndexError):
            return top('format')
        return mk_str(parts)

    def external(self, name, args, kwargs, st, node):
        d = [self.deref(a, st) for a in args]
        if name.endswith('partial') and args:
            return ('partial', args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if name.endswith(('.copy', '.deepcopy')) and len(d) == 1:
            if args[0][0] == 'ref':
                v = self.resolve(args[0], st)
                return v
            return ('slice', d[0], NONE, NONE) if P.without_none(self.typeof(d[0]))[0] == 'list' else d[0]
        if name.endswith('chain') or name.endswith('chain.from_iterable'):
            if name.endswith('chain'):
                parts = []
                for x in d:
                    parts.extend(self.as_parts(x, st))
                return ('seq', 'list', tuple(parts))
        if name in ('re.match', 're.search', 're.fullmatch', 're.compile', 're.finditer', 're.findall', 're.sub', 're.split'):
            return ('call', name, tuple(d), tuple(sorted(kwargs.items())))
        if name == 'io.StringIO' and len(args) < 2 and not kwargs:
            return self.alloc(st, Cell(('seq', 'buffer', (('item', args[0]),) if args else ())))
        if name in ('io.open', 'codecs.open'):
            v = ('file', self.new_id())
            self.event('open', st, node, (tuple(d), tuple(sorted(kwargs.items())), v))
            return v
        self.event('external', st, node, (name, tuple(d), tuple(sorted(kwargs.items()))))
        return ('call', name, tuple(d), tuple(sorted(kwargs.items())))


class _F:
    """Identity wrapper so that function values are hashable and comparable."""
    def __init__(self, f):
        self.f = f

    @property
    def name(self):
        return self.f.qualname

    def __eq__(self, o):
        return isinstance(o, _F) and o.f.node is self.f.node

    def __hash__(self):
        return id(self.f.node)

    def __repr__(self):
        return repr(self.f)


class _Env:
    def __init__(self, env):
        self.env = env

    def __eq__(self, o):
        return isinstance(o, _Env)

    def __hash__(self):
        return 1


def mk_ite_u(c, a, b):
    """ite that tolerates undefined branches."""
    if a == b:
        return a
    if a == ('undef',):
        return b
    if b == ('undef',):
        return a
    return mk_ite(c, a, b)


def mk_boolval(c, w, v, isand):
    # v and w  /  v or w   where w is a boolean expression, used for truth only or bool value
    return mk_and([c, w]) if isand else mk_or([c, w])


def over_ite_pair(v, f):
    if v[0] == 'ite':
        return mk_ite(v[1], over_ite_pair(v[2], f), over_ite_pair(v[3], f))
    return f(v)


def subst_loop(parts, L, v):
    return parts


def _tn(v):
    return V._valtype(v)


def _load(t):
    import copy
    t = copy.copy(t)
    if hasattr(t, 'ctx'):
        t.ctx = ast.Load()
    return t


def _is_incr(s, name):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name and isinstance(s.op, ast.Add):
        return isinstance(s.value, ast.Constant) and s.value.value == 1
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
        return ast.unparse(s.value) in (f'{name} + 1', f'1 + {name}')
    return False


def _assigns(s, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(s))


def _has_continue(body):
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Continue):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def ite_leaves(v):
    return ite_leaves(v[2]) + ite_leaves(v[3]) if v[0] == 'ite' else [v]


def int_leaves(v):
    if v[0] == 'ite':
        return int_leaves(v[2]) and int_leaves(v[3])
    return is_const(v) and v[1] in ('int', 'bool')
