"""Language analysis of the tokeniser's regular expression (parsed, never executed)."""
import ast
import re._parser as sre
import re._constants as C
from .absint import Interp, State, Cell, Event, Outcome
from .program import AnalysisError
from .values import *

END = 'END'
# alphabet: ASCII plus representatives of non-ASCII letters, digits, and blanks
ALPHA = [chr(i) for i in range(128)] + ['é', '中', '٣', '\u00a0', '\u2003']
WSPACE = set(' \t\n\r\f\v') | {'\x1c', '\x1d', '\x1e', '\x1f'}


class Unsupported(Exception):
    pass


def cat(av, ch):
    n = str(av)
    if 'NOT_' in n:
        return not cat(getattr(C, n.replace('NOT_', '')), ch)
    if n == 'CATEGORY_DIGIT' or n == 'CATEGORY_UNI_DIGIT':
        return ch.isdecimal()
    if n == 'CATEGORY_SPACE' or n == 'CATEGORY_UNI_SPACE':
        return ch.isspace()
    if n == 'CATEGORY_WORD' or n == 'CATEGORY_UNI_WORD':
        return ch.isalnum() or ch == '_'
    raise Unsupported(n)


def charset(op, av, flags):
    """frozenset of alphabet characters a single-character matcher accepts."""
    n = str(op)
    if n == 'LITERAL':
        return frozenset(c for c in ALPHA if ord(c) == av) or frozenset([chr(av)])
    if n == 'NOT_LITERAL':
        return frozenset(c for c in ALPHA if ord(c) != av)
    if n == 'ANY':
        return frozenset(c for c in ALPHA if c != '\n' or flags & sre.SRE_FLAG_DOTALL)
    if n == 'CATEGORY':
        return frozenset(c for c in ALPHA if cat(av, c))
    if n == 'IN':
        neg = False
        s = set()
        for o, a in av:
            o = str(o)
            if o == 'NEGATE':
                neg = True
            elif o == 'LITERAL':
                s |= {c for c in ALPHA if ord(c) == a}
            elif o == 'RANGE':
                s |= {c for c in ALPHA if a[0] <= ord(c) <= a[1]}
            elif o == 'CATEGORY':
                s |= {c for c in ALPHA if cat(a, c)}
            else:
                raise Unsupported(o)
        return frozenset(c for c in ALPHA if (c in s) != neg)
    raise Unsupported(n)


def unwrap(seq):
    """Flatten non-capturing groups; capturing groups are kept as ('GROUP', name, items)."""
    out = []
    for op, av in seq:
        if str(op) == 'SUBPATTERN' and not av[1] and not av[2]:
            if av[0] is None:
                out.extend(unwrap(av[3]))
            else:
                out.append((op, av))
        elif str(op) == 'ATOMIC_GROUP':
            raise Unsupported('atomic')
        else:
            out.append((op, av))
    return out


def follow_of(items, flags):
    """Character set accepted by an assertion body (single character or end)."""
    items = unwrap(items)
    if not items:
        return None
    if len(items) == 1 and str(items[0][0]) == 'BRANCH':
        out = set()
        for b in items[0][1][1]:
            f = follow_of(b, flags)
            if f is None:
                return None
            out |= f
        return out
    if len(items) != 1:
        raise Unsupported('lookahead longer than one character')
    op, av = items[0]
    if str(op) == 'AT':
        if str(av) == 'AT_END':
            return {END} | ({'\n'} if flags & sre.SRE_FLAG_MULTILINE else set())
        if str(av) == 'AT_END_STRING':
            return {END}
        raise Unsupported(str(av))
    return set(charset(op, av, flags))


ALLF = frozenset(ALPHA) | {END}


class Alt:
    """One alternative: core (regex items without trailing look-ahead) and its follow set."""
    def __init__(self, group, core, follow, lazy):
        self.group, self.core, self.follow, self.lazy = group, core, follow, lazy


def assertions(items, flags):
    """Split trailing look-aheads: list of (core, follow)."""
    items = unwrap(items)
    if not items:
        return [(items, set(ALLF))]
    op, av = items[-1]
    n = str(op)
    if n == 'ASSERT' and av[0] == 1:
        f = follow_of(av[1], flags)
        return [(c, g & f) for c, g in assertions(items[:-1], flags)]
    if n == 'ASSERT_NOT' and av[0] == 1:
        f = follow_of(av[1], flags)
        return [(c, g - f) for c, g in assertions(items[:-1], flags)]
    if n == 'AT':
        f = follow_of([items[-1]], flags)
        return [(c, g & f) for c, g in assertions(items[:-1], flags)]
    if n == 'BRANCH':
        out = []
        for b in av[1]:
            for c, f in assertions(b, flags):
                out.append((items[:-1] + list(c), f))
        # merge branches that consist of assertions only
        merged = []
        for c, f in out:
            for k, (c2, f2) in enumerate(merged):
                if c2 == c:
                    merged[k] = (c2, f2 | f)
                    break
            else:
                merged.append((c, f))
        return merged
    return [(items, set(ALLF))]


class Nfa:
    def __init__(self):
        self.n = 0
        self.eps = {}       # state -> [(target, prevset or None)]
        self.tr = {}        # state -> [(charset, target)]

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b, prev=None):
        self.eps.setdefault(a, []).append((b, prev))

    def t(self, a, cs, b):
        self.tr.setdefault(a, []).append((cs, b))

    def build(self, items, s, flags):
        for op, av in unwrap(items):
            s = self.one(op, av, s, flags)
        return s

    def one(self, op, av, s, flags):
        n = str(op)
        if n in ('LITERAL', 'NOT_LITERAL', 'ANY', 'IN', 'CATEGORY'):
            x = self.new()
            self.t(s, charset(op, av, flags), x)
            return x
        if n == 'SUBPATTERN':
            return self.build(av[3], s, flags)
        if n == 'BRANCH':
            x = self.new()
            for b in av[1]:
                y = self.new()
                self.e(s, y)
                self.e(self.build(b, y, flags), x)
            return x
        if n in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, body = av
            if lo > 16:
                raise Unsupported('repeat')
            for _ in range(lo):
                s = self.build(body, s, flags)
            if hi == C.MAXREPEAT:
                a, x = self.new(), self.new()
                self.e(s, a)
                b = self.build(body, a, flags)
                self.e(b, a)
                self.e(a, x)
                return x
            if hi > 64:
                raise Unsupported('repeat')
            x = self.new()
            self.e(s, x)
            for _ in range(hi - lo):
                s = self.build(body, s, flags)
                self.e(s, x)
            return x
        if n in ('ASSERT', 'ASSERT_NOT') and av[0] == -1:
            body = unwrap(av[1])
            if len(body) != 1:
                raise Unsupported('look-behind')
            cs = charset(body[0][0], body[0][1], flags)
            if n == 'ASSERT_NOT':
                cs = frozenset(c for c in ALPHA if c not in cs) | {None}
            x = self.new()
            self.e(s, x, cs)
            return x
        raise Unsupported(n)

    def closure(self, states, prev):
        todo, seen = list(states), set(states)
        while todo:
            a = todo.pop()
            for b, p in self.eps.get(a, ()):
                if (p is None or prev in p) and b not in seen:
                    seen.add(b)
                    todo.append(b)
        return frozenset(seen)

    def step(self, states, ch):
        return frozenset(b for a in states for cs, b in self.tr.get(a, ()) if ch in cs)


class Lang:
    """A regular language given by one or several regex item lists."""
    def __init__(self, cores, flags=0):
        self.nfa = Nfa()
        self.start = self.nfa.new()
        self.acc = set()
        for c in cores:
            s = self.nfa.new()
            self.nfa.e(self.start, s)
            self.acc.add(self.nfa.build(c, s, flags))

    def init(self):
        return self.nfa.closure({self.start}, None)

    def next(self, st, ch):
        return self.nfa.closure(self.nfa.step(st, ch), ch)

    def accepts(self, st):
        return bool(st & self.acc)


def lang(pattern, flags=0):
    p = sre.parse(pattern, flags)
    return Lang([list(p)], p.state.flags)


def classes(*langs):
    """Partition of the alphabet: one representative per class of indistinguishable characters."""
    sets = set()
    for l in langs:
        for lst in l.nfa.tr.values():
            for cs, _ in lst:
                sets.add(cs)
        for lst in l.nfa.eps.values():
            for _, p in lst:
                if p is not None:
                    sets.add(p)
    sets = list(sets)
    rep = {}
    for ch in ALPHA:
        rep.setdefault(tuple(ch in s for s in sets), ch)
    return list(rep.values())


def difference(a, b, limit=20000):
    """A word of a that is not in b, or None."""
    reps = classes(a, b)
    start = (a.init(), b.init())
    seen = {start: ''}
    todo = [start]
    while todo:
        sa, sb = todo.pop(0)
        w = seen[(sa, sb)]
        if a.accepts(sa) and not b.accepts(sb):
            return w
        if len(seen) > limit:
            raise Unsupported('too many states')
        for ch in reps:
            na, nb = a.next(sa, ch), b.next(sb, ch)
            if not na:
                continue
            # the closure depends on the previous character only through the sets already in reps
            k = (na, nb)
            if k not in seen:
                seen[k] = w + ch
                todo.append(k)
    return None


def intersects(a, b, limit=20000):
    """A word in both languages, or None."""
    reps = classes(a, b)
    start = (a.init(), b.init())
    seen = {start: ''}
    todo = [start]
    while todo:
        sa, sb = todo.pop(0)
        w = seen[(sa, sb)]
        if a.accepts(sa) and b.accepts(sb):
            return w
        if len(seen) > limit:
            raise Unsupported('too many states')
        for ch in reps:
            na, nb = a.next(sa, ch), b.next(sb, ch)
            if not na or not nb:
                continue
            if (na, nb) not in seen:
                seen[(na, nb)] = w + ch
                todo.append((na, nb))
    return None


class Tokeniser:
    """The alternatives of the token expression, in order."""
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        try:
            p = sre.parse(pattern, flags)
        except Exception as e:
            raise Unsupported(f'regular expression: {e}')
        self.flags = p.state.flags
        self.names = {v: k for k, v in p.state.groupdict.items()}
        items = unwrap(p)
        # leading white space
        self.skips = False
        while items and str(items[0][0]) in ('MAX_REPEAT',):
            lo, hi, body = items[0][1]
            body = unwrap(body)
            if len(body) == 1 and lo == 0 and charset(body[0][0], body[0][1], self.flags) >= set(' \t\n\r'):
                self.skips = True
                items = items[1:]
            else:
                break
        self.alts = []
        if len(items) == 1 and str(items[0][0]) == 'BRANCH':
            branches = items[0][1][1]
        else:
            branches = [items]
        for b in branches:
            self.add(list(b))

    def add(self, b):
        b = unwrap(b)
        grp = None
        if b and str(b[0][0]) == 'SUBPATTERN' and b[0][1][0] is not None:
            grp = self.names.get(b[0][1][0])
            tail = b[1:]
            items = unwrap(b[0][1][3]) + list(tail)
        elif len(b) == 1 and str(b[0][0]) == 'BRANCH':
            for x in b[0][1][1]:
                self.add(list(x))
            return
        else:
            items = b
        lazy = bool(items) and str(items[-1][0]) == 'MIN_REPEAT'
        for core, f in assertions(items, self.flags):
            self.alts.append(Alt(grp, core, f, lazy))

    def group(self, g):
        return [a for a in self.alts if a.group == g]

    def order(self):
        out = []
        for a in self.alts:
            if a.group not in out:
                out.append(a.group)
        return out

    def lang(self, g):
        return Lang([a.core for a in self.group(g)], self.flags)


def parse_function(prog):
    """The parse_sexp function (FuncInfo) of the package."""
    for n, m in sorted(prog.modules.items(), key=lambda kv: not kv[0].endswith('utils.sexpr')):
        b = m.names.get('parse_sexp')
        if b and b[0] == 'func':
            return b[1]
    raise AnalysisError('parse_sexp not found')


TEXT = ('param', '$text')


class LexInterp(Interp):
    """Abstract interpreter that captures the token loop and can run its body for one kind of token."""
    def __init__(self, prog):
        super().__init__(prog)
        self.pattern = None
        self.flags = 0
        self.captured = None
        self.param_types = {'sexp': ('str',), '$text': ('str',)}
        self.names = []
        self.skips = True

    def ex_Subscript(self, e, st):
        base = self.eval(e.value, st)
        if base[0] == 'match' and not isinstance(e.slice, ast.Slice):
            return self.method(base, '__getitem__', [self.eval(e.slice, st)], {}, st, e)
        return super().ex_Subscript(e, st)

    def finditer(self, it):
        """pattern, flags when `it` iterates over the matches of a constant expression in the input."""
        if it[0] != 'call':
            return None
        if it[1] == 're.finditer' and it[2] and is_strconst(it[2][0]):
            fl = it[2][2] if len(it[2]) > 2 else dict(it[3]).get('flags')
            return it[2][0][2], self.flagval(fl), it[2][1] if len(it[2]) > 1 else None
        if it[1] in ('.finditer', 'finditer') and it[2] and it[2][0][0] == 'call' and it[2][0][1] == 're.compile':
            a = it[2][0][2]
            if a and is_strconst(a[0]):
                fl = a[1] if len(a) > 1 else dict(it[2][0][3]).get('flags')
                return a[0][2], self.flagval(fl), it[2][1] if len(it[2]) > 1 else None
        return None

    def flagval(self, v):
        if v is None:
            return 0
        if v[0] == 'const' and isinstance(v[2], int):
            return v[2]
        if v[0] == 'ext':
            import re
            n = v[1].split('.')[-1]
            return int(getattr(re, n, 0))
        if v[0] == 'call' and v[1] in ('or', 'bitor', '|') :
            r = 0
            for x in v[2]:
                r |= self.flagval(x)
            return r
        raise Unsupported('flags')

    def loop(self, it, body, st, node, fixed=None):
        f = self.finditer(it)
        if f is None or self.captured is not None:
            return super().loop(it, body, st, node, fixed)
        self.pattern, self.flags, self.subject = f
        lists = [n for n, v in st.env.items() if v[0] == 'ref' and isinstance(st.heap.get(v[1]), Cell)
                 and st.heap[v[1]].v == ('seq', 'list', ())]
        self.captured = (st.copy(), body, lists, list(self.stack))
        fin = st.copy()
        for n in lists:
            fin.heap[st.env[n][1]] = Cell(('seq', 'list', (('spread', ('param', '$v:' + n)),)))
        return [Outcome('fall', fin)]

    # -- match objects -----------------------------------------------------
    def get_attr(self, base, name, st, node, call=False):
        if base[0] == 'match':
            if name == 'lastgroup':
                return const(base[1])
            return ('method', base, name)
        return super().get_attr(base, name, st, node, call)

    def method(self, base, name, args, kwargs, st, node):
        if base[0] == 'match':
            if name == 'groupdict':
                return ('map', tuple(('ent', const(g), TEXT if g == base[1] else NONE) for g in self.names))
            if name in ('group', '__getitem__') and (not args or args == [const(0)]) and not self.skips:
                return TEXT
            if name in ('group', '__getitem__') and len(args) == 1 and is_strconst(args[0]):
                return TEXT if args[0][2] == base[1] else NONE
            return top('match.' + name)
        return super().method(base, name, args, kwargs, st, node)

    def cell_method(self, ref, cell, name, args, d, kwargs, st, node):
        if name == 'pop' and cell.v == ('seq', 'list', ()):
            self.raises.append(Event('raise', mk_and(st.pc), node, self.stack[-1] if self.stack else None, 'IndexError'))
            st.pc = st.pc + (FALSE,)
            return ('undef',)
        return super().cell_method(ref, cell, name, args, d, kwargs, st, node)

    def step(self, kind, setup):
        """Run the loop body for one token of `kind` from the state prepared by setup(st, lists).
        Returns [(Outcome)] of the body."""
        st0, body, lists, stack = self.captured
        st = st0.copy()
        setup(st)
        st.pc = st.pc + (('truthy', TEXT),)
        saved = self.stack
        self.stack = list(stack)
        try:
            outs = body(('match', kind), st)
        finally:
            self.stack = saved
        return [o for o in outs if FALSE not in o.st.pc]
