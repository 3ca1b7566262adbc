"""C22: parsing and loading in time proportional to the input.

Two parts: the token expression is examined as a backtracking matcher (ambiguous loops, scans repeated from every start
position), and the parser loop and the loaders for work on a whole list or text repeated inside a loop over it.
"""
import ast
from . import program as P
from .lexer import Nfa, Unsupported, ALPHA, WSPACE, ALLF, classes, Lang, charset, unwrap
from .rules_lexer import parser

SEP = WSPACE | {'(', ')'}


# ---------------------------------------------------------------- the token expression
class Matcher:
    """Character transitions of a regular expression with the number of ways to take them (0, 1, many)."""
    def __init__(self, core, flags):
        self.l = Lang([core], flags)
        self.nfa = self.l.nfa
        self.reps = classes(self.l)
        self.start = (self.l.start, None)
        self.memo = {}
        self.states = self.reach()

    def ways(self, q, prev):
        """targets of empty moves from q -> number of simple paths (at most 2)."""
        out = {}

        def go(a, seen):
            out[a] = min(2, out.get(a, 0) + 1)
            for b, p in self.nfa.eps.get(a, ()):
                if (p is None or prev in p) and b not in seen:
                    go(b, seen | {b})
        go(q, {q})
        return out

    def edges(self, s):
        """char -> {state: ways}"""
        if s not in self.memo:
            r = {}
            for a, n in self.ways(*s).items():
                for cs, b in self.nfa.tr.get(a, ()):
                    for ch in self.reps:
                        if ch in cs:
                            d = r.setdefault(ch, {})
                            d[(b, ch)] = min(2, d.get((b, ch), 0) + n)
            self.memo[s] = r
        return self.memo[s]

    def reach(self):
        todo, seen = [self.start], {self.start}
        while todo:
            s = todo.pop()
            for d in self.edges(s).values():
                for t in d:
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
        return seen

    def loops(self):
        """States that can be reached from themselves."""
        out = set()
        for s in self.states:
            todo, seen = [s], set()
            while todo:
                x = todo.pop()
                for d in self.edges(x).values():
                    for t in d:
                        if t == s:
                            out.add(s)
                            todo = []
                            break
                        if t not in seen:
                            seen.add(t)
                            todo.append(t)
                    if s in out:
                        break
        return out

    def repeated(self):
        """A word that one loop, or two loops after each other, can consume in several ways; with the degree."""
        lp = sorted(self.loops(), key=str)
        # one loop, two ways
        for q in lp:
            start = (q, q, False)
            seen, todo = {start: ''}, [start]
            while todo:
                a, b, diff = cur = todo.pop(0)
                w = seen[cur]
                for ch in self.reps:
                    ea, eb = self.edges(a).get(ch, {}), self.edges(b).get(ch, {})
                    for x, nx in ea.items():
                        for y, ny in eb.items():
                            d = diff or x != y or (a == b and nx > 1)
                            k = (x, y, d)
                            if k == (q, q, True):
                                return 'exponentially', w + ch
                            if k not in seen and len(seen) < 40000:
                                seen[k] = w + ch
                                todo.append(k)
        # two loops that accept the same word, one reachable from the other by it
        for q in lp:
            for p in lp:
                if p == q:
                    continue
                start = (q, q, p)
                seen, todo = {start: ''}, [start]
                while todo:
                    cur = todo.pop(0)
                    w = seen[cur]
                    for ch in self.reps:
                        for x in self.edges(cur[0]).get(ch, {}):
                            for y in self.edges(cur[1]).get(ch, {}):
                                for z in self.edges(cur[2]).get(ch, {}):
                                    k = (x, y, z)
                                    if k == (q, p, p):
                                        return 'with the square of the length', w + ch
                                    if k not in seen and len(seen) < 20000:
                                        seen[k] = w + ch
                                        todo.append(k)
        return None

    def first(self):
        return {c for c in ALPHA for cs in self.first_sets() if c in cs}

    def first_sets(self):
        for a in self.ways(*self.start):
            for cs, _ in self.nfa.tr.get(a, ()):
                yield cs

    def overrun(self):
        """A prefix that can be continued without bound and passes a place where another token of the kind can start."""
        first = self.first()
        lp = self.loops()
        # states from which a loop can be reached
        live = set(lp)
        grew = True
        while grew:
            grew = False
            for s in self.states:
                if s not in live and any(t in live for d in self.edges(s).values() for t in d):
                    live.add(s)
                    grew = True
        start = (self.start, 0)
        seen, todo = {start: ''}, [start]
        while todo:
            s, k = cur = todo.pop(0)
            w = seen[cur]
            if k == 2 and s in live:
                return w
            for ch, d in self.edges(s).items():
                k2 = 2 if k == 2 or (k == 1 and ch in first) else 1 if ch in SEP else 0
                for t in d:
                    if (t, k2) not in seen:
                        seen[(t, k2)] = w + ch
                        todo.append((t, k2))
        return None


def expression(ctx, res):
    res.rule('no loop of the token expression can consume a text in more than one way, and no alternative can run past later starting points of itself before it fails')
    p = parser(ctx)
    w = p.where()
    if p.error:
        res.unknown(p.error)
        return
    t = p.tok
    stripped = p.I.subject is not None and p.I.subject[0] == 'call' and p.I.subject[1] in ('strip', 'rstrip')
    if t.skips and not stripped:
        res.bad('BLANKS', 'the token expression starts with a run of white space: at the end of the text the run is scanned again from each of its positions', w)
    else:
        res.ok()
    # every character that is no white space starts a token, so that no position is tried in vain
    try:
        covered = set()
        for a in t.alts:
            l = Lang([a.core], t.flags)
            if a.follow >= ALLF:
                covered |= {c for c in ALPHA if l.accepts(l.next(l.init(), c))}
        gaps = [c for c in ALPHA if not c.isspace() and c not in covered]
        for a in t.alts:
            res.count('token alternatives')
            m = Matcher(a.core, t.flags)
            r = m.repeated()
            if r:
                res.bad(f'AMBIGUOUS:{a.group}', f'the time to match a {a.group} token grows {r[0]} for texts that repeat {r[1]!r}', w)
            else:
                res.ok()
            wsfirst = {c for c in m.first() if c.isspace()}
            if wsfirst and m.loops():
                res.bad(f'BLANKS:{a.group}', f'the {a.group} token can start with white space and run on: it is tried from every position of a run of white space', w)
            o = m.overrun()
            if o is None:
                res.ok()
            else:
                res.bad(f'RESCAN:{a.group}', f'a {a.group} token without an end is scanned again from every later starting point, e.g. after {o!r}', w)
        if gaps:
            res.unknown(f'characters that start no token: {"".join(gaps)[:20]!r}')
        else:
            res.ok()
    except Unsupported as e:
        res.unknown(f'token expression: {e}')


# ---------------------------------------------------------------- loops
CONSUME = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'sum', 'min', 'max', 'any', 'all', 'dict', 'deepcopy', 'copy', 'repr', 'str', 'join', 'Counter', 'deque'}
SCALAR = {'len', 'int', 'float', 'bool', 'isinstance', 'type', 'ord', 'chr', 'abs', 'round', 'hasattr', 'id', 'hash', 'callable', 'range'}
WRAP = {'enumerate', 'zip', 'iter', 'reversed', 'map', 'filter', 'islice', 'chain'}
LIST_SCAN = {'index', 'count', 'copy', 'remove', 'sort', 'reverse'}
TEXT_SCAN = {'replace', 'split', 'rsplit', 'splitlines', 'strip', 'lstrip', 'rstrip', 'encode', 'lower', 'upper', 'partition', 'rpartition', 'count', 'translate', 'expandtabs'}
GROW = {'append', 'extend', 'insert', 'add', 'update', 'appendleft'}


class Src:
    """Where a value comes from: how many loops enclose the point where its extent is fixed; None for bounded values."""
    def __init__(self, level, kind='any', key=None):
        self.level, self.kind, self.key = level, kind, key


NOTHING = Src(None)


def merge(xs):
    xs = [x for x in xs if x.level is not None]
    if not xs:
        return NOTHING
    return min(xs, key=lambda x: x.level)


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Cost:
    """Linear operations inside loops, one function at a time."""
    def __init__(self, ctx, fi, text=False, unbounded=None):
        self.ctx, self.fi = ctx, fi
        self.unbounded = unbounded    # parameters that some caller gives something of unbounded extent; None: all
        self.text = text              # the parser: texts count as input as well
        self.env = {}
        self.loops = []               # enclosing loops over something of unbounded extent: AST nodes
        self.found = []               # (node, text)
        self.linear = set()           # parameters scanned
        self.calls = {}               # repo functions called -> parameters that receive something of unbounded extent
        self.ops = 0
        self.nloops = 0
        self.branch = 0               # conditions around the current statement within the innermost loop

    # -- what is linear in what
    def scan(self, src, node, what, need_growth=False):
        self.ops += 1
        if src.level is None:
            return
        if src.key in self.params and src.level == 0:
            self.linear.add(src.key)
        if len(self.loops) > src.level:
            if src.key is not None and src.key not in self.params and '.' not in (src.key or '') and not self.grown(src):
                if need_growth:
                    return
            self.found.append((node, what))

    def grown(self, src):
        if src.key is None:
            return True
        for l in self.loops[src.level:]:
            for n in ast.walk(l):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW and ast.unparse(n.func.value) == src.key:
                    return True
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if any(ast.unparse(t) == src.key for t in ts):
                        return True
        return False

    def moved(self, index):
        """The innermost loop around here that moves an index on."""
        names = {n.id for n in ast.walk(index) if isinstance(n, ast.Name)}
        for k in range(len(self.loops), 0, -1):
            l = self.loops[k - 1]
            if isinstance(l, ast.For) and any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(l.target)):
                return k
            if isinstance(l, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) \
                    and any(isinstance(n, ast.Name) and n.id in names for g in l.generators for n in ast.walk(g.target)):
                return k
            if isinstance(l, ast.While) and any(isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in names and isinstance(n.op, (ast.Add, ast.Sub))
                                                and isinstance(n.value, ast.Constant) and n.value.value for n in ast.walk(l)):
                return k
        return 0

    # -- functions
    def run(self):
        a = self.fi.node.args
        ps = [x for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.params = set()
        for i, x in enumerate(ps):
            if i == 0 and self.fi.kind in ('method', 'classmethod'):
                self.env[x.arg] = NOTHING
                continue
            ann = ast.unparse(x.annotation) if x.annotation is not None else ''
            if not self.text and ann and not any(k in ann.lower() for k in ('list', 'dict', 'sequence', 'iter', 'any', 'tuple')):
                self.env[x.arg] = NOTHING
                continue
            if self.unbounded is not None and x.arg not in self.unbounded:
                self.env[x.arg] = NOTHING
                continue
            self.params.add(x.arg)
            self.env[x.arg] = Src(0, 'text' if self.text else 'any', x.arg)
        if isinstance(self.fi.node, ast.Lambda):
            self.expr(self.fi.node.body)
        else:
            self.block(self.fi.node.body)
        return self

    def block(self, body):
        for s in body:
            self.stmt(s)

    def dead(self, test):
        """Tests of module level constants that are false."""
        if isinstance(test, ast.Name) and test.id not in self.env:
            r = self.ctx.prog.lookup(self.fi.module, test.id)
            return r is not None and r[0] == 'expr' and isinstance(r[2], ast.Constant) and not r[2].value
        return False

    def stmt(self, s):
        if isinstance(s, (ast.For, ast.AsyncFor)):
            src = self.iterate(s.iter)
            self.nloops += 1
            if src.level is None:
                self.bind(s.target, NOTHING)
                self.block(s.body)
            else:
                self.loops.append(s)
                self.bind(s.target, Src(len(self.loops), 'any'))
                self.twice(s.body)
                self.loops.pop()
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.nloops += 1
            self.loops.append(s)
            self.expr(s.test)
            self.twice(s.body)
            self.loops.pop()
            self.block(s.orelse)
        elif isinstance(s, ast.If):
            if self.dead(s.test):
                self.block(s.orelse)
                return
            self.expr(s.test)
            self.branch += 1
            before = dict(self.env)
            self.block(s.body)
            after, self.env = self.env, before
            self.block(s.orelse)
            self.join(after if not leaves(s.body) else {})
            self.branch -= 1
        elif isinstance(s, ast.Assign):
            v = self.expr(s.value)
            for t in s.targets:
                self.assign(t, s.value, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, s.value, self.expr(s.value))
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value)
            self.expr(s.target)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Match):
            self.bind_pattern(s, self.expr(s.subject))
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            return
        else:
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.expr(e)

    def join(self, other):
        """After two branches a name stands for what either of them left, whichever lasts longer."""
        for n, b in other.items():
            a = self.env.get(n)
            if a is None or a.level is None or b.level is not None and b.level < a.level:
                self.env[n] = b

    def bind_pattern(self, s, v):
        for c in s.cases:
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    if isinstance(n, ast.MatchStar):
                        self.scan(v, s, 'the rest of a list is copied')
                    self.env[n.name] = v
            if c.guard is not None:
                self.expr(c.guard)
            self.branch += 1
            self.block(c.body)
            self.branch -= 1

    def twice(self, body):
        n, b = len(self.found), self.branch
        self.branch = 0
        self.block(body)
        del self.found[n:]
        self.block(body)
        self.branch = b

    def assign(self, t, value, v):
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) and len(t.elts) == len(value.elts) \
                and not any(isinstance(x, ast.Starred) for x in t.elts + value.elts):
            vs = [self.expr(x) for x in value.elts]
            for a, b, c in zip(t.elts, value.elts, vs):
                self.assign(a, b, c)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                self.scan(v, t, 'the rest of a list is copied')
            for x in t.elts:
                self.bind(x, v)
            return
        if isinstance(t, ast.Name):
            old = self.env.get(t.id, NOTHING)
            self.assign_name(t, value, v)
            new = self.env[t.id]
            if self.branch and self.loops and old.level is not None and old.key == t.id and (new.level is None or new.level > old.level):
                # set on some paths only: what was there before the loop is still possible
                self.env[t.id] = old
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.expr(t)

    def assign_name(self, t, value, v):
        if isinstance(t, ast.Name):
            if self.container(value):
                # a new collection: its extent is fixed by the loops it grows in
                self.env[t.id] = Src(len(self.loops), self.container(value), t.id)
            elif v.level is None:
                self.env[t.id] = NOTHING
            elif isinstance(value, (ast.Name, ast.Attribute)):
                self.env[t.id] = v
            else:
                self.env[t.id] = Src(v.level, v.kind, v.key)

    @staticmethod
    def container(e):
        if isinstance(e, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(e, (ast.Dict, ast.DictComp, ast.Set, ast.SetComp)):
            return 'hash'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'dict', 'set', 'frozenset', 'defaultdict', 'OrderedDict', 'Counter', 'deque'):
            return 'list' if e.func.id in ('list', 'deque') else 'hash'
        return None

    def bind(self, t, v):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                self.env[n.id] = v

    # -- expressions
    def iterate(self, e):
        v = self.expr(e)
        if v.level is not None:
            self.scan(v, e, f'{ast.unparse(e)[:60]} is gone through')
        return v

    def attr_kind(self, name):
        ks = set()
        for c in self.ctx.prog.all_classes():
            f = c.field(name)
            if f is not None:
                ks |= {m[0] for m in P.members(self.ctx.prog.field_type(c, name))}
        return ks

    def expr(self, e):
        if e is None or isinstance(e, ast.Constant):
            return NOTHING
        if isinstance(e, ast.Name):
            return self.env.get(e.id, NOTHING)
        if isinstance(e, ast.Attribute):
            b = self.expr(e.value)
            ks = self.attr_kind(e.attr)
            if isinstance(e.value, ast.Name) and b.level is None and ks & {'list', 'dict'}:
                key = ast.unparse(e)
                src = Src(0, 'list' if 'list' in ks and 'dict' not in ks else 'hash', key)
                if self.loops and self.grown(src):
                    return src
                return NOTHING
            return b
        if isinstance(e, ast.Subscript):
            b = self.expr(e.value)
            if isinstance(e.slice, ast.Slice):
                for x in (e.slice.lower, e.slice.upper, e.slice.step):
                    self.expr(x)
                if e.slice.lower is None or e.slice.upper is None:
                    small = e.slice.lower is None and isinstance(e.slice.upper, ast.Constant) and (e.slice.upper.value or 0) >= 0 \
                        or e.slice.upper is None and isinstance(e.slice.lower, ast.UnaryOp)
                    if not small:
                        self.scan(b, e, f'{ast.unparse(e)[:60]} is copied')
                return b
            self.expr(e.slice)
            n = self.moved(e.slice)
            if b.level is not None and n > b.level:
                return Src(n, 'any')            # another element on every pass
            return b
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved, depth = dict(self.env), len(self.loops)
            src = NOTHING
            for i, g in enumerate(e.generators):
                v = self.iterate(g.iter)
                if i == 0:
                    src = v
                if v.level is not None:
                    self.loops.append(e)
                    self.bind(g.target, Src(len(self.loops)))
                else:
                    self.bind(g.target, NOTHING)
                for c in g.ifs:
                    self.expr(c)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x)
            del self.loops[depth:]
            self.env = saved
            return Src(src.level, 'hash' if isinstance(e, (ast.SetComp, ast.DictComp)) else 'list') if src.level is not None else NOTHING
        if isinstance(e, ast.Compare):
            l = self.expr(e.left)
            for op, c in zip(e.ops, e.comparators):
                v = self.expr(c)
                if isinstance(op, (ast.In, ast.NotIn)) and v.kind != 'hash':
                    self.scan(v, e, f'{ast.unparse(c)[:60]} is searched')
            return NOTHING
        if isinstance(e, ast.BinOp):
            a, b = self.expr(e.left), self.expr(e.right)
            if isinstance(e.op, ast.Add):
                for x, y, ya in ((a, e.right, e.left), (b, e.left, e.right)):
                    if isinstance(y, (ast.List, ast.ListComp)) or x.kind == 'list':
                        self.scan(x, e, f'{ast.unparse(ya)[:60]} is copied to add to it')
            if isinstance(e.op, ast.Mod) and isinstance(e.right, ast.Tuple):
                for x in e.right.elts:
                    v = self.expr(x)
                    if v.kind == 'list':
                        self.scan(v, e, f'{ast.unparse(x)[:60]} is formatted')
            return merge([a, b])
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            vs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.expr(x.value)
                    self.scan(v, e, f'{ast.unparse(x.value)[:60]} is copied')
                    vs.append(v)
                else:
                    vs.append(self.expr(x))
            return merge(vs)
        if isinstance(e, ast.Dict):
            return merge([self.expr(x) for x in e.keys + e.values if x is not None])
        if isinstance(e, ast.IfExp):
            if self.dead(e.test):
                return self.expr(e.orelse)
            self.expr(e.test)
            return merge([self.expr(e.body), self.expr(e.orelse)])
        if isinstance(e, ast.BoolOp):
            return merge([self.expr(x) for x in e.values])
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value)
            self.bind(e.target, v)
            return v
        if isinstance(e, ast.JoinedStr):
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    v = self.expr(x.value)
                    if v.kind == 'list':
                        self.scan(v, e, f'{ast.unparse(x.value)[:60]} is formatted')
            return NOTHING
        if isinstance(e, ast.Lambda):
            return NOTHING
        if isinstance(e, ast.Call):
            return self.call(e)
        r = [self.expr(x) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
        return merge(r)

    def call(self, e):
        args = [self.expr(a.value if isinstance(a, ast.Starred) else a) for a in e.args] + [self.expr(k.value) for k in e.keywords]
        f = e.func
        owner = self.fi.cls
        if isinstance(f, ast.Name):
            if f.id in SCALAR and f.id not in self.env:
                return NOTHING
            if f.id in WRAP:
                return merge(args)
            if f.id == 'next':
                return merge(args)
            r = self.ctx.prog.lookup(self.fi.module, f.id)
            if r is not None and r[0] == 'func':
                return self.user(r[1], e, args)
            if f.id in CONSUME:
                for a in args:
                    self.scan(a, e, f'{ast.unparse(e)[:60]} goes through it')
                return merge(args)
            if r is not None and r[0] == 'class':
                return NOTHING
            return merge(args)
        if isinstance(f, ast.Attribute):
            b = self.expr(f.value)
            n = f.attr
            if n == 'from_sexpr':
                for a in args:
                    self.scan(a, e, f'{ast.unparse(e)[:60]} loads it')
                return NOTHING
            if owner is not None and isinstance(f.value, ast.Name):
                m = owner.find_method(n)
                if m is not None and n != 'from_sexpr':
                    return self.user(m, e, args)
            if n in ('deepcopy', 'copy') and isinstance(f.value, ast.Name) and f.value.id == 'copy':
                for a in args:
                    self.scan(a, e, f'{ast.unparse(e)[:60]} copies it')
                return merge(args)
            if n in GROW:
                if n == 'extend' and args:
                    self.scan(args[0], e, f'{ast.unparse(e)[:60]} goes through it')
                if n == 'insert' and self.text and b.kind == 'list' and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value == 0:
                    self.scan(b, e, f'{ast.unparse(e)[:60]} moves all its elements')
                return NOTHING
            if n == 'pop':
                if self.text and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value == 0:
                    self.scan(b, e, f'{ast.unparse(e)[:60]} moves all its elements')
                return Src(len(self.loops)) if b.level is not None and self.loops else b
            if n in LIST_SCAN and b.kind != 'hash' and (b.kind == 'list' or not self.text):
                self.scan(b, e, f'{ast.unparse(e)[:60]} goes through it')
                return b
            if n in TEXT_SCAN and self.text:
                self.scan(b, e, f'{ast.unparse(e)[:60]} goes through it')
                return b
            if n == 'join':
                for a in args:
                    self.scan(a, e, f'{ast.unparse(e)[:60]} goes through it')
                return merge(args)
            return merge([b] + args)
        self.expr(f)
        return merge(args)

    def user(self, fi, e, args):
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if fi.kind in ('method', 'classmethod') and ps:
            ps = ps[1:]
        names = set(ps) | {x.arg for x in a.kwonlyargs}
        lin = self.ctx_linear(fi)
        got = self.calls.setdefault(fi, set())
        pairs = []
        for i, x in enumerate(e.args):
            if isinstance(x, ast.Starred):
                pairs += [(p, args[i]) for p in ps[i:]]
                break
            if i < len(ps):
                pairs.append((ps[i], args[i]))
        for k, v in zip(e.keywords, args[len(e.args):]):
            pairs += [(p, v) for p in ([k.arg] if k.arg is not None else sorted(names))]
        if a.vararg is not None or a.kwarg is not None:
            for v in args:
                if v.level is not None:
                    got |= {x.arg for x in (a.vararg, a.kwarg) if x is not None}
        for p, v in pairs:
            if v.level is None:
                continue
            got.add(p)
            if p in lin:
                self.scan(v, e, f'{fi.name} goes through its argument')
        return merge(args)

    def ctx_linear(self, fi):
        memo = self.ctx.__dict__.setdefault('_linear', {})
        key = id(fi.node)
        if key not in memo:
            memo[key] = set()
            c = Cost(self.ctx, fi, self.text).run()
            memo[key] = c.linear
        return memo[key]


def loaders(ctx):
    p = parser(ctx)
    yield p.func, True
    for c in ctx.prog.all_classes():
        for n, f in c.methods.items():
            if n.startswith('from_'):
                yield f, False


def work(ctx, res):
    res.rule('inside a loop over its input, neither the parser nor a loader goes through, copies or searches the whole input or the list it builds')
    todo = [(fi, text, None) for fi, text in loaders(ctx)]
    given, done = {}, {}
    while todo:
        fi, text, params = todo.pop(0)
        key = id(fi.node)
        if key in done:
            old = given[key]
            if old is None or params is not None and params <= old:
                continue
            params = None if params is None else params | old
        given[key] = params
        try:
            c = Cost(ctx, fi, text, params).run()
        except RecursionError:
            res.unknown(f'{fi.qualname}: nesting')
            done[key] = None
            continue
        done[key] = (fi, c)
        todo.extend((x, text, frozenset(p)) for x, p in c.calls.items())
    for fi, c in (x for x in done.values() if x is not None):
        res.count('functions')
        res.count('loops', c.nloops)
        res.count('operations', c.ops)
        for node, what in c.found:
            res.bad(f'WORK:{fi.qualname}:{what[:60]}', f'{fi.qualname}: inside a loop over the input, {what}: the time grows with the square of the length',
                    f'{fi.module.path}:{getattr(node, "lineno", 0)} {fi.qualname}')
        if not c.found:
            res.ok()
