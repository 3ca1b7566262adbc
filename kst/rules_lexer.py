"""C13: the parser.  Language inclusion for the token expression, transfer functions of the parser loop."""
import itertools
import math
import re
from .absint import Cell
from .lexer import *
from .values import *

LINE_WS = {' ', '\t', '\n', '\r'}


def accepts(l, word):
    s = l.init()
    for ch in word:
        s = l.next(s, ch)
        if not s:
            return False
    return l.accepts(s)


class Parser:
    """Everything known statically about parse_sexp."""
    def __init__(self, prog):
        self.func = parse_function(prog)
        self.I = LexInterp(prog)
        p = [a.arg for a in self.func.node.args.args]
        self.arg = ('param', p[0]) if p else None
        self.value, self.st = self.I.run(self.func, [('param', x) for x in p])
        self.tok = None
        self.error = None
        self.roles = {}
        if self.I.captured is None:
            self.error = 'token loop not recognised'
            return
        try:
            self.tok = Tokeniser(self.I.pattern, self.I.flags)
        except Unsupported as e:
            self.error = f'token expression: {e}'
            return
        self.I.skips = self.tok.skips
        self.I.names = [self.tok.names[k] for k in sorted(self.tok.names)]
        try:
            langs = [(g, self.tok.lang(g)) for g in self.tok.order()]
            for role, words in (('open', ['(']), ('close', [')']), ('num', ['12', '1.5']), ('quoted', ['"a"']), ('word', ['abc'])):
                for g, l in langs:
                    if any(accepts(l, w) for w in words):
                        self.roles[role] = g
                        break
        except Unsupported as e:
            self.error = f'token expression: {e}'

    def where(self):
        return f'{self.func.module.path}:{self.func.node.lineno} parse_sexp'


def parser(ctx):
    if not hasattr(ctx, '_parser'):
        ctx._parser = Parser(ctx.prog)
    return ctx._parser


def num_follow(ctx):
    """Characters accepted directly after a number, or None when unknown."""
    p = parser(ctx)
    if p.error or 'num' not in p.roles:
        return None
    fs = [a.follow for a in p.tok.group(p.roles['num'])]
    return set.intersection(*[set(f) for f in fs]) if fs else None


def quoted_follow(ctx):
    p = parser(ctx)
    if p.error or 'quoted' not in p.roles:
        return None
    fs = [a.follow for a in p.tok.group(p.roles['quoted'])]
    return set.intersection(*[set(f) for f in fs]) if fs else None


# ------------------------------------------------------------------ escaping
def chain(v, base):
    """v as a chain of literal replacements applied to base: [(old, new)...], or None."""
    if v == base or v == ('str', (('hole', base),)) or (v[0] == 'call' and v[1] == 'str' and v[2] == (base,)):
        return []
    if v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'hole':
        return chain(v[1][0][1], base)
    if v[0] == 'call' and v[1] == 'dequote':
        c = chain(v[2][0], base)
        return None if c is None else c + [('"', '\\"')]
    if v[0] == 'call' and v[1] == 'replace' and len(v[2]) == 3 and is_strconst(v[2][1]) and is_strconst(v[2][2]):
        c = chain(v[2][0], base)
        return None if c is None else c + [(v[2][1][2], v[2][2][2])]
    return None


CHANGES = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'swapcase', 'casefold', 'expandtabs',
           'removeprefix', 'removesuffix', 'zfill', 'slice'}


def changes_text(v, base):
    """The value is definitely a different text for some inputs (known text-changing operation on the base)."""
    if is_const(v):
        return True
    if v[0] == 'slice' and contains(v[1], lambda x: x == base):
        return True
    if v[0] == 'call' and v[1] in CHANGES and contains(v[2], lambda x: x == base):
        return True
    if v[0] == 'str':
        if all(p[0] == 'lit' or p == ('hole', base) for p in v[1]):
            return sum(p[0] == 'hole' for p in v[1]) != 1 or any(p[0] == 'lit' and p[1] for p in v[1])
        return len(v[1]) == 1 and v[1][0][0] == 'hole' and changes_text(v[1][0][1], base)
    if v[0] == 'call' and v[1] == 'replace' and len(v[2]) == 4 and contains(v[2][0], lambda x: x == base):
        return True          # limited number of replacements
    if v[0] == 'call' and v[1] in ('replace', 'dequote', 'str'):
        return changes_text(v[2][0], base)
    return False


def leaves(v):
    """The alternatives of a conditional value."""
    if v[0] == 'ite':
        return leaves(v[2]) + leaves(v[3])
    return [v]


class NotText(Exception):
    pass


class Raises(NotText):
    pass


class TextFn:
    """The text a value term denotes, as a function of the text its base denotes."""
    def __init__(self, v, base):
        self.v, self.base = v, base
        self.alpha = set()
        for x in walk(v):
            if is_const(x) and isinstance(x[2], str):
                self.alpha |= set(x[2])
            if is_const(x) and isinstance(x[2], int) and not isinstance(x[2], bool) and 32 <= x[2] < 0x110000:
                self.alpha.add(chr(x[2]))
            if x[0] == 'lit' and isinstance(x[1], str):
                self.alpha |= set(x[1])
        try:
            self('a"\\ b')          # every kind of term is known
        except Raises:
            pass

    def __call__(self, w):
        r = self.text(self.v, w, {})
        if not isinstance(r, str):
            raise NotText('no text')
        return r

    def text(self, v, w, env):
        if v == self.base:
            return w
        k = v[0]
        if k == 'const':
            return v[2]
        if k == 'str':
            return self.parts(v[1], w, env)
        if k == 'elem' and (v[1], v[2]) in env:
            return env[(v[1], v[2])]
        if k == 'ite':
            return self.text(v[2] if self.test(v[1], w, env) else v[3], w, env)
        if k == 'slice':
            lo, hi = self.text(v[2], w, env), self.text(v[3], w, env)
            return self.text(v[1], w, env)[lo:hi]
        if k == 'idx':
            b, i = self.text(v[1], w, env), self.text(v[2], w, env)
            try:
                return b[i]
            except Exception:
                raise Raises('index')
        if k == 'map' and all(e[0] == 'ent' for e in v[1]):
            return {self.text(e[1], w, env): self.text(e[2], w, env) for e in v[1]}
        if k == 'seq':
            out = []
            for q in v[2]:
                self.items(q, w, env, out)
            return out
        if k == 'call' and not v[3]:
            a = [self.text(x, w, env) for x in v[2]]
            n = v[1]
            try:
                if n == 'str' and len(a) == 1 and isinstance(a[0], str):
                    return a[0]
                if n == 'dequote':
                    return a[0].replace('"', '\\"')
                if n in ('replace', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'split', 'rsplit', 'splitlines', 'startswith', 'endswith', 'removeprefix', 'removesuffix',
                         'translate', 'expandtabs', 'find', 'count', 'partition', 'rpartition', 'title', 'capitalize', 'casefold', 'swapcase', 'isprintable', 'isascii', 'isalnum', 'isspace', 'isdigit', 'isalpha', 'isupper', 'islower') and isinstance(a[0], str):
                    return getattr(a[0], n)(*a[1:])
                if n == 'len':
                    return len(a[0])
                if n == 'add':
                    return a[0] + a[1]
                if n in ('list', 'tuple') and isinstance(a[0], (str, list)):
                    return list(a[0])
                if n == 're.sub' and len(a) in (3, 4) and all(isinstance(x, str) for x in a[:3]):
                    return re.sub(*a[:4])
                if n == 're.escape':
                    return re.escape(a[0])
            except NotText:
                raise
            except Exception:
                raise NotText(n)
        if k in ('in', 'eq', 'not', 'and', 'or', 'truthy', 'isnone', 'lt', 'le'):
            return self.test(v, w, env)
        raise NotText(k)

    def test(self, c, w, env):
        k = c[0]
        if k == 'const':
            return bool(c[2])
        if k == 'not':
            return not self.test(c[1], w, env)
        if k in ('and', 'or'):
            return (all if k == 'and' else any)(self.test(x, w, env) for x in c[1])
        if k == 'truthy':
            return bool(self.text(c[1], w, env))
        if k == 'isnone':
            return self.text(c[1], w, env) is None
        if k in ('in', 'eq', 'lt', 'le'):
            a, b = self.text(c[1], w, env), self.text(c[2], w, env)
            try:
                return a in b if k == 'in' else a == b if k == 'eq' else a < b if k == 'lt' else a <= b
            except TypeError:
                raise NotText(k)
        if k == 'call':
            return bool(self.text(c, w, env))
        raise NotText(k)

    def items(self, q, w, env, out):
        if q[0] == 'item':
            out.append(self.text(q[1], w, env))
        elif q[0] == 'spread':
            out.extend(self.text(q[1], w, env))
        elif q[0] == 'alt':
            for x in (q[2] if self.test(q[1], w, env) else q[3]):
                self.items(x, w, env, out)
        elif q[0] == 'loop':
            for ch in self.text(q[2], w, env):
                for x in q[3]:
                    self.items(x, w, {**env, (q[1], q[2]): ch}, out)
        else:
            raise NotText(q[0])

    def parts(self, ps, w, env):
        out = ''
        for q in ps:
            if q[0] == 'lit':
                out += q[1]
            elif q[0] == 'hole':
                x = self.text(q[1], w, env)
                if not isinstance(x, str):
                    raise NotText('hole')
                out += x
            elif q[0] == 'alt':
                out += self.parts(q[2] if self.test(q[1], w, env) else q[3], w, env)
            elif q[0] == 'loop':
                for ch in self.text(q[2], w, env):
                    out += self.parts(q[3], w, {**env, (q[1], q[2]): ch})
            elif q[0] == 'join':
                xs = []
                for y in q[2]:
                    self.items(y, w, env, xs)
                out += self.parts(q[1], w, env).join(xs)
            else:
                raise NotText(q[0])
        return out


def text_fn(v, base):
    try:
        return TextFn(v, base)
    except NotText:
        return None


def words(*fns):
    alpha = {'a', '\\', '"'}
    for f in fns:
        alpha |= f.alpha
    first = [c for c in ('"', '\\', 'a', ' ', '\n', 'A', '\xe9') if c in alpha or c in ' \nA\xe9']
    alpha = first + sorted(alpha - set(first))
    for n in range(0, 6):
        k = max(4, min(len(alpha), int(60000 ** (1 / n)) if n else 1))
        for w in itertools.product(alpha[:k], repeat=n):
            yield ''.join(w)


def escape_chain(ctx):
    """(the escaped text as a function or None, definite problem or None, where)."""
    if hasattr(ctx, '_esc'):
        return ctx._esc
    f = None
    for m in ctx.prog.modules.values():
        b = m.names.get('dequote')
        if b and b[0] == 'func':
            f = b[1]
    if f is None:
        ctx._esc = (None, None, 'dequote')
        return ctx._esc
    I = Interp(ctx.prog)
    p = f.node.args.args[0].arg
    I.param_types = {p: ('str',)}
    v, st = I.run(f, [('param', p)])
    where = f'{f.module.path}:{f.node.lineno} dequote'
    if st is None:
        ctx._esc = (None, 'always raises', where)
        return ctx._esc
    v = I.resolve(v, st)
    fn, prob = text_fn(v, ('param', p)), None
    if fn is None:
        for x in leaves(v):
            if changes_text(x, ('param', p)):
                prob = f'the text is changed: {show(x)[:80]}'
    ctx._esc = (fn, prob, where)
    return ctx._esc


def escaping(ctx, res, prop):
    try:
        escaping_(ctx, res, prop)
    except Raises:
        res.bad(f'{prop}:ESCAPE', 'the escaping helper or the unescaping raises for some texts', escape_chain(ctx)[2])
    except NotText as e:
        res.unknown(f'escaping: {e}')


def escaping_(ctx, res, prop):
    """The escaping helper protects quotes and is undone exactly by the parser."""
    res.rule('the escaping helper puts a backslash before every double quote; the parser removes exactly that')
    c, prob, where = escape_chain(ctx)
    if prob:
        res.bad(f'{prop}:ESCAPE', f'escaping helper: {prob}', where)
        return
    if c is None:
        res.unknown('escaping helper not recognised')
        return
    res.count('escaping helpers')
    bad = None
    for w in words(c):
        e = c(w)
        if any(ch == '"' and (i == 0 or e[i - 1] != '\\') for i, ch in enumerate(e)):
            bad = w
            break
    if bad is not None:
        res.bad(f'{prop}:ESCAPE', f'escaping helper leaves a quote unescaped in {bad!r}', where)
        return
    res.ok()
    u = unescape_chain(ctx)
    if u is None:
        res.unknown('unescaping not recognised')
        return
    for w in words(c, u):
        if u(c(w)) != w:
            res.bad(f'{prop}:UNESCAPE', f'text {w!r} comes back as {u(c(w))!r}', parser(ctx).where())
            return
    res.ok()
    p = parser(ctx)
    if p.error or 'quoted' not in p.roles:
        return
    # a text ending in a backslash: its escaped form followed by the closing quote must not read on
    e = c('a\\')
    try:
        if accepts(p.tok.lang(p.roles['quoted']), '"' + e + '" "'):
            res.bad(f'{prop}:TRAILING-BACKSLASH', 'a text ending in a backslash merges with a following quoted text that starts with a blank: the backslash is not escaped', where)
        else:
            res.ok()
    except Unsupported as x:
        res.unknown(str(x))


def unescape_chain(ctx):
    p = parser(ctx)
    if p.error or 'quoted' not in p.roles:
        return None
    v = appended(p, 'quoted')
    if v is None:
        return None
    return text_fn(v, ('slice', TEXT, const(1), const(-1)))


def list_roles(p):
    """(out variable, stack variable): the returned list and the other one."""
    _, _, lists, _ = p.I.captured
    if p.st is None or len(lists) != 2:
        return None
    v = p.I.resolve(p.value, p.st)
    ms = {x[1][3:] for x in walk(v) if x[0] == 'param' and x[1].startswith('$v:')}
    if len(ms) != 1:
        return None
    out = ms.pop()
    stack = next(n for n in lists if n != out)
    return out, stack


def run_step(p, role, empty=False):
    out, stack = list_roles(p)
    ids = {}

    def setup(st):
        o, s = st.env[out], st.env[stack]
        st.heap[o[1]] = Cell(('seq', 'list', (('spread', ('param', '$O')),)))
        if empty:
            st.heap[s[1]] = Cell(('seq', 'list', ()))
        else:
            pr = p.I.alloc(st, Cell(('seq', 'list', (('spread', ('param', '$P')),))))
            st.heap[s[1]] = Cell(('seq', 'list', (('spread', ('param', '$S')), ('item', pr))))
            ids['P'] = pr
        ids['O'], ids['S'] = o, s
    outs = p.I.step(p.roles[role], setup)
    return outs, ids


def unclear(parts):
    return contains(('seq', 'list', parts), lambda x: x[0] in ('top', 'phi', 'undef'))


def content(st, ref):
    c = st.heap.get(ref[1]) if ref[0] == 'ref' else None
    return c.v[2] if isinstance(c, Cell) and c.v[0] == 'seq' else None


def appended(p, role):
    """Value appended to the current list for one token (ite over paths), or None."""
    if p.error or role not in p.roles or list_roles(p) is None:
        return None
    outs, ids = run_step(p, role)
    outs = [o for o in outs if o.kind in ('fall', 'continue')]
    if len(outs) != 1:
        return None
    o = outs[0]
    c = content(o.st, ids['O'])
    if c is None or len(c) != 2 or c[0] != ('spread', ('param', '$O')) or c[1][0] != 'item':
        return None
    return o.st.heap[c[1][1][1]].v if c[1][1][0] == 'ref' and isinstance(o.st.heap.get(c[1][1][1]), Cell) else c[1][1]


# ------------------------------------------------------------------ the rule set
REF_NUM = r'-?[0-9]+(?:\.[0-9]+)?'
REF_FLOAT = r'[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?'
REF_QUOTED = r'"(?:[^"\\]|\\[^\\])*"'
BAD_QUOTED = r'"(?:[\s\S]*[^\\])?"[\s\S]*"'
REF_WORD = r'[^()\s"][^()\s]*'
BAD_WORD = r'[\s\S]*[() \t\n\r][\s\S]*'


def tokens(ctx, res):
    p = parser(ctx)
    w = p.where()
    if p.error:
        res.unknown(p.error)
        return
    res.count('token expressions')
    res.count('token alternatives', len(p.tok.alts))
    res.rule('language inclusion between the token alternatives and the lexical grammar of the format')
    if p.I.subject is not None and p.I.subject != p.arg:
        s = p.I.subject
        if s[0] == 'call' and s[1] in ('strip', 'lstrip', 'rstrip') and s[2] == (p.arg,):
            res.ok()
        elif s[0] == 'call' and s[1] == 'str' and s[2] == (p.arg,) or s == ('str', (('hole', p.arg),)):
            res.ok()
        else:
            fn = text_fn(s, p.arg)
            if fn is None:
                if changes_text(s, p.arg):
                    res.bad('C13:SUBJECT', f'the text is changed before it is tokenised: {show(s)[:80]}', w)
                else:
                    res.unknown(f'tokenised text: {show(s)[:60]}')
            else:
                try:
                    for x in words(fn):
                        t = f'(a "{x}")'
                        if '"' not in x.replace('\\"', '') and not x.endswith('\\') and fn(t).strip() != t:
                            res.bad('C13:SUBJECT', f'the text {t!r} is changed to {fn(t)!r} before it is tokenised', w)
                            break
                    else:
                        res.ok()
                except Raises:
                    res.bad('C13:SUBJECT', 'the preparation of the text can fail', w)
                except NotText:
                    res.unknown(f'tokenised text: {show(s)[:60]}')
    else:
        res.ok()
    try:
        _tokens(p, res, w)
    except Unsupported as e:
        res.unknown(f'token expression: {e}')


def _tokens(p, res, w):
    t = p.tok
    order = t.order()
    for role, what in (('open', 'opening parenthesis'), ('close', 'closing parenthesis'), ('num', 'number'), ('quoted', 'quoted text'), ('word', 'word')):
        if role not in p.roles:
            res.bad(f'C13:NO-{role.upper()}', f'no token for {what}', w)
            return
    # parentheses
    for role, ch in (('open', '('), ('close', ')')):
        g = p.roles[role]
        d = difference(t.lang(g), lang('\\' + ch))
        if d is not None:
            res.bad(f'C13:{role.upper()}', f'{ch!r} token also matches {d!r}', w)
        elif any(a.follow < ALLF for a in t.group(g)):
            res.bad(f'C13:{role.upper()}', f'{ch!r} is not recognised before every character', w)
        else:
            res.ok()
    if len(set(p.roles.values())) != 5:
        dup = [r for r in p.roles if list(p.roles.values()).count(p.roles[r]) > 1]
        res.bad('C13:KINDS', f'{" and ".join(sorted(dup))} are not told apart', w)
        return
    # numbers
    g = p.roles['num']
    full = [a for a in t.group(g) if {' ', ')'} <= set(a.follow)]
    ln = Lang([a.core for a in full], t.flags)
    d = difference(lang(REF_NUM), ln)
    if d is not None:
        res.bad('C13:NUM-MISSED', f'the number {d!r} is not read as a number', w)
    else:
        res.ok()
    d = difference(t.lang(g), lang(REF_FLOAT))
    if d is not None:
        res.bad('C13:NUM-WRONG', f'{d!r} is taken for a number', w)
    else:
        res.ok()
    fol = set().union(*[a.follow for a in t.group(g)])
    wrong = [c for c in fol if c != END and c not in '()' and not c.isspace()]
    if wrong:
        res.bad('C13:NUM-PREFIX', f'a word starting with digits is split (number accepted before {wrong[0]!r})', w)
    else:
        res.ok()
    if not LINE_WS <= fol:
        res.bad('C13:NUM-NEWLINE', 'an unquoted number directly followed by a line break or tab is returned as text', w)
    else:
        res.ok()
    # quoted
    g = p.roles['quoted']
    lq = t.lang(g)
    d = difference(lang(REF_QUOTED), lq)
    if d is not None:
        res.bad('C13:QUOTED-MISSED', f'the quoted text {d!r} is not recognised', w)
    else:
        res.ok()
    d = intersects(lq, lang(BAD_QUOTED))
    if d is not None:
        res.bad('C13:QUOTED-MERGED', f'{d!r} is taken for one quoted text', w)
    else:
        res.ok()
    f = set.intersection(*[set(a.follow) for a in t.group(g)])
    if not ({')'} | LINE_WS) <= f:
        miss = sorted(repr(c) for c in ({')'} | LINE_WS) - f)
        res.bad('C13:QUOTED-FOLLOW', f'quoted text is not recognised before {", ".join(miss)}', w)
    else:
        res.ok()
    # words
    g = p.roles['word']
    lw = t.lang(g)
    d = difference(lang(REF_WORD), lw)
    if d is not None:
        res.bad('C13:WORD-MISSED', f'the word {d!r} is not read as one token', w)
    else:
        res.ok()
    d = intersects(lw, lang(BAD_WORD))
    if d is not None:
        res.bad('C13:WORD-MERGED', f'{d!r} is taken for one word', w)
    else:
        res.ok()
    if any(a.lazy for a in t.group(g)):
        res.bad('C13:WORD-LAZY', 'words are cut off', w)
    else:
        res.ok()
    if order.index(p.roles['word']) < max(order.index(p.roles['num']), order.index(p.roles['quoted'])):
        res.bad('C13:ORDER', 'words take precedence over numbers or quoted text', w)
    else:
        res.ok()


def num_value(v, conds=()):
    """'ok' | 'bad: ...' | '?' for the value stored for a number token."""
    if v[0] == 'ite':
        a = num_value(v[2], conds + (tuple(v[1][1]) if v[1][0] == 'and' else (v[1],)))
        b = num_value(v[3], conds + (mk_not(v[1]),))
        for x in (a, b):
            if x.startswith('bad'):
                return x
        return 'ok' if a == b == 'ok' else '?'
    F = ('call', 'float', (TEXT,), ())
    if v == F:
        return 'ok'
    integral = [('truthy', ('call', 'is_integer', (F,), ())), ('call', 'is_integer', (F,), ()), mk_eq(F, ('call', 'int', (F,), ())),
                mk_eq(('call', 'int', (F,), ()), F), mk_eq(('call', 'mod', (F, const(1)), ()), const(0))]
    nodot = [mk_not(('in', const('.'), TEXT))]
    if v == ('call', 'int', (F,), ()):
        if any(c in integral or c in nodot for c in conds):
            return 'ok'
        if not conds:
            return 'bad: decimals are cut off'
        if any(mk_not(c) in integral for c in conds):
            return 'bad: decimals are cut off'
        if all((c[1] if c[0] == 'not' else c)[0] in ('lt', 'le') and not contains(c, lambda x: x[0] == 'call' and x[1] != 'float') for c in conds):
            return 'bad: decimals are cut off'
        return '?'
    if v == ('call', 'int', (TEXT,), ()):
        if any(c in nodot for c in conds):
            return 'ok'
        return '?'
    if v == TEXT:
        return '?' if conds else 'bad: the number stays text'
    if is_const(v):
        return 'bad: the number is replaced by a constant'
    if v[0] == 'call' and v[1] in ('round', 'abs', 'add', 'sub', 'mult', 'mul', 'div', 'neg', 'floor', 'ceil', 'trunc', 'math.floor', 'math.ceil', 'math.trunc', 'floordiv'):
        return f'bad: the value is changed: {show(v)[:60]}'
    return '?'


class NumFn(TextFn):
    """The value a term denotes for the text of a number."""
    def __init__(self, v, base):
        self.v, self.base = v, base

    def __call__(self, w):
        return self.text(self.v, w, {})

    def text(self, v, w, env):
        if v[0] == 'call' and not v[3] and v[1] in NUM_CALLS:
            a = [self.text(x, w, env) for x in v[2]]
            try:
                return NUM_CALLS[v[1]](*a)
            except Exception:
                raise NotText(v[1])
        return super().text(v, w, env)


NUM_CALLS = {'float': float, 'int': int, 'is_integer': lambda x: float(x).is_integer(), 'round': round, 'abs': abs, 'add': lambda a, b: a + b, 'sub': lambda a, b: a - b,
             'mul': lambda a, b: a * b if not isinstance(a, str) and not isinstance(b, str) else None, 'mult': lambda a, b: a * b if not isinstance(a, str) and not isinstance(b, str) else None,
             'div': lambda a, b: a / b, 'mod': lambda a, b: a % b, 'floordiv': lambda a, b: a // b, 'neg': lambda a: -a, 'min': min, 'max': max, 'pow': lambda a, b: a ** b if abs(b) < 100 else None, 'math.floor': math.floor,
             'math.ceil': math.ceil, 'math.trunc': math.trunc, 'bool': bool}


def num_witness(v):
    """A number text for which the term denotes something else than its value."""
    f = NumFn(v, TEXT)
    ws = ['0', '7', '-1', '10', '007', '255', '100000', '0.5', '-0.25', '1.0', '2.50', '-0.0', '123456.789', '0.0001', '12345678901234567890', '0.1234567890123456', '99999.999999']
    for x in walk(v):
        if is_const(x) and isinstance(x[2], (int, float)) and not isinstance(x[2], bool) and abs(x[2]) < 1e15:
            n = int(x[2])
            if 1e-14 < abs(x[2]) < 1:           # tolerances
                ws += [f'{1 + abs(x[2]) / 2:.15f}', f'{abs(x[2]) / 2:.18f}', f'{7 - abs(x[2]) / 2:.15f}']
            for m in (n - 1, n, n + 1):
                ws += [str(m), f'{m}.5', str(-m)]
                if 0 < m < 60:
                    ws += ['9' * m, '0.' + '1' * m, '1' * m + '.5']
    for w in ws:
        try:
            r = f(w)
        except NotText:
            continue
        if isinstance(r, str) or r is None or r != (float(w) if '.' in w else int(w)):
            return w, r
    return None


def num_check(v):
    r = num_value(v)
    if not r.startswith('bad'):
        x = num_witness(v)
        if x is not None:
            return f'bad: {x[0]} is read as {x[1]!r}'
    return r


def by_length(c, sv, n):
    """Truth of a condition on the list sv when it has n elements (None: unknown)."""
    lst = (sv, ('seq', 'list', (('spread', sv),)))
    k = c[0]
    if k == 'not':
        x = by_length(c[1], sv, n)
        return None if x is None else not x
    if k in ('and', 'or'):
        vs = [by_length(x, sv, n) for x in c[1]]
        if k == 'and':
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if k == 'truthy' and c[1] in lst:
        return n > 0
    if k == 'const':
        return bool(c[2])

    def num(x):
        if x[0] == 'call' and x[1] == 'len' and x[2] and x[2][0] in lst:
            return n
        if is_const(x) and isinstance(x[2], int) and not isinstance(x[2], bool):
            return x[2]
        return None
    if k == 'truthy':
        x = num(c[1])
        return None if x is None else x != 0
    if k == 'eq' and (c[1] in lst or c[2] in lst):
        o = c[2] if c[1] in lst else c[1]
        return n == 0 if o == ('seq', 'list', ()) else None
    if k in ('eq', 'lt', 'le') and len(c) == 3:
        a, b = num(c[1]), num(c[2])
        if a is None or b is None:
            return None
        return a == b if k == 'eq' else a < b if k == 'lt' else a <= b
    return None


def parser_loop(ctx, res):
    p = parser(ctx)
    if p.error:
        return
    w = p.where()
    res.rule('transfer function of the parser loop for each kind of token, over an arbitrary nesting state')
    roles = list_roles(p)
    if roles is None:
        res.unknown('nesting state of the parser not recognised')
        return
    out, stack = roles
    for role in ('open', 'close', 'num', 'quoted', 'word'):
        if role not in p.roles:
            continue
        res.count('token kinds')
        outs, ids = run_step(p, role)
        outs = [o for o in outs if o.kind in ('fall', 'continue', 'break', 'return')]
        if any(o.kind in ('break', 'return') for o in outs):
            res.bad(f'C13:STEP-{role}', f'reading stops at a {role} token', w)
            continue
        if not outs:
            res.bad(f'C13:STEP-{role}', f'every {role} token is rejected', w)
            continue
        if len(outs) != 1:
            acc = outs[-1].st
            for o in reversed(outs[:-1]):
                acc = p.I.merge(o.st, acc)
            st = acc
        else:
            st = outs[0].st
        no, ns = st.env.get(out), st.env.get(stack)
        co = content(st, no) if no else None
        cs = content(st, ns) if ns else None
        if role == 'close' and no and contains(no, lambda x: x == ('param', '$S')) and no[0] == 'idx':
            res.bad('C13:STEP-close', 'a closing parenthesis continues a list other than the enclosing one', w)
            continue
        if co is None or cs is None or unclear(co) or unclear(cs):
            res.unknown(f'effect of a {role} token')
            continue
        if role == 'open':
            good = ns not in (ids['O'], ids['P']) and len(cs) == 3 and cs[:2] == (('spread', ('param', '$S')), ('item', ids['P'])) and cs[2][0] == 'item' and \
                (cs[2][1] == ids['O'] or content(st, cs[2][1]) == (('spread', ('param', '$O')),)) and no not in (ns, cs[2][1]) and \
                no not in (ids['O'], ids['P'], ids['S']) and co == () and content(st, ids['O']) == (('spread', ('param', '$O')),)
            if good:
                res.ok()
            else:
                res.bad('C13:STEP-open', 'an opening parenthesis does not start a new list remembering the enclosing one', w)
            continue
        if role == 'close':
            good = cs == (('spread', ('param', '$S')),) and no not in (ids['O'], ids['S'], ns) and len(co) == 2 and co[0] == ('spread', ('param', '$P')) \
                and co[1][0] == 'item' and (co[1][1] == ids['O'] or content(st, co[1][1]) == (('spread', ('param', '$O')),)) \
                and content(st, ids['O']) == (('spread', ('param', '$O')),)
            if good:
                res.ok()
            else:
                res.bad('C13:STEP-close', 'a closing parenthesis does not append the finished list to the enclosing one', w)
            o2, _ = run_step(p, 'close', empty=True)
            if [o for o in o2 if o.kind in ('fall', 'continue', 'break', 'return')]:
                res.bad('C13:CLOSE-UNMATCHED', 'a closing parenthesis without an opening one is accepted', w)
            else:
                res.ok()
            continue
        if cs != (('spread', ('param', '$S')), ('item', ids['P'])) or no in (ids['P'], ids['S'], ns):
            res.bad(f'C13:STEP-{role}', f'a {role} token changes the nesting', w)
            continue
        if len(co) != 2 or co[0] != ('spread', ('param', '$O')) or co[1][0] != 'item':
            res.bad(f'C13:STEP-{role}', f'a {role} token is not appended exactly once at the end: {show(("seq", "list", co))[:100]}', w)
            continue
        v = co[1][1]
        if role == 'num':
            r = num_check(v)
            if r == 'ok':
                res.ok()
            elif r == '?':
                res.unknown(f'value of a number: {show(v)[:80]}')
            else:
                res.bad('C13:NUM-VALUE', r[5:], w)
        elif role == 'word':
            if v == TEXT or chain(v, TEXT) == [] or (v[0] == 'call' and v[1] == 'strip' and v[2] == (TEXT,)):
                res.ok()
            elif changes_text(v, TEXT) or chain(v, TEXT) or any(x[0] == 'call' and x[1] in ('len', 'bool') or changes_text(x, TEXT) for x in leaves(v) if v[0] == 'ite'):
                res.bad('C13:WORD-VALUE', f'a word is changed: {show(v)[:80]}', w)
            else:
                res.unknown(f'value of a word: {show(v)[:80]}')
        else:
            base = ('slice', TEXT, const(1), const(-1))
            c = chain(v, base)
            if c is not None:
                res.ok()     # judged by the escaping rule
            elif v == TEXT or chain(v, TEXT) is not None:
                res.bad('C13:QUOTED-VALUE', f'the enclosing quotes are not removed properly: {show(v)[:80]}', w)
            elif changes_text(v, TEXT) or v[0] == 'call' and v[1] in ('strip', 'float', 'int') or \
                    any(x[0] == 'call' and x[1] in ('float', 'int', 'len', 'bool') or is_const(x) and x != const('') for x in leaves(v) if v[0] == 'ite'):
                res.bad('C13:QUOTED-VALUE', f'quoted text is changed: {show(v)[:80]}', w)
            else:
                res.unknown(f'value of quoted text: {show(v)[:80]}')
    # after the loop
    if p.st is None:
        res.bad('C13:RESULT', 'never returns', w)
        return
    pc = expand_facts(p.st.pc)
    sv = ('param', '$v:' + stack)
    empties = [mk_not(('truthy', sv)), mk_not(('truthy', ('seq', 'list', (('spread', sv),)))),
               mk_eq(('call', 'len', (sv,), ()), const(0)), mk_eq(sv, ('seq', 'list', ()))]
    if any(e in pc for e in empties):
        res.ok()
    elif any(contains(c, lambda x: x == sv) for c in pc):
        # decide it by the number of open parentheses; comparisons are with constants, so lengths up to the largest one + 2 represent all
        cs = [c for c in pc if contains(c, lambda x: x == sv)]
        hi = max([abs(x[2]) for c in cs for x in walk(c) if is_const(x) and isinstance(x[2], int)] + [0]) + 2
        vals = {n: [by_length(c, sv, n) for c in cs] for n in range(1, min(hi, 50) + 1)}
        acc = [n for n, v in vals.items() if all(x is True for x in v)]
        if acc:
            res.bad('C13:OPEN-UNMATCHED', f'text with {acc[0]} unclosed parentheses is accepted', w)
        elif all(any(x is False for x in v) for v in vals.values()):
            res.ok()
        else:
            res.unknown('check for unclosed parentheses')
    else:
        res.bad('C13:OPEN-UNMATCHED', 'text with unclosed parentheses is accepted', w)
    v = p.I.resolve(p.value, p.st)
    ov = ('param', '$v:' + out)
    if v in (('idx', ov, const(0)), ('idx', ('seq', 'list', (('spread', ov),)), const(0))):
        res.ok()
    elif is_const(v) or v == ov or v[0] == 'idx':
        res.bad('C13:RESULT', f'returns {show(v)[:80]} instead of the first element', w)
    else:
        res.unknown(f'result {show(v)[:80]}')


# ------------------------------------------------------------------ C21
def number_text(ctx, res):
    p = parser(ctx)
    if p.error or 'num' not in p.roles or len(set(p.roles.values())) != 5:
        if p.error:
            res.unknown(p.error)
        else:
            res.bad('C21:NUM-MISSED', 'numbers are not told apart from words', p.where())
        return
    w = p.where()
    res.rule('the decimal text of every finite number (plain and exponent form) is in the language of the number token')
    res.rule('the value stored for a number token is the exact value of its text')
    res.count('number forms', 2)
    t = p.tok
    try:
        ln = Lang([a.core for a in t.group(p.roles['num']) if {' ', ')'} <= set(a.follow)], t.flags)
        for key, ref in (('C21:NUM-MISSED', REF_NUM), ('C21:EXPONENT', r'-?[0-9]+(?:\.[0-9]+)?e[+-][0-9]+')):
            d = difference(lang(ref), ln)
            if d is not None:
                res.bad(key, f'the number {d!r} is read as text', w)
            else:
                res.ok()
    except Unsupported as e:
        res.unknown(f'token expression: {e}')
    v = appended(p, 'num')
    if v is None:
        res.unknown('value of a number token')
        return
    r = num_check(v)
    if r == 'ok':
        res.ok()
    elif r == '?':
        res.unknown(f'value of a number: {show(v)[:80]}')
    else:
        res.bad('C21:NUM-VALUE', r[5:], w)
    dot = ('in', const('.'), TEXT)
    F = ('call', 'float', (TEXT,), ())

    def leaves(x, conds):
        if x[0] == 'ite':
            yield from leaves(x[2], conds + (x[1],))
            yield from leaves(x[3], conds + (mk_not(x[1]),))
        else:
            yield x, conds
    def plain(c):
        """Truth of a condition for a text of digits only (None: unknown)."""
        k = c[0]
        if k == 'not':
            x = plain(c[1])
            return None if x is None else not x
        if k in ('and', 'or'):
            xs = [plain(x) for x in c[1]]
            if k == 'and':
                return False if False in xs else None if None in xs else True
            return True if True in xs else None if None in xs else False
        if k == 'in' and c[2] == TEXT and is_strconst(c[1]):
            return False if c[1][2] and not c[1][2].isdigit() else None
        if k == 'truthy' or k == 'call':
            v = c[1] if k == 'truthy' else c
            if v == ('call', 'is_integer', (F,), ()):
                return True
            if v[0] == 'call' and v[1] in ('isdigit', 'isdecimal', 'isnumeric', 'isalnum') and v[2] == (TEXT,):
                return True
        return None
    lossy = [conds for x, conds in leaves(v, ()) if x in (F, ('call', 'int', (F,), ())) and dot not in conds]
    truth = [[plain(c) for c in conds] for conds in lossy]
    if any(all(x is True for x in xs) for xs in truth):
        res.bad('C21:BIGINT', 'whole numbers are read through floating point and lose digits beyond 2**53', w)
    elif all(any(x is False for x in xs) for xs in truth):
        res.ok()
    else:
        res.unknown('whole numbers')
