"""Writer summaries: string templates parsed into gated token trees.

Items of a tree (python tuples):
  ('atom', pieces, quoted)       pieces: lit/hole/alt template parts
  ('node', items)                a parenthesised list (may contain ws items)
  ('gate', cond, items, items)   alternatives
  ('loop', L, iter, items)
  ('join', sepchar, items)       elements separated (between) by sepchar
  ('ser', objV, serV)            nested element serialised by its own writer
  ('ws', chars, maybe)           white space; maybe=True if it can be empty
  ('unk', V)                     undetermined text
"""
from .values import *

WS = ' \t\n\r'


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class TreeProblem:
    def __init__(self, kind, msg, cond):
        self.kind, self.msg, self.cond = kind, msg, cond


def is_ws_hole(v):
    """Value whose text is white space only (possibly empty)."""
    if is_strconst(v):
        return v[2].strip(WS) == ''
    if v[0] == 'call' and v[1] == 'mul' and is_strconst(v[2][0]):
        return v[2][0][2].strip(WS) == ''
    if v[0] == 'ite':
        return is_ws_hole(v[2]) and is_ws_hole(v[3])
    if v[0] == 'str':
        return is_ws_parts(v[1])
    if v[0] == 'call' and v[1] == 'add':
        return all(is_ws_hole(x) for x in v[2])
    if v == ('ext', 'os.linesep'):
        return True
    return False


def is_ws_parts(parts):
    for p in parts:
        if p[0] == 'lit' and p[1].strip(WS) == '':
            continue
        if p[0] == 'hole' and is_ws_hole(p[1]):
            continue
        if p[0] == 'alt' and is_ws_parts(p[2]) and is_ws_parts(p[3]):
            continue
        if p[0] == 'loop' and is_ws_parts(p[3]):
            continue
        return False
    return True


def text_only(parts):
    """No white space, parenthesis, or quote at this level: part of one bare atom."""
    for p in parts:
        if p[0] == 'lit':
            if any(ch in WS + '()"' for ch in p[1]):
                return False
        elif p[0] == 'hole':
            v = p[1]
            if v[0] == 'ser' or is_ws_hole(v) or v[0] in ('top',) or (v[0] == 'call' and v[1] in ('strip', 'lstrip', 'rstrip') and v[2][0][0] == 'str' and len(v[2][0][1]) > 1):
                return False
        elif p[0] == 'alt':
            if not (text_only(p[2]) and text_only(p[3])):
                return False
        else:
            return False
    return True


def quote_safe(parts):
    """Inside quotes: contains no unescaped literal quote."""
    for p in parts:
        if p[0] == 'lit':
            s = p[1]
            for i, ch in enumerate(s):
                if ch == '"' and (i == 0 or s[i - 1] != '\\'):
                    return False
        elif p[0] == 'alt':
            if not (quote_safe(p[2]) and quote_safe(p[3])):
                return False
        elif p[0] == 'loop':
            if not quote_safe(p[3]):
                return False
    return True


class Frag:
    """Parser state for one fragment."""
    def __init__(self):
        self.stack = [[]]
        self.atom = None       # list of pieces
        self.inq = False
        self.problems = []
        self.esc = False

    def flush(self):
        if self.atom is not None and not self.inq:
            pieces = tuple(self.atom)
            self.atom = None
            if pieces:
                self.put(('atom', pieces, False))

    def put(self, item):
        self.stack[-1].append(item)


def trim(parts, left):
    """Parts without the white space at one end, as far as it is visible."""
    parts = tuple(parts)
    if not parts:
        return ()
    p, rest = (parts[0], parts[1:]) if left else (parts[-1], parts[:-1])
    back = (lambda x, r: (x,) + r) if left else (lambda x, r: r + (x,))
    if p[0] == 'lit':
        t = p[1].lstrip(WS) if left else p[1].rstrip(WS)
        return back(('lit', t), rest) if t else trim(rest, left)
    if p[0] == 'hole':
        if is_ws_hole(p[1]):
            return trim(rest, left)
        if p[1][0] in ('ite', 'str'):
            q = str_parts(p[1])
            if q != (p,):
                return trim(q + rest if left else rest + q, left)
        return parts
    if p[0] == 'alt':
        both = [trim(x + rest if left else rest + x, left) for x in (p[2], p[3])] if len(rest) < 12 else [trim(p[2], left), trim(p[3], left)]
        return (('alt', p[1], both[0], both[1]),) if len(rest) < 12 else back(('alt', p[1], both[0], both[1]), rest)
    return parts


def expand_strip(parts):
    """strip()/rstrip()/lstrip() of a template."""
    out = []
    for p in parts:
        if p[0] == 'hole' and p[1][0] == 'call' and p[1][1] in ('strip', 'lstrip', 'rstrip') and len(p[1][2]) == 1 \
                and p[1][2][0][0] in ('str', 'ser', 'ite') and not text_only(str_parts(p[1][2][0])):
            ps = expand_strip(str_parts(p[1][2][0]))
            if p[1][1] != 'rstrip':
                ps = trim(ps, True)
            if p[1][1] != 'lstrip':
                ps = trim(ps, False)
            out.extend(ps)
        elif p[0] == 'hole' and p[1][0] == 'call' and p[1][1] in ('removeprefix', 'removesuffix'):
            out.append(('hole', top('removeprefix')))
        else:
            out.append(p)
    return tuple(out)


def parse_frag(parts, toplevel=False):
    """Parse parts into items; raises Split(cond) when an alternative is not self-contained."""
    f = Frag()
    for p in parts:
        for q in (expand_strip((p,)) if not f.inq else (p,)):
            step(f, q)
    if f.inq:
        raise Unbalanced('unterminated quote', f)
    f.flush()
    if len(f.stack) != 1:
        raise Unbalanced('missing closing parenthesis', f)
    return f.stack[0]


class Unbalanced(Exception):
    unknown = False              # an undetermined piece of text outside of quotes was met: nothing can be said about balance

    def __init__(self, msg, f=None, conds=()):
        self.msg = msg if not Unbalanced.unknown else 'undetermined text'
        self.conds = tuple(conds)


def step(f, p):
    k = p[0]
    if k == 'lit':
        for ch in p[1]:
            char(f, ch)
        return
    if f.inq:
        f.esc = False
        if k == 'hole':
            f.atom.append(p)
        elif k == 'alt':
            if not (quote_safe(p[2]) and quote_safe(p[3])):
                raise Split(p[1])
            f.atom.append(p)
        elif k == 'loop' or k == 'join':
            f.atom.append(p)
        else:
            f.atom.append(('hole', top(k)))
        return
    if k == 'hole':
        v = p[1]
        if is_ws_hole(v):
            f.flush()
            f.put(('ws', ' ', True))
        elif v[0] == 'ser':
            f.flush()
            f.put(('ser', v[1], v))
        elif v[0] in ('top', 'phi', 'undef'):
            f.flush()
            f.put(('unk', v))
            Unbalanced.unknown = True
        elif v[0] == 'ite' or v[0] == 'str':
            for q in str_parts(v):
                step(f, q)
        elif v[0] == 'call' and (v[1] not in TEXT_CALLS and not v[1].startswith('math.') or v[2] and composed(v[2][0])):
            f.flush()
            f.put(('unk', top(f'call of {v[1]}')))
        elif v[0] in ('slice', 'idx') and composed(v[1]):
            f.flush()
            f.put(('unk', top('part of a composed text')))
        else:
            if f.atom is None:
                f.atom = []
            f.atom.append(p)
        return
    if k == 'alt':
        c, A, B = p[1], expand_strip(p[2]), expand_strip(p[3])
        if not A and not B:
            return
        if is_ws_parts(A) and is_ws_parts(B):
            f.flush()
            if _solid(A) != _solid(B):
                f.put(('gate', c, tuple(parse_frag(A)), tuple(parse_frag(B))))
                return
            chars = ''.join(q[1] for q in A + B if q[0] == 'lit')
            maybe = not (_solid(A) and _solid(B))
            f.put(('ws', chars or ' ', maybe))
            return
        if text_only(A) and text_only(B):
            if f.atom is None:
                f.atom = []
            f.atom.append(('alt', c, tuple(A), tuple(B)))
            return
        # self-contained alternatives?
        try:
            ia = parse_top(A)
            ib = parse_top(B)
        except Unbalanced:
            raise Split(c)
        pend = f.atom
        f.flush()
        f.put(('gate', c, tuple(ia), tuple(ib)))
        return
    if k == 'loop':
        if text_only(p[3]):
            f.flush() if f.atom is None else None
            if f.atom is None:
                f.atom = []
            f.atom.append(p)
            return
        try:
            it = parse_top(p[3])
        except Unbalanced as e:
            raise Unbalanced(f'loop body not balanced: {e.msg}', None, e.conds + (('truthy', p[2]),))
        f.flush()
        f.put(chunked(('loop', p[1], p[2], tuple(it))))
        return
    if k == 'join':
        seps, sp = p[1], p[2]
        sep = ''.join(q[1] for q in seps) if all(q[0] == 'lit' for q in seps) else None
        f.flush()
        if sep is None and is_ws_parts(seps):
            sep = ' '
        if sep is None or sep.strip(WS) != '':
            if sep is not None and sep.count('"') == 2 and sep.strip(WS).startswith('"') and False:
                pass
            f.put(('unk', top('join separator')))
            return
        f.put(('join', sep[0], tuple(join_items(sp, sep[0]))))
        return
    if k == 'phi':
        f.flush()
        f.put(('unk', p))
        return
    f.put(('unk', top(k)))


def _solid(parts):
    return any(q[0] == 'lit' and q[1] for q in parts)


def chunked(lp):
    """for i in range(0, len(X), n): ... for e in X[i:i+n]: ...   ->   for e in X: ..."""
    _, L, it, body = lp
    if not (it[0] == 'call' and it[1] == 'range' and len(it[2]) == 3 and it[2][0] == const(0) and it[2][1][0] == 'call' and it[2][1][1] == 'len'
            and is_const(it[2][2]) and isinstance(it[2][2][2], int) and it[2][2][2] > 0):
        return lp
    x, n, i = it[2][1][2][0], it[2][2], ('elem', L, it)
    solid = [b for b in body if b[0] != 'ws']
    while len(solid) == 1 and solid[0][0] == 'join':
        solid = [b for b in solid[0][2] if b[0] != 'ws']
    ends = (('call', 'add', (i, n), ()), ('call', 'add', (n, i), ()))
    if len(solid) == 1 and solid[0][0] == 'loop' and solid[0][2][0] == 'slice' and solid[0][2][1] == x and solid[0][2][2] == i and solid[0][2][3] in ends:
        inner = solid[0]
        new = tuple(subst(b, lambda y: ('elem', inner[1], x) if y == ('elem', inner[1], inner[2]) else None) for b in inner[3])
        if not contains(new, lambda y: y == i):
            ws = (('ws', ' ', False),) if any(b[0] == 'ws' for b in body) else ()
            return ('loop', inner[1], x, new + ws)
    return lp


def composed(v):
    """A text that is itself a piece of an expression."""
    if v[0] == 'call' and v[1] == 'len':
        return False
    return v[0] == 'ser' or v[0] == 'str' and contains(v, lambda x: x[0] == 'ser' or x[0] == 'lit' and ('(' in x[1] or ')' in x[1]))


TEXT_CALLS = {'json.dumps', 'str', 'dequote', 'replace', 'round', 'abs', 'min', 'max', 'int', 'float', 'format', 'repr', 'add', 'sub', 'mul', 'mult', 'div', 'mod', 'neg', 'floordiv',
              'pow', 'bool', 'len', 'sum', 'hex', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'swapcase', 'casefold', 'zfill', 'get',
              'ljust', 'rjust', 'center', 'expandtabs', 'removeprefix', 'removesuffix', 'not', 'or', 'and', 'getattr', 'fmt', 'count', 'index', 'isoformat', 'date', 'pop'}


def join_items(sp, sep):
    def group(ps):
        r = join_items(ps, sep)
        return (('join', sep, tuple(r)),) if len(ps) > 1 else tuple(r)
    out = []
    for p in sp:
        if p[0] == 'item':
            out.extend(parse_top(str_parts(p[1])))
        elif p[0] == 'alt':
            out.append(('gate', p[1], group(p[2]), group(p[3])))
        elif p[0] == 'loop':
            out.append(chunked(('loop', p[1], p[2], group(p[3]))))
        else:
            out.append(('unk', top('join')))
    return out


def char(f, ch):
    if f.inq:
        if ch == '"' and not f.esc:
            f.put(('atom', tuple(f.atom), True))
            f.atom = None
            f.inq = False
            f.esc = False
        else:
            f.esc = (ch == '\\' and not f.esc)
            if f.atom and f.atom[-1][0] == 'lit':
                f.atom[-1] = ('lit', f.atom[-1][1] + ch)
            else:
                f.atom.append(('lit', ch))
        return
    if ch in WS:
        f.flush()
        f.put(('ws', ch, False))
    elif ch == '(':
        f.flush()
        f.stack.append([])
    elif ch == ')':
        f.flush()
        if len(f.stack) == 1:
            raise Unbalanced('unexpected closing parenthesis')
        items = f.stack.pop()
        f.put(('node', tuple(items)))
    elif ch == '"':
        if f.atom is not None:
            # quote glued to a preceding bare atom: keep as separate atoms (reported by the separation check)
            f.flush()
        f.atom = []
        f.inq = True
        f.esc = False
    else:
        if f.atom is None:
            f.atom = []
        if f.atom and f.atom[-1][0] == 'lit':
            f.atom[-1] = ('lit', f.atom[-1][1] + ch)
        else:
            f.atom.append(('lit', ch))


def scan(parts, st=(0, 0, False)):
    """(depth, min depth, in-quote) after parts, or None when alternatives disagree."""
    d, m, q = st
    esc = False
    for p in parts:
        if p[0] == 'lit':
            for ch in p[1]:
                if q:
                    if ch == '"' and not esc:
                        q = False
                    esc = ch == '\\' and not esc
                elif ch == '"':
                    q = True
                    esc = False
                elif ch == '(':
                    d += 1
                elif ch == ')':
                    d -= 1
                    m = min(m, d)
        elif p[0] == 'alt':
            x, y = scan(p[2], (d, m, q)), scan(p[3], (d, m, q))
            if x is None or y is None or (x[0], x[2]) != (y[0], y[2]):
                return None
            d, m, q = x[0], min(x[1], y[1]), x[2]
        elif p[0] == 'loop':
            x = scan(p[3], (0, 0, q))
            if x is None or x[0] != 0 or x[2] != q:
                return None
    return d, m, q


def explode(parts):
    out = []
    for p in parts:
        if p[0] == 'lit':
            out.extend(('lit', ch) for ch in p[1])
        else:
            out.append(p)
    return out


def localise(parts, cond):
    """Make the alternative(s) on `cond` self-contained by pulling the smallest balanced region into the branches."""
    parts = explode(expand_strip(parts))
    i = next((n for n, p in enumerate(parts) if p[0] == 'alt' and p[1] == cond and not _selfcont(parts, n)), None)
    if i is None:
        return None
    fa, fb = expand_facts([cond]), expand_facts([mk_not(cond)])
    # candidate region starts: alternative itself, then ever wider enclosing '(' positions outside quotes
    starts = [i]
    depth, q, stack, esc = 0, False, [], False
    for n in range(i):
        p = parts[n]
        if p[0] == 'lit':
            ch = p[1]
            if q:
                if ch == '"' and not esc:
                    q = False
                    stack.pop()
                esc = ch == '\\' and not esc
            elif ch == '"':
                q = True
                esc = False
                stack.append(n)
            elif ch == '(':
                stack.append(n)
            elif ch == ')' and stack:
                stack.pop()
        elif p[0] == 'alt':
            x = scan(p[2]), scan(p[3])
            if None in x or x[0][0] != x[1][0]:
                return None
            if x[0][0] != 0:
                return None
    starts += list(reversed(stack))
    for s0 in starts:
        for j in range(i + 1, len(parts) + 1):
            ra = simp_parts(tuple(parts[s0:j]), fa)
            rb = simp_parts(tuple(parts[s0:j]), fb)
            x, y = scan(ra), scan(rb)
            if x is None or y is None:
                continue
            if x[0] == 0 and y[0] == 0 and x[1] == 0 and y[1] == 0 and not x[2] and not y[2] and \
                    (j == len(parts) or _boundary(parts[j])):
                return tuple(parts[:s0]) + (('alt', cond, ra, rb),) + tuple(parts[j:])
    return None


def _boundary(p):
    return p[0] != 'lit' or p[1] in WS + '()'


def _selfcont(parts, n):
    p = parts[n]
    x, y = scan(p[2]), scan(p[3])
    if x is None or y is None:
        return False
    return x[0] == 0 and y[0] == 0 and x[1] >= 0 and y[1] >= 0 and not x[2] and not y[2]


def parse_top(parts, facts=frozenset(), depth=0):
    """Parse; alternatives that are not self-contained are localised, or split over the whole sequence."""
    try:
        return parse_frag(parts)
    except Split as e:
        if depth > 24:
            raise Unbalanced('too many interleaved alternatives')
        c = e.cond
        loc = localise(parts, c)
        if loc is not None:
            return parse_top(loc, facts, depth + 1)
        fa, fb = expand_facts([c]), expand_facts([mk_not(c)])
        a = simp_parts(tuple(parts), fa)
        b = simp_parts(tuple(parts), fb)
        if a == tuple(parts) and b == tuple(parts):
            raise Unbalanced('interleaved alternatives')
        try:
            ra = parse_top(a, facts, depth + 1)
        except Unbalanced as x:
            x.msg = f'{x.msg} when {show(c)}' if ' when ' not in x.msg else f'{x.msg} and {show(c)}'
            x.conds += (c,)
            raise
        try:
            rb = parse_top(b, facts, depth + 1)
        except Unbalanced as x:
            nc = mk_not(c)
            x.msg = f'{x.msg} when {show(nc)}' if ' when ' not in x.msg else f'{x.msg} and {show(nc)}'
            x.conds += (nc,)
            raise
        return [('gate', c, tuple(ra), tuple(rb))]


# ---------------------------------------------------------------- first/follow sets
def first(items, after, ser_first):
    """Set of character classes that can start the text of items followed by `after`."""
    out = set()
    for n, it in enumerate(items):
        k = it[0]
        if k == 'ws':
            out.add('nl' if it[1][0] == '\n' else 'sp')
            if not it[2]:
                return out
            continue
        if k == 'atom':
            out.add('q' if it[2] else 't')
            # a bare atom made of optional text only may be empty
            if not it[2] and all(p[0] == 'alt' and (not p[2] or not p[3]) for p in it[1]):
                continue
            return out
        if k == 'node':
            out.add('(')
            return out
        if k == 'ser':
            out.add('(')
            out.add('sp')
            continue_ = ser_first(it)
            if not continue_:
                return out
            continue
        if k == 'gate':
            rest = None
            a = first(it[2], None, ser_first)
            b = first(it[3], None, ser_first)
            e = ('' in a) or ('' in b)
            out |= (a | b) - {''}
            if not e:
                return out
            continue
        if k == 'loop':
            a = first(it[3], None, ser_first)
            out |= a - {''}
            continue
        if k == 'join':
            a = first(it[2], None, ser_first)
            out |= a - {''}
            continue
        if k == 'unk':
            out.add('?')
            return out
    if after is None:
        out.add('')
    else:
        out |= after
    return out


def atoms_with_follow(items, after, ser_first, gates=(), loops=()):
    """Yield (atom, follow-set, gates, loops, prev) for every atom, recursively."""
    for n, it in enumerate(items):
        k = it[0]
        rest = lambda: first(items[n + 1:], after, ser_first)
        if k == 'atom':
            yield it, rest(), gates, loops
        elif k == 'node':
            yield from atoms_with_follow(it[1], {')'}, ser_first, gates, loops)
        elif k == 'gate':
            r = rest()
            yield from atoms_with_follow(it[2], r, ser_first, gates + (it[1],), loops)
            yield from atoms_with_follow(it[3], r, ser_first, gates + (mk_not(it[1]),), loops)
        elif k == 'loop':
            r = rest() | (first(it[3], None, ser_first) - {''})
            yield from atoms_with_follow(it[3], r, ser_first, gates, loops + ((it[1], it[2]),))
        elif k == 'join':
            r = rest() | {'nl' if it[1] == '\n' else 'sp'}
            for sub in it[2]:
                yield from atoms_with_follow((sub,), r, ser_first, gates, loops)


def strip_ws(items):
    out = []
    for it in items:
        if it[0] == 'ws':
            continue
        if it[0] == 'node':
            ch = strip_ws(it[1])
            while ch and ch[0][0] == 'gate' and ch[0][2] and ch[0][3] and ch[0][2][0] == ch[0][3][0] and ch[0][2][0][0] == 'atom':
                _, c, a, b = ch[0]              # the leading word is the same either way
                rest = [('gate', c, a[1:], b[1:])] if a[1:] or b[1:] else []
                ch = [a[0]] + rest + ch[1:]
            out.append(('node', tuple(ch)))
        elif it[0] == 'gate':
            a, b = strip_ws(it[2]), strip_ws(it[3])
            if a or b:
                out.append(('gate', it[1], tuple(a), tuple(b)))
        elif it[0] == 'loop':
            a = strip_ws(it[3])
            if a:
                out.append(('loop', it[1], it[2], tuple(a)))
        elif it[0] == 'join':
            out.extend(strip_ws(it[2]))
        elif it[0] == 'atom' and not it[2] and len(it[1]) == 1 and it[1][0][0] == 'alt' and (not it[1][0][2] or not it[1][0][3]):
            p = it[1][0]
            a = (('atom', p[2], False),) if p[2] else ()
            b = (('atom', p[3], False),) if p[3] else ()
            out.append(('gate', p[1], a, b))
        elif it[0] == 'atom' and not it[2] and not it[1]:
            continue
        else:
            out.append(it)
    return out


def has_unk(items):
    for it in items:
        if it[0] == 'unk':
            return True
        if it[0] == 'node' and has_unk(it[1]):
            return True
        if it[0] == 'gate' and (has_unk(it[2]) or has_unk(it[3])):
            return True
        if it[0] in ('loop',) and has_unk(it[3]):
            return True
        if it[0] == 'join' and has_unk(it[2]):
            return True
        if it[0] == 'atom' and contains(it[1], lambda x: x[0] in ('top', 'phi')):
            return True
    return False


def showtree(items, ind=0):
    out = []
    pad = '  ' * ind
    for it in items:
        if it[0] == 'atom':
            s = showparts(it[1])
            out.append(pad + (f'"{s}"' if it[2] else s))
        elif it[0] == 'node':
            out.append(pad + '(')
            out.append(showtree(it[1], ind + 1))
            out.append(pad + ')')
        elif it[0] == 'gate':
            out.append(pad + f'? {show(it[1])}')
            out.append(showtree(it[2], ind + 1))
            if it[3]:
                out.append(pad + ':')
                out.append(showtree(it[3], ind + 1))
        elif it[0] == 'loop':
            out.append(pad + f'for {show(it[2])}')
            out.append(showtree(it[3], ind + 1))
        elif it[0] == 'ser':
            out.append(pad + f'<{show(it[1])}>')
        elif it[0] == 'ws':
            continue
        else:
            out.append(pad + str(it)[:100])
    return '\n'.join(x for x in out if x)
