"""Abstract value domain: immutable tuples, canonicalising constructors.

kinds
  ('const', tname, v)
  ('param', name)             parameter of the analysed entry function
  ('attr', base, name) ('idx', base, key) ('slice', base, lo, hi)
  ('elem', L, iter) ('key', L, d) ('val', L, d) ('eidx', L, iter, off)
  ('str', parts)              string template
        parts: ('lit',s) ('hole',V) ('alt',c,parts,parts) ('loop',L,iter,parts) ('join',seppts,seqparts) ('phi',..)
  ('seq', 'list'|'tuple'|'set', parts)
        parts: ('item',V) ('alt',c,parts,parts) ('loop',L,iter,parts) ('spread',V) ('phi',..)
  ('map', parts)              parts: ('ent',k,v) ('alt',..) ('loop',..) ('spread',V) ('phi',..)
  ('obj', cls, ((f,V),..))    resolved instance;  ('ref', id) heap reference
  ('ite', c, a, b) ('not',c) ('and',(..)) ('or',(..))
  ('isnone',v) ('truthy',v) ('eq',a,b) ('lt',a,b) ('le',a,b) ('in',a,b) ('istype',v,names) ('any',L,iter,c)
  ('last',L,iter,c,v,init) ('first',L,iter,c,v)
  ('fmt', v, spec) ('call', name, args, kwargs) ('ser', obj, args, kwargs) ('parse', cls, v)
  ('phi', L, loc) ('top', reason) ('cls', C) ('func', F, selfV) ('mod', name) ('undef',)
"""
from . import program as P

TRUE = ('const', 'bool', True)
FALSE = ('const', 'bool', False)
NONE = ('const', 'NoneType', None)


def const(v):
    return ('const', type(v).__name__, v)


def is_const(v):
    return v[0] == 'const'


def cval(v):
    return v[2]


def top(reason):
    return ('top', reason)


BOOLK = {'not', 'and', 'or', 'isnone', 'truthy', 'eq', 'lt', 'le', 'in', 'istype', 'any'}


def is_bool_expr(v):
    return v[0] in BOOLK or (v[0] == 'const' and v[1] == 'bool')


# ---------------------------------------------------------------- booleans
def mk_not(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if c[0] == 'not':
        return c[1]
    if c[0] == 'and':
        return mk_or([mk_not(x) for x in c[1]])
    if c[0] == 'or':
        return mk_and([mk_not(x) for x in c[1]])
    return ('not', c)


def mk_and(cs):
    out = []
    for c in cs:
        for x in (c[1] if c[0] == 'and' else (c,)):
            if x == TRUE or x in out:
                continue
            if x == FALSE or mk_not(x) in out:
                return FALSE
            out.append(x)
    # one value cannot be two different texts
    named = {}
    for x in out:
        if x[0] == 'eq' and x[2][0] == 'const' and x[2][1] == 'str' and named.setdefault(x[1], x[2]) != x[2]:
            return FALSE
    # unit resolution against or-members
    lits = set(out)
    res = []
    for x in out:
        if x[0] == 'or':
            ms = [m for m in x[1] if mk_not(m) not in lits]
            if any(m in lits for m in ms):
                continue
            y = mk_or(ms)
            if y == FALSE:
                return FALSE
            res.append(y)
        else:
            res.append(x)
    if res != out:
        return mk_and(res)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else ('and', tuple(out))


def mk_or(cs):
    out = []
    for c in cs:
        for x in (c[1] if c[0] == 'or' else (c,)):
            if x == FALSE or x in out:
                continue
            if x == TRUE or mk_not(x) in out:
                return TRUE
            out.append(x)
    lits = set(out)
    res = []
    for x in out:
        if x[0] == 'and':
            ms = [m for m in x[1] if mk_not(m) not in lits]
            if any(m in lits for m in ms):
                continue
            y = mk_and(ms)
            if y == TRUE:
                return TRUE
            res.append(y)
        else:
            res.append(x)
    if res != out:
        return mk_or(res)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # factor a common literal out of every conjunction: (a&b)|(a&c) -> a&(b|c)
    if all(x[0] == 'and' for x in out):
        common = [m for m in out[0][1] if all(m in x[1] for x in out[1:])]
        if common:
            rest = [mk_and([m for m in x[1] if m not in common]) for x in out]
            return mk_and(common + [mk_or(rest)])
    return ('or', tuple(out))


def conjuncts(c):
    return list(c[1]) if c[0] == 'and' else ([] if c == TRUE else [c])


def expand_facts(pc):
    s = set()
    for c in pc:
        for x in conjuncts(c):
            s.add(x)
    return s


def simp(c, facts):
    """Simplify boolean c under a set of literals known to be true."""
    if not facts:
        return c
    if c in facts:
        return TRUE
    if mk_not(c) in facts:
        return FALSE
    k = c[0]
    if k == 'not':
        return mk_not(simp(c[1], facts))
    if k == 'and':
        return mk_and([simp(x, facts) for x in c[1]])
    if k == 'or':
        return mk_or([simp(x, facts) for x in c[1]])
    if k == 'istype':
        for f in facts:
            if f[0] == 'istype' and f[1] == c[1]:
                if set(f[2]) <= set(c[2]):
                    return TRUE
                if not (set(f[2]) & set(c[2])) and 'object' not in c[2]:
                    return FALSE
    if k == 'eq' and is_const(c[2]):
        for f in facts:
            if f[0] == 'eq' and f[1] == c[1] and is_const(f[2]) and f[2] != c[2] and not (
                    f[2][1] in NUMT and c[2][1] in NUMT and f[2][2] == c[2][2]):
                return FALSE
            if f[0] == 'istype' and f[1] == c[1] and c[2][1] not in f[2]:
                if not (set(f[2]) & NUMT and c[2][1] in NUMT):
                    return FALSE
    if k in ('truthy', 'isnone'):
        for f in facts:
            if k == 'truthy' and f == ('isnone', c[1]):
                return FALSE
            if k == 'isnone' and f == ('truthy', c[1]):
                return FALSE
            if f[0] == 'istype' and f[1] == c[1] and k == 'isnone' and 'NoneType' not in f[2]:
                return FALSE
    return c


NUMT = {'int', 'float', 'bool'}


def simp_val(v, facts):
    """Drop ite branches decided by the facts (values and templates)."""
    if not facts or not isinstance(v, tuple):
        return v
    if v[0] == 'ite':
        c = simp(v[1], facts)
        if c == TRUE:
            return simp_val(v[2], facts)
        if c == FALSE:
            return simp_val(v[3], facts)
        a, b = simp_val(v[2], facts), simp_val(v[3], facts)
        if c == v[1] and a is v[2] and b is v[3]:
            return v
        return mk_ite(c, a, b)
    if is_bool_expr(v):
        return simp(v, facts)
    if v[0] in ('str', 'map'):
        ps = simp_parts(v[1], facts)
        return v if ps == v[1] else (v[0], ps)
    if v[0] == 'seq':
        ps = simp_parts(v[2], facts)
        return v if ps == v[2] else ('seq', v[1], ps)
    return v


def simp_parts(parts, facts):
    out = []
    for p in parts:
        if p[0] == 'alt':
            c = simp(p[1], facts)
            if c == TRUE:
                out.extend(simp_parts(p[2], facts))
            elif c == FALSE:
                out.extend(simp_parts(p[3], facts))
            else:
                out.append(('alt', c, simp_parts(p[2], facts), simp_parts(p[3], facts)))
        elif p[0] == 'loop':
            out.append(p[:3] + (simp_parts(p[3], facts),))
        elif p[0] in ('hole', 'item'):
            out.append((p[0], simp_val(p[1], facts)))
        else:
            out.append(p)
    return tuple(out)


# ---------------------------------------------------------------- ite / parts
def mk_ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return mk_not(c)
    if c[0] == 'not':
        return mk_ite(c[1], b, a)
    fa, fb = expand_facts([c]), expand_facts([mk_not(c)])
    if a[0] == 'ite':
        a = simp_val(a, fa)
    if b[0] == 'ite':
        b = simp_val(b, fb)
    if a == b:
        return a
    if is_bool_expr(a) and is_bool_expr(b):
        if a == TRUE:
            return mk_or([c, b])
        if b == FALSE:
            return mk_and([c, a])
        if a == FALSE:
            return mk_and([mk_not(c), b])
        if b == TRUE:
            return mk_or([mk_not(c), a])
        return mk_or([mk_and([c, a]), mk_and([mk_not(c), b])])
    if a[0] == 'str' and b[0] == 'str' or (a[0] == 'str' and is_strconst(b)) or (b[0] == 'str' and is_strconst(a)):
        return mk_str(alt_parts(c, str_parts(a), str_parts(b)))
    if a[0] == 'seq' and b[0] == 'seq' and a[1] == b[1] and (a[1] != 'tuple' or len(a[2]) != len(b[2])
                                                            or any(p[0] != 'item' for p in a[2] + b[2])):
        return ('seq', a[1], alt_parts(c, a[2], b[2]))
    if a[0] == 'seq' and b[0] == 'seq' and a[1] == b[1] == 'tuple':
        return ('seq', 'tuple', tuple(('item', mk_ite(c, x[1], y[1])) for x, y in zip(a[2], b[2])))
    if a[0] == 'map' and b[0] == 'map':
        return ('map', alt_parts(c, a[1], b[1]))
    if a[0] == 'obj' and b[0] == 'obj' and a[1] == b[1]:
        return ('obj', a[1], tuple((f, mk_ite(c, x, dict(b[2])[f])) for f, x in a[2]))
    # ite(c, x, ite(d, y, x)) -> ite(d, y, x) when c and d exclude each other (chains of alternatives)
    if b[0] == 'ite' and b[3] == a and simp(c, expand_facts([b[1]])) == FALSE:
        return b
    # ite(c, ite(d, x, y), y) -> ite(c&d, x, y)
    if a[0] == 'ite' and a[3] == b:
        return ('ite', mk_and([c, a[1]]), a[2], b)
    return ('ite', c, a, b)


def is_strconst(v):
    return v[0] == 'const' and v[1] == 'str'


def alt_parts(c, a, b):
    """Gate two part sequences, factoring out common prefix and suffix."""
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    a, b = list(a), list(b)
    pre = []
    while a and b and a[0] == b[0]:
        pre.append(a.pop(0))
        b.pop(0)
    suf = []
    if not a and not b:
        return tuple(pre + suf)
    fa, fb = expand_facts([c]), expand_facts([mk_not(c)])
    a2, b2 = simp_parts(tuple(a), fa), simp_parts(tuple(b), fb)
    if a2 == b2:
        return tuple(pre) + a2 + tuple(suf)
    if c[0] == 'not':
        c, a2, b2 = c[1], b2, a2
    # alternatives that exclude each other (chains): the inner one alone
    if len(b2) == 1 and b2[0][0] == 'alt' and b2[0][3] == a2 and simp(c, expand_facts([b2[0][1]])) == FALSE:
        return tuple(pre) + b2 + tuple(suf)
    return tuple(pre + [('alt', c, a2, b2)] + suf)


def str_parts(v):
    if is_const(v):
        return (('lit', str(v[2])),) if v[2] != '' else ()
    if v[0] == 'str':
        return v[1]
    if v[0] == 'ite':
        return alt_parts(v[1], str_parts(v[2]), str_parts(v[3]))
    return (('hole', v),)


def mk_str(parts):
    out = []
    for p in parts:
        if p[0] == 'lit':
            if not p[1]:
                continue
        out.append(p)
    if not out:
        return const('')
    if all(p[0] == 'lit' for p in out):
        return const(''.join(p[1] for p in out))
    return ('str', tuple(out))


def concat(*vs):
    parts = []
    for v in vs:
        parts.extend(str_parts(v))
    return mk_str(parts)


# ---------------------------------------------------------------- traversal
def walk(v):
    """All sub-tuples of a value (values and parts)."""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def contains(v, pred):
    return any(pred(x) for x in walk(v))


def has_top(v):
    return contains(v, lambda x: x[0] in ('top', 'phi', 'ref', 'undef') and len(x) >= 1)


def subst(v, fn, memo=None):
    """Bottom-up rewriting: fn(node) -> replacement or None (to descend)."""
    if memo is None:
        memo = {}
    if not isinstance(v, tuple):
        return v
    if v in memo:
        return memo[v]
    if v and isinstance(v[0], str):
        r = fn(v)
        if r is not None:
            memo[v] = r
            return r
    new = tuple(subst(x, fn, memo) for x in v)
    r = v if new == v else rebuild(new)
    memo[v] = r
    return r


def rebuild(v):
    """Re-run the canonicalising constructor for a node whose children changed."""
    if not v or not isinstance(v[0], str):
        return v
    k = v[0]
    if k == 'not' and len(v) == 2:
        return mk_not(v[1])
    if k == 'and' and len(v) == 2:
        return mk_and(v[1])
    if k == 'or' and len(v) == 2:
        return mk_or(v[1])
    if k == 'ite' and len(v) == 4:
        return mk_ite(v[1], v[2], v[3])
    if k == 'eq' and len(v) == 3:
        return mk_eq(v[1], v[2])
    if k == 'isnone' and len(v) == 2:
        return mk_isnone(v[1])
    if k == 'truthy' and len(v) == 2:
        return mk_truthy(v[1])
    if k == 'istype' and len(v) == 3:
        return mk_istype(v[1], v[2])
    if k == 'str' and len(v) == 2 and isinstance(v[1], tuple) and not isinstance(v[1], str):
        return mk_str(flat_parts(v[1]))
    if k == 'idx' and len(v) == 3:
        return mk_idx(v[1], v[2])
    if k in ('lt', 'le') and len(v) == 3:
        return mk_cmp(k, v[1], v[2])
    return v


def flat_parts(parts):
    out = []
    for p in parts:
        if p[0] == 'hole':
            out.extend(str_parts(p[1]) if (p[1][0] in ('str', 'ite') or is_strconst(p[1])) else (p,))
        elif p[0] == 'alt' and p[1] in (TRUE, FALSE):
            out.extend(flat_parts(p[2] if p[1] == TRUE else p[3]))
        else:
            out.append(p)
    return out


# ---------------------------------------------------------------- predicates
def over_ite(v, f):
    if v[0] == 'ite':
        return mk_ite(v[1], over_ite(v[2], f), over_ite(v[3], f))
    return f(v)


def mk_isnone(v):
    if v[0] == 'ite':
        return over_ite(v, mk_isnone)
    if is_const(v):
        return const(v[2] is None)
    if v[0] in ('str', 'seq', 'map', 'obj', 'ref', 'cls', 'func', 'ser', 'parse', 'fmt') or is_bool_expr(v):
        return FALSE
    if v[0] == 'first':
        return ('isnone', v)
    return ('isnone', v)


def mk_truthy(v):
    if v[0] == 'ite':
        return over_ite(v, mk_truthy)
    if is_const(v):
        return const(bool(v[2]))
    if is_bool_expr(v):
        return v
    if v[0] in ('obj', 'ref', 'cls', 'func', 'parse', 'mod'):
        if v[0] == 'ref':
            return ('truthy', v)
        return TRUE
    if v[0] == 'str':
        return parts_nonempty(v[1])
    if v[0] == 'seq':
        if any(p[0] == 'item' for p in v[2]):
            return TRUE
        if not v[2]:
            return FALSE
        if len(v[2]) == 1 and v[2][0][0] == 'spread':
            return ('truthy', v[2][0][1])
        if len(v[2]) == 1 and v[2][0][0] == 'loop' and any(q[0] == 'item' for q in v[2][0][3]):
            return ('truthy', v[2][0][2])
        if all(p[0] in ('alt', 'spread', 'loop') for p in v[2]):
            c = seq_nonempty(v[2])
            if c is not None:
                return c
    if v[0] == 'map' and not v[1]:
        return FALSE
    if v[0] == 'call' and v[1] == 'len' and len(v[2]) == 1:
        return mk_truthy(v[2][0])
    if v[0] == 'call' and v[1] == 'bool' and len(v[2]) == 1:
        return mk_truthy(v[2][0])
    return ('truthy', v)


def seq_nonempty(parts):
    """Condition for a list to have elements, None when unknown."""
    cs = []
    for p in parts:
        if p[0] == 'item':
            return TRUE
        if p[0] == 'alt':
            a, b = seq_nonempty(p[2]), seq_nonempty(p[3])
            if a is None or b is None:
                return None
            cs.append(mk_or([mk_and([p[1], a]), mk_and([mk_not(p[1]), b])]))
        elif p[0] == 'spread':
            cs.append(('truthy', p[1]))
        elif p[0] == 'loop':
            c = seq_nonempty(p[3])
            if c is None:
                return None
            cs.append(('truthy', p[2]) if c == TRUE else ('any', p[1], p[2], c))
        else:
            return None
    return mk_or(cs)


def parts_nonempty(parts):
    cs = []
    for p in parts:
        if p[0] == 'lit':
            if p[1]:
                return TRUE
        elif p[0] == 'alt':
            cs.append(mk_or([mk_and([p[1], parts_nonempty(p[2])]), mk_and([mk_not(p[1]), parts_nonempty(p[3])])]))
        elif p[0] == 'hole':
            v = p[1]
            if v[0] == 'call' and v[1] == 'mul':
                cs.append(('lt', const(0), v[2][1]) if not is_const(v[2][1]) else const(v[2][1][2] > 0))
            elif v[0] == 'ser':
                cs.append(mk_not(('eq', v, const(''))))
            elif v[0] in ('str', 'ite', 'const'):
                cs.append(mk_truthy(v))
            else:
                cs.append(('truthy', ('str', (p,))))
        elif p[0] == 'loop':
            c = parts_nonempty(p[3])
            cs.append(('truthy', p[2]) if c == TRUE else ('any', p[1], p[2], c))
        else:
            cs.append(('truthy', ('str', (p,))))
    return mk_or(cs)


def mk_eq(a, b):
    if is_const(a) and not is_const(b):
        a, b = b, a
    if a == b and a[0] != 'top':
        return TRUE
    if is_const(a) and is_const(b):
        return const(a[2] == b[2])
    if b == NONE:
        return mk_isnone(a)
    if a[0] == 'ite' and is_const(b):
        return over_ite(a, lambda x: mk_eq(x, b))
    if is_const(b) and b[1] == 'bool' and is_bool_expr(a):
        return a if b[2] else mk_not(a)
    if is_const(b) and b[1] in ('str',) and (is_bool_expr(a) or a[0] in ('seq', 'map', 'obj', 'parse')):
        return FALSE
    if a[0] == 'call' and a[1] == 'len' and is_const(b) and b[2] == 0:
        return mk_not(mk_truthy(a[2][0]))
    if b == ('const', 'str', '') and a[0] == 'str':
        return mk_not(mk_truthy(a))
    if b[0] == 'seq' and not b[2] and a[0] != 'seq':
        return mk_not(mk_truthy(a))
    if a[0] == 'seq' and not a[2] and b[0] != 'seq':
        return mk_not(mk_truthy(b))
    if a[0] == 'cls' and b[0] == 'cls':
        return const(a[1] is b[1])
    for x, y in ((a, b), (b, a)):
        if x[0] == 'slice' and y[0] == 'seq' and y[2] and all(p[0] == 'item' and is_const(p[1]) for p in y[2]):
            lo = 0 if x[2] == NONE else x[2][2] if is_const(x[2]) else None
            hi = None if x[3] == NONE else x[3][2] if is_const(x[3]) else -1
            n = len(y[2])
            if type(lo) is int and lo >= 0 and (hi is None or type(hi) is int and hi >= lo):
                if hi is not None and hi - lo < n:
                    return FALSE
                cs = [mk_truthy(mk_slice(x[1], const(lo + n - 1), NONE))]
                if hi is None or hi - lo > n:
                    cs.append(mk_not(mk_truthy(mk_slice(x[1], const(lo + n), NONE))))
                cs.extend(mk_eq(mk_idx(x[1], const(lo + i)), p[1]) for i, p in enumerate(y[2]))
                return mk_and(cs)
    if a[0] == 'call' and a[1] == 'type' and b[0] == 'call' and b[1] == 'type':
        for x, y in ((a, b), (b, a)):
            tn = _valtype(y[2][0])
            if tn:
                return mk_istype(x[2][0], (tn,))
    for x, y in ((a, b), (b, a)):
        if x[0] == 'call' and x[1] == 'type' and y[0] == 'builtin':
            return mk_istype(x[2][0], (y[1],))
        if x[0] == 'call' and x[1] == 'type' and y[0] == 'cls':
            return mk_istype(x[2][0], (y[1].name,))
    if not is_const(b) and repr(b) < repr(a):
        a, b = b, a
    return ('eq', a, b)


def _valtype(v):
    if v[0] == 'seq':
        return v[1]
    if v[0] == 'map':
        return 'dict'
    if v[0] == 'const':
        return v[1]
    if v[0] == 'str':
        return 'str'
    return None


def mk_cmp(op, a, b):
    """op in lt, le: a<b / a<=b ; length comparisons are normalised."""
    if is_const(a) and is_const(b):
        try:
            return const(a[2] < b[2] if op == 'lt' else a[2] <= b[2])
        except TypeError:
            return top('cmp')
    # len(x) > 0 ; len(x) >= 1 ; len(x) < 1 ; len(x) <= 0
    if b[0] == 'call' and b[1] == 'len' and is_const(a):
        if (op == 'lt' and a[2] == 0) or (op == 'le' and a[2] == 1):
            return mk_truthy(b[2][0])
        if op == 'lt':                      # n < len  ->  n+1 <= len
            return ('le', const(a[2] + 1), b)
    if a[0] == 'call' and a[1] == 'len' and is_const(b):
        if (op == 'lt' and b[2] == 1) or (op == 'le' and b[2] == 0):
            return mk_not(mk_truthy(a[2][0]))
        if op == 'lt':                      # len < n -> not n <= len
            return mk_not(('le', b, a))
        return mk_not(('le', const(b[2] + 1), a))
    return (op, a, b)


def mk_istype(v, names):
    names = tuple(sorted(set(names)))
    if v[0] == 'ite':
        return over_ite(v, lambda x: mk_istype(x, names))
    t = _valtype(v) or v[0] == 'call' and {'float': 'float', 'int': 'int', 'len': 'int'}.get(v[1])
    if t:
        return const(t in names or (t == 'bool' and 'int' in names))
    if v[0] == 'obj':
        return const(any(c.name in names for c in v[1].mro()))
    return ('istype', v, names)


def mk_idx(base, key):
    if base[0] == 'ite':
        return over_ite(base, lambda x: mk_idx(x, key))
    if base == ('top', 'missing key'):
        return base
    if base[0] == 'seq' and is_const(key) and isinstance(key[2], int):
        i = key[2]
        if i >= 0:
            for n, p in enumerate(base[2]):
                if p[0] != 'item':
                    if p[0] == 'spread' and n <= i:
                        return mk_idx(p[1], const(i - n))
                    break
                if n == i:
                    return p[1]
        elif -i <= len(base[2]) and all(p[0] == 'item' for p in base[2][i:]):
            return base[2][i][1]
    if base[0] == 'map':
        if is_const(key):
            for p in reversed(base[1]):
                if p[0] != 'ent':
                    break
                if p[1] == key:
                    return p[2]
        elif base[1] and all(p[0] == 'ent' and is_const(p[1]) for p in base[1]):
            r = top('missing key')
            for p in base[1]:
                r = mk_ite(mk_eq(key, p[1]), p[2], r) if r[0] != 'top' else ('ite', mk_eq(key, p[1]), p[2], r)
            return r
        elif len(base[1]) == 1 and base[1][0][0] == 'spread':
            return mk_idx(base[1][0][1], key)
    if base[0] == 'slice' and is_const(key) and isinstance(key[2], int) and key[2] >= 0:
        lo = base[2]
        if is_const(lo) and (lo[2] is None or (isinstance(lo[2], int) and lo[2] >= 0)) and base[3] == NONE:
            return mk_idx(base[1], const((lo[2] or 0) + key[2]))
    if key[0] == 'key' and key[2] == base:
        return ('val', key[1], base)
    if key[0] == 'eidx':
        # x[i] where i indexes iter = x (or x[k:] with offset k)
        it, off = key[2], key[3]
        if it == base and off == 0:
            return ('elem', key[1], it)
        if it[0] == 'slice' and it[1] == base and is_const(it[2]) and it[2][2] == off:
            return ('elem', key[1], it)
    return ('idx', base, key)


def mk_slice(base, lo, hi, step=NONE):
    if step != NONE and not (is_const(step) and step[2] == 1):
        return ('call', 'slice_step', (base, lo, hi, step), ())
    if is_const(lo) and lo[2] == 0:
        lo = NONE
    if lo == NONE and hi == NONE:
        return ('slice', base, NONE, NONE)
    if base[0] == 'slice' and base[3] == NONE and hi == NONE and is_const(lo) and is_const(base[2]) \
            and isinstance(lo[2], int) and lo[2] >= 0 and (base[2][2] or 0) >= 0:
        return ('slice', base[1], const((base[2][2] or 0) + lo[2]), NONE)
    if base[0] == 'seq' and all(p[0] == 'item' for p in base[2]) and is_const(lo) and is_const(hi):
        return ('seq', base[1], base[2][lo[2]:hi[2]])
    if base[0] == 'seq' and is_const(lo) and hi == NONE and isinstance(lo[2], int) and 0 <= lo[2] <= len(base[2]) and all(p[0] == 'item' for p in base[2][:lo[2]]):
        return ('seq', base[1], base[2][lo[2]:])
    if base[0] == 'str' and lo == NONE and is_const(hi) and isinstance(hi[2], int) and hi[2] < 0:
        p = base[1][-1]
        if p[0] == 'lit' and len(p[1]) >= -hi[2]:
            return mk_str(list(base[1][:-1]) + [('lit', p[1][:hi[2]])])
    if base[0] == 'str' and hi == NONE and is_const(lo) and isinstance(lo[2], int) and lo[2] > 0:
        p = base[1][0]
        if p[0] == 'lit' and len(p[1]) >= lo[2]:
            return mk_str([('lit', p[1][lo[2]:])] + list(base[1][1:]))
    if base[0] == 'seq' and len(base[2]) == 1 and one_to_one(base[2][0]):
        _, L, it, body = base[2][0]
        new = mk_slice(it, lo, hi)
        return ('seq', base[1], (('loop', L, new, subst(body, lambda x: ('elem', L, new) if x == ('elem', L, it) else None)),))
    return ('slice', base, lo, hi)


def one_to_one(p):
    """A loop that yields one element for each one it visits and knows no positions."""
    return p[0] == 'loop' and p[2][0] in ('attr', 'elem', 'idx', 'slice', 'param') and len(p[3]) == 1 and p[3][0][0] == 'item' \
        and not contains(p[3], lambda x: x[0] in ('eidx', 'phi', 'key', 'val') and x[1] == p[1])


def show(v, depth=0):
    """Compact human readable rendering."""
    if not isinstance(v, tuple) or not v:
        return repr(v)
    k = v[0]
    s = lambda x: show(x, depth + 1)
    if depth > 14:
        return '…'
    if k == 'const':
        return repr(v[2])
    if k == 'param':
        return v[1]
    if k == 'attr':
        return f'{s(v[1])}.{v[2]}'
    if k == 'idx':
        return f'{s(v[1])}[{s(v[2])}]'
    if k == 'slice':
        return f'{s(v[1])}[{"" if v[2] == NONE else s(v[2])}:{"" if v[3] == NONE else s(v[3])}]'
    if k in ('elem', 'key', 'val', 'eidx'):
        return f'{k}<{s(v[2])}>'
    if k == 'str':
        return 'T"' + showparts(v[1], depth) + '"'
    if k == 'seq':
        return '[' + showparts(v[2], depth, ', ') + ']'
    if k == 'map':
        return '{' + showparts(v[1], depth, ', ') + '}'
    if k == 'obj':
        return f'{v[1].name}(' + ', '.join(f'{f}={s(x)}' for f, x in v[2]) + ')'
    if k == 'ite':
        return f'({s(v[2])} if {s(v[1])} else {s(v[3])})'
    if k == 'not':
        return f'not {s(v[1])}'
    if k in ('and', 'or'):
        return '(' + f' {k} '.join(s(x) for x in v[1]) + ')'
    if k == 'isnone':
        return f'{s(v[1])} is None'
    if k == 'truthy':
        return f'bool({s(v[1])})'
    if k == 'eq':
        return f'{s(v[1])} == {s(v[2])}'
    if k == 'lt':
        return f'{s(v[1])} < {s(v[2])}'
    if k == 'le':
        return f'{s(v[1])} <= {s(v[2])}'
    if k == 'in':
        return f'{s(v[1])} in {s(v[2])}'
    if k == 'istype':
        return f'isinstance({s(v[1])}, {"/".join(v[2])})'
    if k == 'any':
        return f'any({s(v[3])} over {s(v[2])})'
    if k == 'last':
        return f'last<{s(v[2])}>({s(v[4])} if {s(v[3])}; init {s(v[5])})'
    if k == 'first':
        return f'first<{s(v[2])}>({s(v[4])} if {s(v[3])})'
    if k == 'fmt':
        return f'fmt({s(v[1])}, {v[2]!r})'
    if k == 'call':
        return f'{v[1]}(' + ', '.join([s(x) for x in v[2]] + [f'{a}={s(x)}' for a, x in v[3]]) + ')'
    if k == 'ser':
        return f'ser({s(v[1])})'
    if k == 'parse':
        return f'{v[1].name}.parse({s(v[2])})'
    if k in ('cls', 'func'):
        return f'<{k} {v[1].name}>'
    return '<' + ' '.join(str(x) if not isinstance(x, tuple) else s(x) for x in v) + '>'


def showparts(parts, depth=0, sep=''):
    out = []
    for p in parts:
        if p[0] == 'lit':
            out.append(p[1].replace('\n', '\\n'))
        elif p[0] in ('hole', 'item', 'spread'):
            out.append(('{' if p[0] == 'hole' else '*' if p[0] == 'spread' else '') + show(p[1], depth + 1) + ('}' if p[0] == 'hole' else ''))
        elif p[0] == 'ent':
            out.append(f'{show(p[1], depth + 1)}: {show(p[2], depth + 1)}')
        elif p[0] == 'alt':
            out.append(f'‹{show(p[1], depth + 1)} ? {showparts(p[2], depth + 1, sep)} : {showparts(p[3], depth + 1, sep)}›')
        elif p[0] == 'loop':
            out.append(f'«for {show(p[2], depth + 1)}: {showparts(p[3], depth + 1, sep)}»')
        elif p[0] == 'join':
            out.append(f'«join {showparts(p[1])!r}: {showparts(p[2], depth + 1, ", ")}»')
        else:
            out.append(str(p))
    return sep.join(out)


def pyval(v):
    """The Python value of a constant, or of a tuple or list of constants; raises ValueError otherwise."""
    if is_const(v):
        return v[2]
    if v[0] == 'seq' and all(p[0] == 'item' for p in v[2]):
        return tuple(pyval(p[1]) for p in v[2])
    raise ValueError


def fold_method(name, args):
    """Result of a text method on constants; None if not constant."""
    try:
        a = [pyval(x) for x in args]
    except ValueError:
        return None
    if not a or not isinstance(a[0], str):
        return None
    try:
        r = getattr(a[0], name)(*a[1:])
    except Exception:
        return None
    if isinstance(r, (str, bool, int)):
        return const(r)
    if isinstance(r, (list, tuple)) and all(isinstance(x, str) for x in r):
        return ('seq', 'list' if isinstance(r, list) else 'tuple', tuple(('item', const(x)) for x in r))
    return None
