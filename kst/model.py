"""Per-class summaries of readers and writers."""
import ast
from . import program as P
from .absint import Interp, State, Inst
from .values import *
from . import tree as T
from . import spec
from .budget import limit, Timeout


class Writer:
    def __init__(self):
        self.func = None
        self.value = None        # template value
        self.items = None        # token tree with ws
        self.tree = None         # stripped
        self.error = None        # Unbalanced message
        self.abstract = False    # always raises
        self.raises = []
        self.events = []
        self.notes = []
        self.self_after = None
        self.pc = ()             # what holds whenever a text is returned
        self.failed = None


class Reader:
    def __init__(self):
        self.func = None
        self.fields = None       # name -> value
        self.value = None
        self.raises = []
        self.events = []
        self.notes = []
        self.abstract = False
        self.failed = None
        self.steps = {}


class Model:
    def __init__(self, prog):
        self.prog = prog
        self.writers = {}
        self.readers = {}
        self.defaults = {}
        self._ti = Interp(prog)

    # -- classes that take part ------------------------------------------
    def item_classes(self):
        return [c for c in self.prog.all_classes() if c.find_method('from_sexpr') or c.find_method('to_sexpr')]

    def where(self, c, meth=None):
        f = c.find_method(meth) if meth else None
        node = f.node if f else c.node
        mod = f.module if f else c.module
        return f'{mod.path}:{node.lineno} {c.name}{"." + meth if meth else ""}'

    # -- writer ------------------------------------------------------------
    SECONDS = 25            # for one summary

    def writer(self, c):
        if c not in self.writers:
            self.writers[c] = Writer()
            self._guarded(self._writer, c, self.writers[c])
        return self.writers[c]

    def _guarded(self, fn, c, s):
        try:
            with limit(self.SECONDS):
                fn(c, s)
        except P.AnalysisError:
            raise
        except Exception as e:      # an unforeseen construct or too large: no summary, reported as undecided
            s.failed = f'{type(e).__name__}: {e}'
            s.abstract = False

    def _writer(self, c, w):
        f = c.find_method('to_sexpr')
        if f is None:
            w.abstract = True
            return
        w.func = f
        I = Interp(self.prog)
        I.param_types = {'self': ('inst', c)}
        for a, dv in zip(reversed(f.node.args.args), reversed(f.node.args.defaults)):
            if isinstance(dv, ast.Constant) and isinstance(dv.value, bool) and (a.annotation is None or ast.unparse(a.annotation) == 'bool'):
                I.param_types[a.arg] = ('bool',)
        params = [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]
        args = []
        for i, pn in enumerate([x.arg for x in f.node.args.args]):
            args.append(('param', 'self') if i == 0 else ('param', pn))
        kw = {x.arg: ('param', x.arg) for x in f.node.args.kwonlyargs}
        st0 = State({}, {}, ())
        ref = I.alloc(st0, Inst(c, {}, ('param', 'self')))
        args[0] = ref
        v, st = I.call(f, args, kw, st0, None)
        w.raises, w.events, w.notes = I.raises, I.events, I.notes
        if st is None:
            w.abstract = True
            return
        w.self_after = st.heap[ref[1]].fields
        sref = ref

        def fn(x):
            if x == sref:
                return ('param', 'self')
            return None
        v = subst(v, fn)
        w.pc = tuple(subst(I.resolve(x, st), fn) for x in st.pc)
        w.value = self.ser_text_tests(I.resolve(v, st), c)
        self._build(w)

    def ser_text_tests(self, v, c):
        """Tests whether the text of a nested item is empty become tests on that item."""
        def fn(x):
            s = None
            if x[0] == 'eq' and len(x) == 3 and isinstance(x[1], tuple) and x[1][:1] == ('ser',) and x[2] == const(''):
                s, neg = x[1], True
            elif x[0] == 'truthy' and isinstance(x[1], tuple) and x[1][:1] == ('ser',):
                s, neg = x[1], False
            if s is None:
                return None
            ks = self.classes_of(s[1], c)
            if not ks:
                return None
            cond = None
            for k in reversed(ks):
                n = self.nonempty(k, s[1])
                if n is None:
                    return None
                cond = n if cond is None else mk_ite(('istype', s[1], (k.name,)), n, cond)
            return mk_not(cond) if neg else cond
        return subst(v, fn)

    def nonempty(self, k, obj):
        w = self.writer(k)
        if w.items is None:
            return None

        def go(items):
            cs = []
            for it in items:
                if it[0] == 'gate':
                    a, b = go(it[2]), go(it[3])
                    if a is None or b is None:
                        return None
                    cs.append(mk_ite(it[1], a, b))
                elif it[0] == 'loop':
                    b = go(it[3])
                    if b == TRUE:
                        cs.append(('truthy', it[2]))
                    elif b != FALSE:
                        return None
                elif it[0] in ('node', 'atom'):
                    return TRUE
                elif it[0] == 'ws':
                    if any(p[0] == 'lit' and p[1] for p in it[1:2] if isinstance(p, tuple)) or (len(it) > 1 and isinstance(it[1], str) and it[1]):
                        return TRUE
                else:
                    return None
            return mk_or(cs)
        r = go(w.items)
        if r is None:
            return None
        return subst(r, lambda x: obj if x == ('param', 'self') else None)

    def _build(self, w):
        T.Unbalanced.unknown = False
        try:
            w.items = T.parse_top(str_parts(w.value))
            w.tree = T.strip_ws(w.items)
        except T.Unbalanced as e:
            w.error = e.msg
            w.error_conds = e.conds

    # -- reader ------------------------------------------------------------
    def reader(self, c):
        if c not in self.readers:
            self.readers[c] = Reader()
            self._guarded(self._reader, c, self.readers[c])
        return self.readers[c]

    def _reader(self, c, r):
        f = c.find_method('from_sexpr')
        if f is None:
            r.abstract = True
            return
        r.func = f
        I = Interp(self.prog)
        I.param_types = {}
        args = [('cls', c), ('param', 'exp')] if f.kind == 'classmethod' else [('param', 'exp')]
        v, st = I.run(f, args)
        r.raises, r.events, r.notes, r.steps = I.raises, I.events, I.notes, I.steps
        if st is None:
            r.abstract = True
            return
        r.value = I.resolve(v, st)
        if r.value[0] == 'obj':
            r.fields = dict(r.value[2])
        r.interp = I
        return

    def default(self, c, fname):
        key = (c, fname)
        if key not in self.defaults:
            f = c.field(fname)
            if f is None:
                return ('undef',)
            I = Interp(self.prog)
            st = State({}, {}, ())
            v = I.default_of(f, st)
            self.defaults[key] = I.resolve(v, st)
        return self.defaults[key]

    # -- types ---------------------------------------------------------------
    def typeof(self, v, selfcls):
        self._ti.param_types = {'self': ('inst', selfcls)} if selfcls else {}
        return self._ti.typeof(v)

    def classes_of(self, v, selfcls):
        """Possible item classes of a value (None if unknown)."""
        lst = v[2] if v[0] == 'elem' else v[1] if v[0] == 'idx' else None
        if lst is not None and lst[0] == 'attr':
            for o in [selfcls] if lst[1] == ('param', 'self') else (self.classes_of(lst[1], selfcls) or []):
                n = spec.ELEMENT_CLASS.get((o.name, lst[2])) if o else None
                if n and self.prog.class_named(n):
                    return [self.prog.class_named(n)]
        t = P.without_none(self.typeof(v, selfcls))
        ms = [m for m in P.members(t)]
        if ms and all(m[0] == 'inst' for m in ms) and any(m[1].find_method('to_sexpr') or m[1].fields() for m in ms):
            ks = [m[1] for m in ms]
            if v[0] != 'elem' or any(k.find_method('to_sexpr') for k in ks):
                return ks
            fallback = ks
        else:
            fallback = None
        # element of an untyped list: infer from what the owner's reader puts there
        base = v
        if v[0] in ('elem', 'val'):
            base = v[2]
        elif v[0] == 'idx':
            base = v[1]
        while base[0] in ('slice',):
            base = base[1]
        while base[0] == 'call' and base[1] in ('sorted', 'reversed', 'set', 'frozenset', 'dedup', 'slice_step') and base[2]:
            base = base[2][0]
        if base[0] == 'attr':
            owners = self.classes_of(base[1], selfcls) if base[1] != ('param', 'self') else [selfcls]
            out = []
            for o in owners or []:
                r = self.reader(o)
                if r.fields and base[2] in r.fields:
                    for x in walk(r.fields[base[2]]):
                        if x[0] == 'parse' and x[1] not in out:
                            out.append(x[1])
            return out or fallback
        return fallback
