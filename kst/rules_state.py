"""C09 (independence), C10 (purity and determinism)."""
import ast
from . import program as P
from .absint import State, Inst
from .share import TrackInterp, Walk, root, mutable
from .values import *

NONDET = ('time.', 'datetime.', 'random.', 'secrets.', 'uuid.', 'os.environ', 'os.getenv', 'os.urandom', 'os.getpid', 'os.getcwd', 'os.getlogin',
          'os.times', 'os.stat', 'os.listdir', 'os.path.getmtime', 'getpass.', 'socket.', 'platform.', 'locale.', 'threading.', 'tempfile.', 'os.linesep', 'os.sep', 'os.name', 'sys.platform', 'sys.argv', 'os.get_terminal_size', 'shutil.get_terminal_size', 'sys.getrecursionlimit', 'numpy.random')
STATEFUL = ('itertools.count', 'itertools.cycle')


def functions(ctx):
    """Every function and method of the package."""
    for m in ctx.prog.modules.values():
        for n, b in m.names.items():
            if isinstance(b, tuple) and b[0] == 'func' and b[1].module is m:
                yield None, b[1]
        for c in m.classes.values():
            for f in c.methods.values():
                yield c, f
            for pr in c.props.values():
                for f in pr.values():
                    yield c, f


def rich_defaults(f):
    """Parameters whose default is more than a plain constant."""
    a = f.node.args
    ps = a.posonlyargs + a.args
    ds = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    return {p.arg for p, d in ds if not isinstance(d, (ast.Constant, ast.UnaryOp))}


def run(ctx, c, f, cls=None, omit=frozenset()):
    """Interpret f with symbolic arguments, the parameters `omit` left to their defaults; -> (interp, value, state, ref of self)"""
    I = TrackInterp(ctx.prog, virtual_props=False)
    st = State({}, {}, ())
    args, kw, ref = [], {}, None
    a = f.node.args
    for i, p in enumerate(a.posonlyargs + a.args):
        if i == 0 and f.kind == 'classmethod':
            args.append(('cls', cls or c))
        elif i == 0 and f.kind == 'method' and c is not None:
            ref = I.alloc(st, Inst(cls or c, {}, ('param', 'self')))
            args.append(ref)
        elif p.arg not in omit:
            if omit and p not in a.posonlyargs:
                kw[p.arg] = ('param', p.arg)
            else:
                args.append(('param', p.arg))
    for p in a.kwonlyargs:
        if p.arg not in omit:
            kw[p.arg] = ('param', p.arg)
    I.param_types = {'self': ('inst', cls or c)} if c is not None else {}
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.annotation is not None and p.arg not in I.param_types:
            I.param_types[p.arg] = ctx.prog.ann_type(f.module, p.annotation)
    v, s2 = I.call(f, args, kw, st, None)
    return I, v, s2, ref


def runs(ctx):
    if not hasattr(ctx, '_state_runs'):
        ctx._state_runs = []
        for c, f in functions(ctx):
            try:
                ctx._state_runs.append((c, f) + run(ctx, c, f))
                om = rich_defaults(f)
                if om:
                    ctx._state_runs.append((c, f) + run(ctx, c, f, omit=om))
            except RecursionError:
                ctx._state_runs.append((c, f, None, None, None, None))
    return ctx._state_runs


def global_effects(I):
    """Events that write state shared between calls: (event, description)"""
    for e in I.events:
        if e.kind == 'globalwrite':
            yield e, f'writes the module variable {e.data}'
        elif e.kind == 'classwrite':
            yield e, f'writes the class attribute {e.data[0]}.{e.data[1]}'
        elif e.kind == 'mutate':
            base, op = e.data
            b = base[1] if op == 'setattr' and base[0] == 'attr' else base
            r = root(b)
            if r[0] == 'global':
                yield e, f'changes {r[1]} ({op})'
            elif r[0] in ('seq', 'map') and b is not None and b[0] in ('seq', 'map'):
                yield e, f'changes a module or class level container ({op})'
            elif r[0] in ('cls', 'ext', 'mod', 'func'):
                yield e, f'changes an attribute of {r[1]} ({op})'


def independence(ctx, res):
    """C09"""
    res.rule('no function writes module, class or function-level state')
    res.rule('no constructor, create function or loader puts an object shared between calls into an item, nor the same mutable object in two places')
    res.rule('loaders do not change the expression they are given and keep no list of it')
    for c, f, I, v, st, ref in runs(ctx):
        where = f'{f.module.path}:{f.node.lineno} {f.qualname}'
        if I is None:
            res.unknown(f'{f.qualname}: recursion')
            continue
        res.count('functions')
        bad = False
        for e, d in global_effects(I):
            bad = True
            res.bad(f'GLOBAL:{e.func.qualname if e.func else f.qualname}:{d}', f'{f.qualname} {d}', e.where() if e.func else where)
        if f.kind == 'classmethod' or f.name == 'from_sexpr':
            for e in I.events:
                if e.kind != 'mutate':
                    continue
                base, op = e.data
                b = base[1] if op == 'setattr' and base[0] == 'attr' else base
                r = root(b)
                if r == ('param', 'exp'):
                    bad = True
                    res.bad(f'INPUT:{f.qualname}:{op}', f'{f.qualname} changes the parsed expression it is given ({op} on {show(b)[:60]})', e.where())
            if st is not None:
                bad |= walk_item(ctx, res, I, v, st, f.qualname, where)
        elif st is not None and ref is not None:
            W = Walk(I, st, ctx.prog)
            cell = st.heap.get(ref[1])
            for n, x in cell.fields.items():
                W.go(x, n, ctx.prog.field_type(c, n))
            bad |= report(res, W, f.qualname, where)
        if not bad:
            res.ok()
    for c in ctx.model.item_classes():
        if not any(k.is_dataclass for k in c.mro()):
            continue
        res.count('constructors')
        I = TrackInterp(ctx.prog)
        st = State({}, {}, ())
        v = I.construct(c, [], {}, st, None)
        where = f'{c.module.path}:{c.node.lineno} {c.name}'
        bad = walk_item(ctx, res, I, v, st, c.name, where)
        for e, d in global_effects(I):
            bad = True
            res.bad(f'GLOBAL:{c.name}:{d}', f'constructing {c.name} {d}', where)
        for n, x in c.fields().items():
            if isinstance(x.default, (ast.List, ast.Dict, ast.Set)):
                bad = True
                res.bad(f'DEFAULT:{c.name}.{n}', f'{c.name}.{n} has a default shared between all instances', where)
        if not bad:
            res.ok()


def walk_item(ctx, res, I, v, st, name, where):
    W = Walk(I, st, ctx.prog)
    W.go(v, '')
    return report(res, W, name, where)


def report(res, W, name, where):
    bad = False
    for p, g in W.globals:
        bad = True
        res.bad(f'SHARED:{name}:{p}', f'{name}: attribute {p} refers to {g}, which all items share', where)
    for p, i in W.loopshared:
        bad = True
        res.bad(f'LOOPSHARED:{name}:{p}', f'{name}: the elements of {p} are one and the same object', where)
    for i, a, b in W.twice():
        bad = True
        res.bad(f'TWICE:{name}:{a}:{b}', f'{name}: {a or "the item"} and {b} are the same object', where)
    for p, x in W.alias:
        bad = True
        res.bad(f'ALIAS:{name}:{p}', f'{name}: attribute {p} keeps a list of the parsed input ({show(x)[:60]})', where)
    return bad


def nondet_names(v):
    for x in walk(v):
        n = None
        if x[0] == 'ext':
            n = x[1]
        elif x[0] == 'call' and isinstance(x[1], str):
            n = x[1]
        if n and (n.startswith(NONDET) or n in STATEFUL):
            yield n


def purity(ctx, res):
    """C10"""
    res.rule('savers and everything they call leave self and all shared state untouched')
    res.rule('no value or condition of a loader or saver comes from time, randomness, environment, object identity or the iteration order of a set')
    for c, f, I, v, st, ref in runs(ctx):
        if I is None:
            res.unknown(f'{f.qualname}: recursion')
            continue
        save = f.name in ('to_sexpr', 'to_file')
        load = f.name in ('from_sexpr', 'from_file')
        helper = c is None
        if not (save or load or helper):
            continue
        res.count('savers' if save else 'loaders' if load else 'helpers')
        where = f'{f.module.path}:{f.node.lineno} {f.qualname}'
        bad = False
        for e, d in global_effects(I):
            bad = True
            res.bad(f'GLOBAL:{f.qualname}:{d}', f'{f.qualname} {d}', e.where())
        for e in I.events:
            if e.kind == 'external' and (e.data[0].startswith(NONDET) or e.data[0] in STATEFUL):
                bad = True
                res.bad(f'NONDET:{f.qualname}:{e.data[0]}', f'{f.qualname} depends on {e.data[0]}', e.where())
            elif e.kind == 'io' and e.data[0] in ('id', 'hash', 'input'):
                bad = True
                res.bad(f'NONDET:{f.qualname}:{e.data[0]}', f'{f.qualname} depends on {e.data[0]}()', e.where())
            elif e.kind == 'mutate' and save:
                base, op = e.data
                b = base[1] if op == 'setattr' and base[0] == 'attr' else base
                if root(b) == ('param', 'self'):
                    bad = True
                    res.bad(f'MUTATES:{f.qualname}:{show(base)[:60]}', f'{f.qualname} changes {show(base)[:80]} ({op})', e.where())
            elif e.kind == 'dynsetattr' and save:
                res.unknown(f'{f.qualname}: dynamic setattr')
        if st is not None:
            vals = [I.resolve(v, st)] + list(st.pc)
            if ref is not None:
                cell = st.heap.get(ref[1])
                if isinstance(cell, Inst) and save:
                    for n, x in cell.fields.items():
                        if I.resolve(x, st) != ('attr', ('param', 'self'), n):
                            bad = True
                            res.bad(f'MUTATES:{f.qualname}:{n}', f'{f.qualname} changes the attribute {n}', where)
            for x in vals:
                for n in nondet_names(x):
                    bad = True
                    res.bad(f'NONDET:{f.qualname}:{n}', f'{f.qualname} depends on {n}', where)
                if not contains(x, lambda y: y[0] == 'call' and y[1] == 'set'):
                    continue
                for it in set_orders(x):
                    bad = True
                    res.bad(f'SETORDER:{f.qualname}', f'{f.qualname}: the order comes from iterating over a set ({show(it)[:60]})', where)
        if not bad:
            res.ok()


def set_orders(v):
    """Iterations over a set whose order is visible."""
    def is_set(x):
        while x[0] == 'call' and x[1] in ('list', 'tuple', 'iter') and x[2]:
            x = x[2][0]
        return x[0] == 'call' and x[1] in ('set', 'frozenset')
    for x in walk(v):
        if x[0] == 'loop' and is_set(x[2]):
            yield x[2]
        elif x[0] == 'spread' and is_set(x[1]):
            yield x[1]
