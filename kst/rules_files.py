"""C11 (places of files), C16 (encodings)."""
import ast
from . import program as P
from .absint import State, Inst
from .share import TrackInterp
from .values import *

PATHFN = ('str', 'os.fspath', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'pathlib.Path', 'os.path.expanduser', 'os.fsdecode')


def unwrap_path(v):
    while v[0] == 'call' and v[1] in PATHFN and len(v[2]) == 1 or v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'hole':
        v = v[2][0] if v[0] == 'call' else v[1][0][1]
    return v


def leaves(v, conds=()):
    if v[0] == 'ite':
        yield from leaves(v[2], conds + tuple(conjuncts(v[1])))
        yield from leaves(v[3], conds + tuple(conjuncts(mk_not(v[1]))))
    else:
        yield v, conds


def compatible(conds, facts):
    f = expand_facts(tuple(facts))
    return all(simp(c, f) != FALSE for c in conds) and not any(mk_not(c) in f for c in conds)


def operations(ctx, name):
    seen = set()
    for c in ctx.prog.all_classes():
        f = c.find_method(name)
        if f is not None:
            yield c, f


def run(ctx, c, f):
    key = (c, f.node)
    if not hasattr(ctx, '_file_runs'):
        ctx._file_runs = {}
    if key in ctx._file_runs:
        return ctx._file_runs[key]
    I = TrackInterp(ctx.prog, virtual_props=False)
    I.no_inline = {'parse_sexp'}
    st = State({}, {}, ())
    args, kw, ref = [], {}, None
    a = f.node.args
    for i, p in enumerate(a.posonlyargs + a.args):
        if i == 0 and f.kind == 'classmethod':
            args.append(('cls', c))
        elif i == 0 and f.kind == 'method':
            ref = I.alloc(st, Inst(c, {}, ('param', 'self')))
            args.append(ref)
        else:
            args.append(('param', p.arg))
    for p in a.kwonlyargs:
        kw[p.arg] = ('param', p.arg)
    I.param_types = {'self': ('inst', c)}
    v, s2 = I.call(f, args, kw, st, None)
    ctx._file_runs[key] = (I, v, s2, ref)
    return ctx._file_runs[key]


def params(f):
    a = f.node.args
    ps = [p.arg for p in a.posonlyargs + a.args]
    ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
    for k, d in zip(a.kwonlyargs, a.kw_defaults):
        ps.append(k.arg)
        if d is not None:
            ds[k.arg] = d
    if f.kind != 'staticmethod':
        ps = ps[1:]
    return ps, ds


def opens(I):
    for n, e in enumerate(I.events):
        if e.kind == 'open':
            args, kw, fv = e.data
            kw = dict(kw)
            path = args[0] if args else kw.get('file', NONE)
            mode = args[1] if len(args) > 1 else kw.get('mode', const('r'))
            enc = args[3] if len(args) > 3 else kw.get('encoding', None)
            yield n, e, path, mode, enc, kw, fv


def is_write(mode):
    if not is_const(mode):
        return None
    return any(ch in str(mode[2]) for ch in 'wax+')


def path_param(f):
    ps, ds = params(f)
    if 'filepath' in ps:
        return 'filepath'
    cand = [p for p in ps if 'path' in p.lower() or 'file' in p.lower()]
    return cand[0] if cand else (ps[0] if ps else None)


def text_of(v):
    """The file a text is read from: (file, extra text around it)"""
    if v[0] == 'call' and v[1] == 'read':
        return v[2][0], False
    if v[0] == 'str' and len(v[1]) == 1 and v[1][0][0] == 'loop' and v[1][0][2][0] == 'file' \
            and v[1][0][3] == (('hole', ('elem', v[1][0][1], v[1][0][2])),):
        return v[1][0][2], False                 # all lines, joined
    if v[0] == 'str':
        hs = [p for p in v[1] if p[0] == 'hole']
        if len(hs) == 1 and all(p[0] in ('hole', 'lit') for p in v[1]):
            r = text_of(hs[0][1])
            if r:
                return r[0], ''.join(p[1] for p in v[1] if p[0] == 'lit')
    if v[0] == 'call' and (v[1] in ('strip', 'rstrip', 'lstrip') and len(v[2]) == 1 or v[1] == 'decode'):
        return text_of(v[2][0])
    return None


def loading(ctx, res):
    """C11, load side"""
    res.rule('every normal return of from_file yields the item loaded from the complete text of a file opened for reading at the given path, '
             'with that path recorded')
    for c, f in operations(ctx, 'from_file'):
        where = f'{f.module.path}:{f.node.lineno} {c.name}.from_file'
        I, v, st, ref = run(ctx, c, f)
        res.count('load operations')
        pp = ('param', path_param(f))
        if st is None:
            res.bad(f'LOAD:{c.name}:never', f'{c.name}.from_file never returns', where)
            continue
        files = {fv: (path, mode) for n, e, path, mode, enc, kw, fv in opens(I)}
        n0 = len(res.findings)
        und = False
        for leaf, conds in leaves(v):
            if not compatible(conds, st.pc):
                continue
            if leaf == NONE or leaf[0] in ('const', 'undef'):
                res.bad(f'LOAD:{c.name}:none', f'{c.name}.from_file can return {show(leaf)} instead of a loaded item'
                        + (f' (when {show(mk_and(conds))[:80]})' if conds else ''), where)
                continue
            if leaf[0] != 'ref':
                if has_top(leaf):
                    und = True
                    continue
                res.bad(f'LOAD:{c.name}:value', f'{c.name}.from_file can return {show(leaf)[:60]}', where)
                continue
            cell = st.heap[leaf[1]]
            base = cell.base if isinstance(cell, Inst) else None
            if base is None or base[0] != 'parse':
                res.bad(f'LOAD:{c.name}:new', f'{c.name}.from_file can return an item that was not loaded from the file'
                        + (f' (when {show(mk_and(conds))[:80]})' if conds else ''), where)
                continue
            if base[1] is not c and c not in base[1].mro():
                res.bad(f'LOAD:{c.name}:class', f'{c.name}.from_file returns a {base[1].name}', where)
            x = base[2]
            for xl, xc in leaves(x):
                if xl[0] == 'call' and xl[1] == 'parse_sexp' and xl[2]:
                    t = text_of(xl[2][0])
                    if t is None:
                        if has_top(xl):
                            und = True
                        else:
                            res.bad(f'LOAD:{c.name}:text', f'{c.name}.from_file does not parse the complete text of the file ({show(xl[2][0])[:60]})', where)
                        continue
                    fl = t[0]
                    if fl not in files:
                        und = True
                        continue
                    p, mode = files[fl]
                    for pl, pc in leaves(p):
                        if unwrap_path(pl) != pp:
                            if has_top(pl):
                                und = True
                            else:
                                res.bad(f'LOAD:{c.name}:path', f'{c.name}.from_file reads {show(pl)[:60]} instead of the given path', where)
                    if is_write(mode):
                        res.bad(f'LOAD:{c.name}:mode', f'{c.name}.from_file opens the file for writing', where)
                else:
                    und = True
            fp = cell.fields.get('filePath', ('attr', base, 'filePath'))
            if c.field('filePath') is not None or 'filePath' in cell.fields:
                for l2, c2 in leaves(fp):
                    if not compatible(c2, tuple(st.pc) + conds):
                        continue
                    if unwrap_path(l2) == pp:
                        continue
                    if has_top(l2):
                        und = True
                        continue
                    res.bad(f'LOAD:{c.name}:record', f'{c.name}.from_file does not record the path it loaded from (filePath is {show(l2)[:50]}'
                            + (f' when {show(mk_and(c2))[:60]}' if c2 else '') + ')', where)
            else:
                res.bad(f'LOAD:{c.name}:record', f'{c.name}.from_file does not record the path it loaded from', where)
        for n, e, path, mode, enc, kw, fv in opens(I):
            if is_write(mode):
                res.bad(f'LOAD:{c.name}:mode', f'{c.name}.from_file opens a file for writing', e.where())
        if len(res.findings) == n0:
            if und:
                res.unknown(f'{c.name}.from_file: result not determined')
            else:
                res.ok()


DESTROY = ('os.remove', 'os.unlink', 'os.truncate', 'shutil.rmtree', 'os.rename', 'os.replace', 'shutil.move', 'shutil.copy', 'shutil.copyfile')


def saving(ctx, res):
    """C11, save side"""
    res.rule('to_file opens exactly the given path, or the recorded one when none is given, for writing, after the complete text has been produced, and writes all of it')
    for c, f in operations(ctx, 'to_file'):
        where = f'{f.module.path}:{f.node.lineno} {c.name}.to_file'
        I, v, st, ref = run(ctx, c, f)
        res.count('save operations')
        pn = path_param(f)
        pp, rec = ('param', pn), ('attr', ('param', 'self'), 'filePath')
        n0 = len(res.findings)
        und = False
        if st is None:
            res.bad(f'SAVE:{c.name}:never', f'{c.name}.to_file never succeeds', where)
            continue
        ps, ds = params(f)
        d = ds.get(pn)
        if pn is None or d is None or not (isinstance(d, ast.Constant) and d.value is None):
            res.bad(f'SAVE:{c.name}:default', f'{c.name}.to_file cannot be called without a path', where)
        ops = list(opens(I))
        moves = {}
        for e in I.events:
            if e.kind == 'external' and e.data[0] in ('os.replace', 'os.rename', 'shutil.move') and len(e.data[1]) == 2:
                moves[e.data[1][0]] = e.data[1][1]
        wr = [o for o in ops if is_write(o[3]) is not False]
        if not wr:
            res.bad(f'SAVE:{c.name}:open', f'{c.name}.to_file opens no file for writing', where)
        for n, e, path, mode, enc, kw, fv in wr:
            if is_const(mode) and any(ch in str(mode[2]) for ch in 'ax+'):
                res.bad(f'SAVE:{c.name}:mode', f'{c.name}.to_file opens the file in mode {mode[2]!r}', e.where())
            if not is_const(mode):
                und = True
            target = moves.get(path, path)
            # the same test may be repeated in the path condition of the open call
            pcs = tuple(conjuncts(e.pc))
            for pl, conds in leaves(target):
                cs = conds + pcs
                given = compatible(cs, (mk_not(('isnone', pp)), ('truthy', pp)))
                absent = compatible(cs, (('isnone', pp), mk_not(('isnone', rec)), ('truthy', rec), mk_not(('truthy', pp))))
                neither = compatible(cs, (('isnone', pp), ('isnone', rec), mk_not(('truthy', rec)), mk_not(('truthy', pp))))
                u = unwrap_path(pl)
                if given and u != pp:
                    if has_top(pl):
                        und = True
                    elif not (u == rec and any(x == mk_eq(pp, rec) for x in cs)):
                        res.bad(f'SAVE:{c.name}:given', f'{c.name}.to_file writes to {show(pl)[:60]} although a path is given', e.where())
                if absent and not given and u != rec:
                    if has_top(pl):
                        und = True
                    elif not (u == pp):
                        res.bad(f'SAVE:{c.name}:recorded', f'{c.name}.to_file writes to {show(pl)[:60]} instead of the recorded path', e.where())
                    else:
                        # open(None) raises
                        res.bad(f'SAVE:{c.name}:recorded', f'{c.name}.to_file does not use the recorded path when none is given', e.where())
                elif absent and given and u != rec and u != pp and not has_top(pl):
                    res.bad(f'SAVE:{c.name}:recorded', f'{c.name}.to_file writes to {show(pl)[:60]}', e.where())
                elif absent and given and u == pp:
                    res.bad(f'SAVE:{c.name}:recorded', f'{c.name}.to_file does not use the recorded path when none is given', e.where())
                if neither and not given and not absent and u not in (pp, rec) and not has_top(pl):
                    res.bad(f'SAVE:{c.name}:neither', f'{c.name}.to_file writes to {show(pl)[:60]} although no path is known', e.where())
            if e.final is not None and target == path:
                for x in I.events[e.final[0]:e.final[1]]:
                    if x.kind == 'ser':
                        res.bad(f'SAVE:{c.name}:order', f'{c.name}.to_file opens (and truncates) the file even when producing the text fails', e.where())
                        break
            # text first
            for m, x in enumerate(I.events):
                if m > n and x.kind in ('ser', 'read', 'parse') and target == path:
                    if compatible(conjuncts(x.pc), pcs):
                        res.bad(f'SAVE:{c.name}:order', f'{c.name}.to_file opens (and truncates) the file before the text is produced', x.where())
        for m, x in enumerate(I.events):
            if x.kind == 'external' and x.data[0] in DESTROY and x.data[1]:
                a0 = x.data[1][0]
                if unwrap_path(a0) in (pp, rec) or any(unwrap_path(l) in (pp, rec) for l, _ in leaves(a0)):
                    if any(y.kind == 'ser' and k > m for k, y in enumerate(I.events)):
                        res.bad(f'SAVE:{c.name}:destroy', f'{c.name}.to_file calls {x.data[0]} on the target before the text is produced', x.where())
                    else:
                        und = True
        writes = [x for x in I.events if x.kind == 'write']
        if not writes:
            if wr:
                res.bad(f'SAVE:{c.name}:write', f'{c.name}.to_file writes nothing', where)
        for x in writes:
            fv, data = x.data
            if not data:
                continue
            for t, tc in leaves(data[0]):
                if not compatible(tc, tuple(conjuncts(x.pc))):
                    continue
                if t[0] == 'ser' and t[1] == ('param', 'self') or I.resolve(t, st)[:2] == ('ser', ('param', 'self')):
                    pass
                elif contains(t, lambda y: y[0] == 'ser' and y[1] == ('param', 'self')):
                    if contains(t, lambda y: y[0] in ('slice', 'idx') or y[0] == 'call' and y[1] in ('replace', 'lower', 'upper', 'split', 'title', 'expandtabs')):
                        res.bad(f'SAVE:{c.name}:text', f'{c.name}.to_file does not write the text as serialised ({show(t)[:60]})', x.where())
                    elif t[0] == 'call' and t[1] in ('strip', 'rstrip', 'lstrip', 'encode') or t[0] == 'str':
                        pass
                    else:
                        und = True
                elif has_top(t):
                    und = True
                else:
                    res.bad(f'SAVE:{c.name}:text', f'{c.name}.to_file writes {show(t)[:60]} instead of the serialised item'
                            + (f' when {show(mk_and(tc))[:60]}' if tc else ''), x.where())
        if writes and st is not None:
            # a normal return without writing?
            w = mk_or([x.pc for x in writes])
            rest = simp(mk_and([mk_not(w)]), expand_facts(st.pc))
            if rest != FALSE and not has_top(rest):
                full = simp(mk_and(list(st.pc) + [mk_not(w)]), frozenset())
                if full != FALSE and not entails(st.pc, w):
                    res.bad(f'SAVE:{c.name}:skipped', f'{c.name}.to_file returns without saving when {show(rest)[:80]}', where)
        cell = st.heap.get(ref[1]) if ref else None
        if cell is not None and 'filePath' in cell.fields and cell.fields['filePath'] != rec:
            und = True
        if len(res.findings) == n0:
            if und:
                res.unknown(f'{c.name}.to_file: not determined')
            else:
                res.ok()


def entails(pc, w):
    """pc implies the disjunction w (by case split on its alternatives)."""
    f = expand_facts(tuple(pc))
    if simp(w, f) == TRUE:
        return True
    alts = w[1] if w[0] == 'or' else (w,)
    for a in alts:
        if all(x in f or simp(x, f) == TRUE for x in conjuncts(a)):
            return True
    for p in pc:
        if p[0] == 'or':
            return all(entails(tuple(q for q in pc if q != p) + tuple(conjuncts(x)), w) for x in p[1])
    return False


def encodings(ctx, res):
    """C16"""
    res.rule('every load and save operation has an encoding argument defaulting to None, and every open call reached from it receives exactly that argument')
    for name in ('from_file', 'to_file'):
        for c, f in operations(ctx, name):
            where = f'{f.module.path}:{f.node.lineno} {c.name}.{name}'
            res.count('file operations')
            n0 = len(res.findings)
            ps, ds = params(f)
            en = 'encoding' if 'encoding' in ps else next((p for p in ps if 'enc' in p.lower()), None)
            if en is None:
                res.bad(f'ENC:{c.name}.{name}:none', f'{c.name}.{name} accepts no encoding', where)
                continue
            d = ds.get(en)
            if d is not None and not (isinstance(d, ast.Constant) and d.value is None):
                res.bad(f'ENC:{c.name}.{name}:default', f'{c.name}.{name} uses {ast.unparse(d)} when no encoding is given', where)
            I, v, st, ref = run(ctx, c, f)
            ep = ('param', en)
            ops = list(opens(I))
            und = not ops
            for n, e, path, mode, enc, kw, fv in ops:
                res.count('open calls')
                if is_const(mode) and 'b' in str(mode[2]):
                    # bytes: the conversion has to use the given encoding
                    if name == 'from_file':
                        cell = st.heap.get(v[1]) if st is not None and v[0] == 'ref' else None
                        conv = [y for y in walk(cell.base) if y[0] == 'call' and y[1].lstrip('.') in ('decode', 'str', 'codecs.decode')] \
                            if isinstance(cell, Inst) and cell.base else []
                    else:
                        conv = [y for x in I.events if x.kind == 'write' and x.data[1] for y in walk(x.data[1][0])
                                if y[0] == 'call' and y[1].lstrip('.') in ('encode', 'bytes', 'codecs.encode')]
                    for y in conv:
                        ck = dict(y[3]) if y[3] else {}
                        ev = ck.get('encoding', y[2][1] if len(y[2]) > 1 else const('utf-8'))
                        for l, conds in leaves(ev):
                            if is_strconst(l):
                                res.bad(f'ENC:{c.name}.{name}:bytes', f'{c.name}.{name} converts the text with encoding {show(l)}'
                                        + (f' when {show(mk_and(conds))[:60]}' if conds else ''), e.where())
                    und = True
                    continue
                if enc is None:
                    res.bad(f'ENC:{c.name}.{name}:open', f'{c.name}.{name} opens the file without the given encoding', e.where())
                    continue
                for l, conds in leaves(enc):
                    if l == ep:
                        continue
                    if l == NONE and not compatible(conds, (('truthy', ep), mk_not(('isnone', ep)))):
                        continue
                    if has_top(l):
                        und = True
                        continue
                    if not compatible(conds, tuple(conjuncts(e.pc))):
                        continue
                    res.bad(f'ENC:{c.name}.{name}:open', f'{c.name}.{name} opens the file with encoding {show(l)[:50]}'
                            + (f' when {show(mk_and(conds))[:60]}' if conds else '') + ' instead of the given one', e.where())
                er = kw.get('errors')
                if er is not None and er != NONE and er != const('strict'):
                    res.bad(f'ENC:{c.name}.{name}:errors', f'{c.name}.{name} hides encoding errors (errors={show(er)})', e.where())
            if len(res.findings) == n0:
                if und:
                    res.unknown(f'{c.name}.{name}: no open call understood')
                else:
                    res.ok()
