"""Program model: parses every module of the analysed package and resolves names,
classes (fields, methods, inheritance) and declared types.  Nothing is imported or executed."""
import ast
import os


class AnalysisError(Exception):
    """The analysed tree cannot be analysed at all (vanished anchor, syntax error)."""


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name          # dotted name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.names = {}           # name -> binding
        self.classes = {}

    @property
    def relpath(self):
        return self.path


class ClassInfo:
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.bases = []           # resolved ClassInfo
        self.own_fields = []      # FieldInfo in order
        self.methods = {}         # name -> FuncInfo
        self.props = {}           # name -> {'get':FuncInfo,'set':FuncInfo}
        self.attrs = {}           # class level (non-field) name -> expr
        self.is_dataclass = any(_deco_name(d) == 'dataclass' for d in node.decorator_list)

    def __repr__(self):
        return f'<class {self.name}>'

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def find_method(self, name, skip_self=False):
        for c in self.mro()[1 if skip_self else 0:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_prop(self, name):
        for c in self.mro():
            if name in c.props:
                return c.props[name]
            if name in c.methods or name in c.attrs:
                return None
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def fields(self):
        """Effective dataclass fields, base classes first."""
        out = {}
        for c in reversed(self.mro()):
            for f in c.own_fields:
                out[f.name] = f
        return out

    def field(self, name):
        return self.fields().get(name)

    def subclasses_of(self, other):
        return other in self.mro()


class FieldInfo:
    def __init__(self, cls, name, ann, value, lineno):
        self.cls = cls
        self.name = name
        self.ann = ann
        self.value = value        # ast expr or None
        self.lineno = lineno
        self.init = True
        self.default = None       # ast expr
        self.factory = None       # ast expr
        if isinstance(value, ast.Call) and _call_name(value) == 'field':
            for kw in value.keywords:
                if kw.arg == 'default':
                    self.default = kw.value
                elif kw.arg == 'default_factory':
                    self.factory = kw.value
                elif kw.arg == 'init' and isinstance(kw.value, ast.Constant):
                    self.init = bool(kw.value.value)
        else:
            self.default = value


class FuncInfo:
    def __init__(self, module, node, cls=None, kind='function', closure=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.kind = kind          # function | method | classmethod | staticmethod | lambda
        self.closure = closure
        self.is_gen = not isinstance(node, ast.Lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(node))

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    @property
    def qualname(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return f'<func {self.qualname}>'


def _own_nodes(fn):
    """Nodes of a function body, not descending into nested functions."""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return None


def _call_name(c):
    f = c.func
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)


class Program:
    def __init__(self, src_root, package):
        """src_root: directory containing the package directory."""
        self.src_root = src_root
        self.package = package
        self.modules = {}
        self._load()
        for m in self.modules.values():
            self._bind(m)
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr_class(m, b)
                    if r:
                        c.bases.append(r)
        self.anncache = {}

    # -- loading ---------------------------------------------------------
    def _load(self):
        root = os.path.join(self.src_root, self.package)
        if not os.path.isdir(root):
            raise AnalysisError(f'package directory {root} not found')
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.src_root)[:-3].replace(os.sep, '.')
                is_pkg = rel.endswith('.__init__')
                if is_pkg:
                    rel = rel[:-9]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisError(f'{p}: {e}')
                self.modules[rel] = Module(rel, p, tree, is_pkg)

    def _bind(self, m):
        for n in m.tree.body:
            self._bind_stmt(m, n)

    def _bind_stmt(self, m, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                m.names[a.asname or a.name.split('.')[0]] = ('module', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ''
            if n.level:
                parts = m.name.split('.')
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (n.level - 1)]
                base = '.'.join(parts + ([n.module] if n.module else []))
            for a in n.names:
                if a.name == '*':
                    m.names.setdefault('*', []).append(base)
                else:
                    m.names[a.asname or a.name] = ('from', base, a.name)
        elif isinstance(n, ast.ClassDef):
            c = ClassInfo(m, n)
            m.classes[n.name] = c
            m.names[n.name] = ('class', c)
            self._bind_class(m, c)
        elif isinstance(n, ast.FunctionDef):
            m.names[n.name] = ('func', FuncInfo(m, n))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    m.names[t.id] = ('expr', n.value)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            m.names[n.target.id] = ('expr', n.value)
        elif isinstance(n, (ast.If, ast.Try)):
            for b in ast.iter_child_nodes(n):
                if isinstance(b, ast.stmt):
                    self._bind_stmt(m, b)

    def _bind_class(self, m, c):
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if c.is_dataclass and 'ClassVar' not in ast.unparse(n.annotation):
                    c.own_fields.append(FieldInfo(c, n.target.id, n.annotation, n.value, n.lineno))
                elif n.value is not None:
                    c.attrs[n.target.id] = n.value
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = n.value
            elif isinstance(n, ast.FunctionDef):
                decos = [_deco_name(d) for d in n.decorator_list]
                kind = 'method'
                if 'classmethod' in decos:
                    kind = 'classmethod'
                elif 'staticmethod' in decos:
                    kind = 'staticmethod'
                f = FuncInfo(m, n, c, kind)
                if 'property' in decos or 'cached_property' in decos:
                    c.props.setdefault(n.name, {})['get'] = f
                elif 'setter' in decos:
                    c.props.setdefault(n.name, {})['set'] = f
                elif 'deleter' in decos:
                    pass
                else:
                    c.methods[n.name] = f

    # -- resolution ------------------------------------------------------
    def lookup(self, m, name, _seen=None):
        """Resolve a module-level name: ('class',C) ('func',F) ('expr',mod,ast) ('module',dotted) or None."""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        b = m.names.get(name)
        if b is None or name == '*':
            for base in m.names.get('*', []):
                if base in self.modules:
                    r = self.lookup(self.modules[base], name, _seen)
                    if r is not None:
                        return r
            return None
        if b[0] in ('class', 'func'):
            return b
        if b[0] == 'expr':
            return ('expr', m, b[1])
        if b[0] == 'module':
            return ('module', b[1])
        if b[0] == 'from':
            base, nm = b[1], b[2]
            if base in self.modules:
                r = self.lookup(self.modules[base], nm, _seen)
                if r is not None:
                    return r
            full = base + '.' + nm if base else nm
            if full in self.modules:
                return ('module', full)
            return ('ext', full)
        return None

    def resolve_expr_class(self, m, e):
        if isinstance(e, ast.Name):
            r = self.lookup(m, e.id)
            return r[1] if r and r[0] == 'class' else None
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d:
                head, _, last = d.rpartition('.')
                r = self.lookup(m, head.split('.')[0])
                if r and r[0] == 'module':
                    full = '.'.join([r[1]] + head.split('.')[1:])
                    if full in self.modules:
                        r2 = self.lookup(self.modules[full], last)
                        if r2 and r2[0] == 'class':
                            return r2[1]
        return None

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def class_named(self, name):
        r = [c for c in self.all_classes() if c.name == name]
        return r[0] if r else None

    # -- declared types --------------------------------------------------
    # type := ('str',) ('int',) ('float',) ('bool',) ('none',) ('any',) ('inst',ClassInfo)
    #         ('list',T) ('dict',K,V) ('tuple',) ('union',(T,...))
    def ann_type(self, m, ann):
        if ann is None:
            return ('any',)
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return ('none',)
            if isinstance(ann.value, str):
                try:
                    return self.ann_type(m, ast.parse(ann.value, mode='eval').body)
                except SyntaxError:
                    return ('any',)
        if isinstance(ann, ast.Name):
            n = ann.id
            if n in ('str', 'int', 'float', 'bool'):
                return (n,)
            if n in ('List', 'list'):
                return ('list', ('any',))
            if n in ('Dict', 'dict'):
                return ('dict', ('any',), ('any',))
            c = self.resolve_expr_class(m, ann)
            if c:
                return ('inst', c)
            r = self.lookup(m, n)
            if r and r[0] == 'expr':
                return self.ann_type(r[1], r[2])
            return ('any',)
        if isinstance(ann, ast.Call):
            return self.ann_type(m, ann.func)
        if isinstance(ann, ast.Attribute):
            c = self.resolve_expr_class(m, ann)
            if c:
                return ('inst', c)
            return self.ann_type(m, ast.Name(id=ann.attr, ctx=ast.Load()))
        if isinstance(ann, ast.Subscript):
            base = ann.value.attr if isinstance(ann.value, ast.Attribute) else getattr(ann.value, 'id', '')
            args = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            ts = [self.ann_type(m, a) for a in args]
            if base == 'Optional':
                return union([ts[0], ('none',)])
            if base == 'Union':
                return union(ts)
            if base in ('List', 'list', 'Sequence', 'Iterable'):
                return ('list', ts[0])
            if base in ('Dict', 'dict', 'Mapping'):
                return ('dict', ts[0], ts[1] if len(ts) > 1 else ('any',))
            if base == 'Literal':
                return union([('str',) if isinstance(getattr(a, 'value', None), str) else ('any',) for a in args])
            return ('any',)
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return union([self.ann_type(m, ann.left), self.ann_type(m, ann.right)])
        return ('any',)

    def field_type(self, cls, fname):
        key = (cls, fname)
        if key not in self.anncache:
            f = cls.field(fname)
            if f is None:
                t = ('any',)
                p = cls.find_prop(fname)
                if p and 'get' in p:
                    g = p['get']
                    t = self.ann_type(g.module, g.node.returns)
            else:
                t = self.ann_type(f.cls.module, f.ann)
                if f.default is not None and isinstance(f.default, ast.Constant) and f.default.value is None:
                    t = union([t, ('none',)])
            self.anncache[key] = t
        return self.anncache[key]


def union(ts):
    out = []
    for t in ts:
        for x in (t[1] if t[0] == 'union' else (t,)):
            if x not in out:
                out.append(x)
    return out[0] if len(out) == 1 else ('union', tuple(out))


def members(t):
    return list(t[1]) if t[0] == 'union' else [t]


def without_none(t):
    ms = [x for x in members(t) if x != ('none',)]
    return union(ms) if ms else ('none',)


def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return '.'.join(reversed(parts))
    return None
