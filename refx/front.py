"""Front end: load the package's sources, index functions and scopes."""
import ast
import builtins
import os
import warnings


class FuncInfo:
    __slots__ = ('key', 'node', 'mod', 'qual', 'name', 'locals', 'globals', 'nonlocals', 'is_gen',
                 'has_inner', 'parent', 'cls', 'decorators', 'body')

    def __repr__(self):
        return '<fn %s>' % self.qual


class _Renamer(ast.NodeTransformer):
    """give comprehension variables unique names so that they can live in the
    enclosing frame"""

    def __init__(self):
        self.maps = []
        self.n = 0

    def _comp(self, node):
        self.n += 1
        names = {}
        for g in node.generators:
            for t in ast.walk(g.target):
                if isinstance(t, ast.Name):
                    names.setdefault(t.id, '%s@%d' % (t.id, self.n))
        # first iterable is evaluated outside the scope
        first = node.generators[0].iter
        node.generators[0].iter = self.visit(first)
        self.maps.append(names)
        for i, g in enumerate(node.generators):
            g.target = self.visit(g.target)
            if i:
                g.iter = self.visit(g.iter)
            g.ifs = [self.visit(x) for x in g.ifs]
        if isinstance(node, ast.DictComp):
            node.key = self.visit(node.key)
            node.value = self.visit(node.value)
        else:
            node.elt = self.visit(node.elt)
        self.maps.pop()
        return node

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_Name(self, node):
        for m in reversed(self.maps):
            if node.id in m:
                node.id = m[node.id]
                break
        return node

    def _fn(self, node):
        # parameters of an inner function shadow comprehension variables
        a = node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg:
            params.add(a.vararg.arg)
        if a.kwarg:
            params.add(a.kwarg.arg)
        saved = self.maps
        a.defaults = [self.visit(x) for x in a.defaults]
        a.kw_defaults = [self.visit(x) if x is not None else None for x in a.kw_defaults]
        self.maps = [{k: v for k, v in m.items() if k not in params} for m in self.maps]
        if isinstance(node, ast.Lambda):
            node.body = self.visit(node.body)
        else:
            node.decorator_list = [self.visit(x) for x in node.decorator_list]
            node.body = [self.visit(x) for x in node.body]
        self.maps = saved
        return node

    visit_FunctionDef = visit_Lambda = visit_AsyncFunctionDef = _fn


def _own_nodes(node):
    """nodes of a function body, not descending into nested functions/classes"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Program:
    def __init__(self, root, package='refextract'):
        self.root = root
        self.package = package
        self.modules = {}     # name -> ast.Module
        self.files = {}       # name -> relative path
        self.funcs = []       # FuncInfo by key
        self.byqual = {}
        self.fnode = {}       # id(node) -> FuncInfo
        self.classes = []
        self.cnode = {}
        self.sources = {}
        self.errors = []
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                src = open(p, encoding='utf-8').read()
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(src, rel)
                except SyntaxError as e:
                    self.errors.append((rel, str(e)))
                    continue
                tree = _Renamer().visit(tree)
                self.modules[name] = tree
                self.files[name] = rel
                self.sources[name] = src
                self._index(tree, name, name, None, None)

    def _index(self, node, mod, qual, parent, cls):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                self._func(n, mod, qual, parent, cls)
            elif isinstance(n, ast.ClassDef):
                ck = len(self.classes)
                self.classes.append((n, mod, qual + '.' + n.name))
                self.cnode[id(n)] = ck
                self._index(n, mod, qual + '.' + n.name, parent, ck)
            else:
                self._index(n, mod, qual, parent, cls)

    def _func(self, n, mod, qual, parent, cls):
        fi = FuncInfo()
        fi.key = len(self.funcs)
        fi.node = n
        fi.mod = mod
        fi.name = getattr(n, 'name', '<lambda>')
        fi.qual = qual + '.' + (fi.name if fi.name != '<lambda>' else '<lambda:%d>' % n.lineno)
        fi.parent = parent
        fi.cls = cls
        fi.decorators = getattr(n, 'decorator_list', [])
        fi.body = n.body if isinstance(n.body, list) else [ast.copy_location(ast.Return(n.body), n.body)]
        self.funcs.append(fi)
        self.fnode[id(n)] = fi
        self.byqual.setdefault(fi.qual, fi)
        a = n.args
        loc = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg:
            loc.add(a.vararg.arg)
        if a.kwarg:
            loc.add(a.kwarg.arg)
        glob, nonl = set(), set()
        fi.is_gen = False
        fi.has_inner = False
        for x in _own_nodes(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                loc.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                loc.add(x.name)
                fi.has_inner = True
            elif isinstance(x, (ast.Lambda, ast.GeneratorExp)):
                fi.has_inner = True
            elif isinstance(x, ast.Global):
                glob.update(x.names)
            elif isinstance(x, ast.Nonlocal):
                nonl.update(x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                loc.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    loc.add(al.asname or al.name.split('.')[0])
            elif isinstance(x, (ast.Yield, ast.YieldFrom)):
                fi.is_gen = True
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                loc.add(x.name)
        fi.globals = glob
        fi.nonlocals = nonl
        fi.locals = loc - glob - nonl
        for ch in ast.iter_child_nodes(n):
            self._index_inner(ch, mod, fi.qual, fi)
        return fi

    def _index_inner(self, node, mod, qual, parent):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            self._func(node, mod, qual, parent, None)
        elif isinstance(node, ast.ClassDef):
            ck = len(self.classes)
            self.classes.append((node, mod, qual + '.' + node.name))
            self.cnode[id(node)] = ck
            self._index(node, mod, qual + '.' + node.name, parent, ck)
        else:
            for n in ast.iter_child_nodes(node):
                self._index_inner(n, mod, qual, parent)

    def find(self, name, module=None):
        """function by (unqualified) top-level name; prefers `module`"""
        if module is not None:
            f = self.byqual.get(module + '.' + name)
            if f:
                return f
        c = [f for f in self.funcs if f.name == name and f.parent is None and f.cls is None]
        return c[0] if c else None


BUILTINS = set(dir(builtins))
