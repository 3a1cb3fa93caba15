"""Regenerates the encoding from source: every modularcalculator module (and harness) is read from disk, its AST rewritten so
that operations C Python would force to concrete values go through sx.hooks, and compiled in memory (nothing is cached)."""
import ast
import importlib.abc
import importlib.util
import os
import sys
from . import hooks

REPO = os.environ.get('SX_REPO', '/repo')
PREFIXES = ('modularcalculator',)
# C modules the library uses that have a reference implementation in Python in the standard library: the library's imports get that
# one, executed symbolically like the library itself
STDLIB = {'datetime': '_pydatetime', '_strptime': '_strptime'}
SXLIB = '_sxlib_'


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, record=True):
        self.mod, self.record, self.stack, self.classes = modname, record, [], []

    def name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def visit_ImportFrom(self, node):
        if self.record and node.level == 0 and node.module in STDLIB:
            node.module = SXLIB + node.module
        return node

    def visit_Import(self, node):
        if self.record:
            for a in node.names:
                if a.name in STDLIB:
                    a.asname = a.asname or a.name
                    a.name = SXLIB + a.name
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        qual = self.mod + ':' + '.'.join(self.stack)
        self.generic_visit(node)
        self.stack.pop()
        if self.record:
            call = ast.Expr(ast.Call(func=self.name('_sx_enter'), args=[ast.Constant(qual)], keywords=[]))
            at = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str) else 0
            node.body.insert(at, call)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.classes.append(node.name)
        self.generic_visit(node)
        self.classes.pop()
        self.stack.pop()
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars', 'dir', 'exec', 'eval'):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            return ast.Call(func=self.name('_sx_mcall'), args=[f.value, ast.Constant(self.mangle(f.attr))] + node.args,
                            keywords=node.keywords)
        return ast.Call(func=self.name('_sx_call'), args=[f] + node.args, keywords=node.keywords)

    def mangle(self, a):
        if self.classes and a.startswith('__') and not a.endswith('__'):
            return '_' + self.classes[-1].lstrip('_') + a
        return a

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=self.name('_sx_in'), args=[node.left, node.comparators[0]], keywords=[])
            return ast.UnaryOp(op=ast.Not(), operand=c) if isinstance(node.ops[0], ast.NotIn) else c
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                n = ast.Constant(None)
                sl = ast.Call(func=self.name('_sx_slice'), args=[sl.lower or n, sl.upper or n, sl.step or n], keywords=[])
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in sl.elts):
                return node
            return ast.Call(func=self.name('_sx_getitem'), args=[node.value, sl], keywords=[])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(func=self.name('_sx_mod'), args=[node.left, node.right], keywords=[])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                v.value = self.visit(v.value)
                spec = v.format_spec
                spec = self.visit_JoinedStr(spec) if isinstance(spec, ast.JoinedStr) else ast.Constant('')
                parts.append(ast.Call(func=self.name('_sx_fval'), args=[v.value, ast.Constant(v.conversion), spec], keywords=[]))
        return ast.Call(func=self.name('_sx_fstr'), args=parts, keywords=[])

    def visit_Try(self, node):
        self.generic_visit(node)
        hs = []
        for h in node.handlers:
            if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == 'BaseException') or isinstance(h.type, ast.Tuple):
                hs.append(ast.ExceptHandler(type=self.name('_sx_Control'), name=None, body=[ast.Raise(exc=None, cause=None)]))
            hs.append(h)
        node.handlers = hs
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


def transform(src, path, modname, record=True):
    tree = ast.parse(src, path)
    tree = Rewriter(modname, record).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


def namespace():
    return {'_sx_call': hooks.call, '_sx_mcall': hooks.mcall, '_sx_in': hooks.contains, '_sx_getitem': hooks.getitem,
            '_sx_slice': slice, '_sx_mod': hooks.mod, '_sx_fval': hooks.fval, '_sx_fstr': hooks.fstr, '_sx_enter': hooks.enter,
            '_sx_Control': hooks.Control}


class Loader(importlib.abc.Loader):
    def __init__(self, path, fullname):
        self.path, self.fullname = path, fullname

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        module.__dict__.update(namespace())
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = transform(src, self.path, self.fullname)
        exec(code, module.__dict__)
        if self.fullname == SXLIB + 'datetime':
            from . import months
            months.patch(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname.startswith(SXLIB):
            p = os.path.join(os.path.dirname(os.__file__), STDLIB[fullname[len(SXLIB):]] + '.py')
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, fullname))
        if fullname.split('.')[0] not in PREFIXES:
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isfile(base + '.py'):
            p, pkg = base + '.py', False
        elif os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        else:
            return None
        spec = importlib.util.spec_from_file_location(fullname, p, loader=Loader(p, fullname),
                                                      submodule_search_locations=[base] if pkg else None)
        return spec


_done = False


def install():
    global _done
    if not _done:
        sys.dont_write_bytecode = True
        sys.meta_path.insert(0, Finder())
        _done = True


def load_harness(path, name):
    """Load a harness module through the same transformation (symbolic side)."""
    spec = importlib.util.spec_from_file_location(name, path, loader=HLoader(path, name))
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


class HLoader(Loader):
    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        module.__dict__.update(namespace())
        exec(transform(src, self.path, self.fullname, record=False), module.__dict__)
