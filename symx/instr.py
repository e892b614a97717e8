"""AST instrumentation and loading of the code under test.

Nothing about resync is hard-coded: every module of the package is read from the
repository's current tree on every run and compiled with calls, subscripts,
membership tests, %-formatting, f-strings and dict/set displays routed through
symx.hooks, so that symbolic values survive C-implemented operations.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

NOHOOK = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}


def _h(name):
    return ast.Attribute(value=ast.Name(id='__symx__', ctx=ast.Load()), attr=name, ctx=ast.Load())


def _c(fn, *args):
    return ast.Call(func=_h(fn), args=list(args), keywords=[])


OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Mod: 'mod', ast.BitOr: 'or_', ast.BitAnd: 'and_',
       ast.BitXor: 'xor', ast.FloorDiv: 'floordiv', ast.Div: 'truediv', ast.LShift: 'lshift', ast.RShift: 'rshift',
       ast.Pow: 'pow', ast.MatMult: 'matmul'}


class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []

    # functions: record execution
    def _func(self, node):
        self.scope.append(node.name)
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        qual = '.'.join(self.scope)
        body = [self.visit(b) for b in node.body]
        flat = []
        for b in body:
            flat.extend(b if isinstance(b, list) else [b])
        enter = ast.Expr(_c('enter', ast.Constant(self.modname + '.' + qual)))
        k = 1 if (flat and isinstance(flat[0], ast.Expr) and isinstance(flat[0].value, ast.Constant)
                  and isinstance(flat[0].value.value, str)) else 0
        flat.insert(k, enter)
        node.body = flat
        self.scope.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOHOOK:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=_h('call'), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Mod, ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)):
            return ast.copy_location(_c('op_' + OPS[type(node.op)], node.left, node.right), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, ast.In):
                return ast.copy_location(_c('contains', node.left, node.comparators[0]), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(_c('not_contains', node.left, node.comparators[0]), node)
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = node.comparators[0]
                if isinstance(r, ast.Constant) and (r.value is True or r.value is False):
                    return ast.copy_location(_c('is_bool', node.left, r, ast.Constant(isinstance(op, ast.IsNot))), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice) or (isinstance(s, ast.Constant) and isinstance(s.value, int)):
                return node
            return ast.copy_location(_c('getitem', node.value, s), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(_c('setitem', node.value, t.value, t.slice)), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            return ast.copy_location(ast.Expr(_c('augitem', t.value, t.slice,
                                                 ast.Constant(OPS[type(node.op)]), node.value)), node)
        if isinstance(node.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub, ast.Mod)) and isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[ast.Name(id=t.id, ctx=ast.Store())],
                value=_c('iop_' + OPS[type(node.op)], ast.Name(id=t.id, ctx=ast.Load()), node.value)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.copy_location(ast.Expr(_c('delitem', t.value, t.slice)), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                pairs.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return ast.copy_location(_c('mkdict', ast.List(elts=pairs, ctx=ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(_c('mkdict', ast.copy_location(lc, node)), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(_c('mkset', ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(_c('mkset', ast.copy_location(lc, node)), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[val, ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_c('fstr', *parts), node)


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Tx(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class SymOrderedDict(dict):
    """collections.OrderedDict on top of dict (the C version looks keys up by hash while iterating)."""

    def popitem(self, last=True):
        from .values import allow_hash
        if not len(self):
            raise KeyError('dictionary is empty')
        ks = list(dict.keys(self))
        k = ks[-1] if last else ks[0]
        with allow_hash():
            return k, dict.pop(self, k)

    def move_to_end(self, key, last=True):
        from . import hooks
        r = hooks.resolve(self, key)
        if r is None:
            raise KeyError(key)
        with hooks.allow_hash():
            v = dict.pop(self, r[0])
            rest = list(dict.items(self))
            if not last:
                dict.clear(self)
            dict.__setitem__(self, r[0], v)
            if not last:
                for a, b in rest:
                    dict.__setitem__(self, a, b)

    def __eq__(self, o):
        if isinstance(o, SymOrderedDict):
            return list(dict.items(self)) == list(dict.items(o))
        return dict.__eq__(self, o)

    __hash__ = None

    def __repr__(self):
        return 'OrderedDict(%r)' % (list(dict.items(self)),)


SHIMS = {}


def _shim_collections():
    import collections
    import types
    m = types.ModuleType('collections')
    m.__dict__.update({k: v for k, v in collections.__dict__.items() if k not in ('__builtins__',)})
    m.OrderedDict = SymOrderedDict
    return m


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    import builtins
    r = builtins.__import__(name, globals, locals, fromlist, level)
    if level == 0 and r.__name__ == 'collections':
        if 'collections' not in SHIMS:
            SHIMS['collections'] = _shim_collections()
        return SHIMS['collections']
    return r


def _builtins():
    import builtins
    if 'builtins' not in SHIMS:
        d = dict(builtins.__dict__)
        d['__import__'] = _import
        SHIMS['builtins'] = d
    return SHIMS['builtins']


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Loads package `name` from `root` with instrumentation."""

    def __init__(self, packages):
        self.packages = packages        # name -> directory containing it

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.packages:
            return None
        base = os.path.join(self.packages[top], *fullname.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            return importlib.util.spec_from_file_location(
                fullname, os.path.join(base, '__init__.py'), loader=self, submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(fullname, base + '.py', loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import hooks
        fn = module.__spec__.origin
        with open(fn, encoding='utf-8') as f:
            src = f.read()
        module.__dict__['__symx__'] = hooks
        module.__dict__['__builtins__'] = _builtins()
        hooks.INSTRUMENTED.add(module.__name__)
        exec(instrument(src, fn, module.__name__), module.__dict__)


_std = {}


def std_module(name):
    """An instrumented private copy of a pure-Python standard library module."""
    m = _std.get(name)
    if m is not None:
        return m
    import types
    from . import hooks
    spec = importlib.util.find_spec(name)
    fn = spec.origin
    if not os.path.exists(fn):      # frozen modules
        import sysconfig
        fn = os.path.join(sysconfig.get_paths()['stdlib'], *name.split('.')) + '.py'
    with open(fn, encoding='utf-8') as f:
        src = f.read()
    m = types.ModuleType('_symx_std_.' + name)
    m.__file__ = fn
    m.__package__ = name.rpartition('.')[0]
    m.__dict__['__symx__'] = hooks
    m.__dict__['__builtins__'] = _builtins()
    hooks.INSTRUMENTED.add(m.__name__)
    _std[name] = m
    sys.modules[m.__name__] = m
    exec(instrument(src, fn, m.__name__), m.__dict__)
    return m
