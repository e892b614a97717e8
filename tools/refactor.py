"""Copy the repository with behaviour preserving rewrites: python3 refactor.py STYLE TARGET.

STYLE is one of: helper (every function delegates to an inner one), loops (for -> while over an iterator), swap (if/else
branches exchanged, comparisons turned round), format (%-formatting -> format / f-strings), temps (conditions, arguments
and results held in variables), gens (loops that append -> comprehensions, and inner functions), mix (all of these).
Used to confirm that the checks stay quiet on refactored code.
"""
import ast
import os
import shutil
import subprocess
import sys

FLIP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def name(i, store=False):
    return ast.Name(i, ast.Store() if store else ast.Load())


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self, s='v'):
        Base.n += 1
        return '_%s%d' % (s, Base.n)


class Loops(Base):
    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        it, end = self.fresh('it'), self.fresh('end')
        item = self.fresh('item')
        pre = [ast.Assign([name(it, True)], ast.Call(name('iter'), [node.iter], [])),
               ast.Assign([name(end, True)], ast.Call(name('object'), [], []))]
        body = [ast.Assign([name(item, True)], ast.Call(name('next'), [name(it), name(end)], [])),
                ast.If(ast.Compare(name(item), [ast.Is()], [name(end)]), [ast.Break()], []),
                ast.Assign([node.target], name(item))] + node.body
        return pre + [ast.While(ast.Constant(True), body, [])]


class Swap(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            t = node.test
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in NEG:
                t = ast.Compare(t.left, [NEG[type(t.ops[0])]()], t.comparators)
            elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t = t.operand
            else:
                t = ast.UnaryOp(ast.Not(), t)
            return ast.If(t, node.orelse, node.body)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in FLIP:
            return ast.Compare(node.comparators[0], [FLIP[type(node.ops[0])]()], [node.left])
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        return node if not getattr(self, 'intest', False) else ast.UnaryOp(
            ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in node.values]))


class Format(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            s = node.left.value
            args = node.right.elts if isinstance(node.right, ast.Tuple) else [node.right]
            import re
            specs = re.findall(r'%(%|0?\d*[ds])', s)
            if '%%' in s or len(specs) != s.count('%') or len(specs) != len(args):
                return node
            if not isinstance(node.right, ast.Tuple) and not isinstance(node.right, (ast.Name, ast.Attribute, ast.Call)):
                return node
            if any(x not in ('s', 'd') for x in specs):
                return node
            Base.n += 1
            if Base.n % 2:
                t = s.replace('{', '{{').replace('}', '}}')
                for x in specs:
                    t = t.replace('%' + x, '{}', 1)
                return ast.Call(ast.Attribute(ast.Constant(t), 'format', ast.Load()), args, [])
            vals, rest = [], s
            for x, a in zip(specs, args):
                i = rest.index('%' + x)
                if i:
                    vals.append(ast.Constant(rest[:i]))
                vals.append(ast.FormattedValue(a, -1, None))
                rest = rest[i + 1 + len(x):]
            if rest:
                vals.append(ast.Constant(rest))
            return ast.JoinedStr(vals)
        return node


class Temps(Base):
    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
            return node
        t = self.fresh('result')
        return [ast.Assign([name(t, True)], node.value), ast.Return(name(t))]

    def visit_If(self, node):
        self.generic_visit(node)
        t = self.fresh('cond')
        return [ast.Assign([name(t, True)], node.test), ast.If(name(t), node.body, node.orelse)]

    def visit_Expr(self, node):
        self.generic_visit(node)
        c = node.value
        if isinstance(c, ast.Call) and c.args and not any(isinstance(a, ast.Starred) for a in c.args):
            out = []
            if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Call):
                return node
            for i, a in enumerate(c.args):
                if not isinstance(a, (ast.Name, ast.Constant)):
                    t = self.fresh('arg')
                    out.append(ast.Assign([name(t, True)], a))
                    c.args[i] = name(t)
            return out + [node]
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Name) and isinstance(node.op, ast.Add) and isinstance(node.value, ast.Constant):
            return ast.Assign([name(node.target.id, True)], ast.BinOp(name(node.target.id), node.op, node.value))
        return node


class Gens(Base):
    def visit_For(self, node):
        self.generic_visit(node)
        b = node.body
        if node.orelse or len(b) != 1:
            return node
        cond = []
        if isinstance(b[0], ast.If) and not b[0].orelse and len(b[0].body) == 1:
            cond, b = [b[0].test], b[0].body
        e = b[0]
        if isinstance(e, ast.Expr) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) \
                and e.value.func.attr == 'append' and len(e.value.args) == 1 and isinstance(e.value.func.value, ast.Name):
            g = ast.GeneratorExp(e.value.args[0], [ast.comprehension(node.target, node.iter, cond, 0)])
            return ast.Expr(ast.Call(ast.Attribute(e.value.func.value, 'extend', ast.Load()), [g], []))
        if isinstance(e, ast.Return) and isinstance(e.value, ast.Constant) and isinstance(e.value.value, bool) and cond:
            return ast.If(ast.Call(name('any'), [ast.GeneratorExp(cond[0], [ast.comprehension(node.target, node.iter, [], 0)])], []),
                          [e], [])
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        # if c: x = a else: x = b
        if len(node.body) == 1 and len(node.orelse) == 1 and isinstance(node.body[0], ast.Assign) \
                and isinstance(node.orelse[0], ast.Assign) and len(node.body[0].targets) == 1 \
                and ast.dump(node.body[0].targets[0]) == ast.dump(node.orelse[0].targets[0]):
            return ast.Assign(node.body[0].targets, ast.IfExp(node.test, node.body[0].value, node.orelse[0].value))
        return node


class Helper(Base):
    """def f(args): body -> def f(args): def inner(): body; return inner()."""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        doc = [s for s in node.body[:1] if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)]
        body = node.body[len(doc):]
        inner = ast.walk(ast.Module(body, []))
        params = {a.arg for a in node.args.args + node.args.kwonlyargs} | \
                 {a.arg for a in (node.args.vararg, node.args.kwarg) if a}
        for x in inner:
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)):
                return node
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals') and not x.args:
                return node
        if not body:
            return node
        n = self.fresh('inner')
        ps = [a.arg for a in node.args.args] + [a.arg for a in (node.args.vararg, node.args.kwarg) if a] + \
             [a.arg for a in node.args.kwonlyargs]
        f = ast.FunctionDef(n, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), body, [])
        node.body = doc + [f, ast.Return(ast.Call(name(n), [name(p) for p in ps], []))]
        return node


class Method(Base):
    """Methods delegate to another method holding the body."""

    def visit_ClassDef(self, node):
        out = []
        for f in node.body:
            out.append(f)
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or f.name.startswith('__'):
                continue
            if f.args.vararg or f.args.kwarg or f.args.kwonlyargs:
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
                   and x.func.id == 'super' and not x.args for x in ast.walk(f)):
                continue
            n = '_do_%s_%s' % (node.name, f.name)
            doc = [s for s in f.body[:1] if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)]
            body = f.body[len(doc):]
            if not body:
                continue
            ps = [a.arg for a in f.args.args]
            out.append(ast.FunctionDef(n, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), body, []))
            f.body = doc + [ast.Return(ast.Call(ast.Attribute(name(ps[0]), n, ast.Load()), [],
                                                [ast.keyword(p, name(p)) for p in ps[1:]]))]
        node.body = out
        return node


STYLES = {'helper': [Helper], 'method': [Method], 'loops': [Loops], 'swap': [Swap], 'format': [Format], 'temps': [Temps],
          'gens': [Gens], 'mix': [Gens, Swap, Loops, Format, Temps, Method]}


def main(style, target):
    shutil.copytree('/repo', target, symlinks=True)
    for d, _, fs in os.walk(os.path.join(target, 'resync')):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                t = ast.parse(open(p).read())
                for s in STYLES[style]:
                    t = s().visit(t)
                ast.fix_missing_locations(t)
                open(p, 'w').write(ast.unparse(t) + '\n')
    print(subprocess.run(['git', '-C', target, 'diff', '--shortstat'], capture_output=True, text=True).stdout)


if __name__ == '__main__':
    main(*sys.argv[1:])
