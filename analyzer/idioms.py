"""Expressions and statements which have several common spellings are brought into one of them"""
import ast
import copy


def _new(e, old):
    return ast.fix_missing_locations(ast.copy_location(e, old))


def _path(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def _text(e):
    return ast.unparse(e)


def _const(e, kind):
    return isinstance(e, ast.Constant) and isinstance(e.value, kind)


def _method(e, name):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == name and not e.keywords and (
        not any(isinstance(a, ast.Starred) for a in e.args))


class Idioms(ast.NodeTransformer):
    count = 0

    def fresh(self, kind):
        Idioms.count += 1
        return f'__{kind}_{Idioms.count}'

    def visit_Subscript(self, node):
        self.generic_visit(node)
        base, at = node.value, node.slice
        if isinstance(at, ast.BinOp) and isinstance(at.op, ast.Sub) and _const(at.right, int) and at.right.value > 0 \
                and _path(base) and _text(at.left) == f'len({_text(base)})':
            # xs[len(xs) - 1] -> xs[-1]
            node.slice = _new(ast.UnaryOp(ast.USub(), at.right), at)
        if isinstance(at, ast.Slice) and at.upper is not None and at.step is None and _path(base) and (
                _text(at.upper) == f'len({_text(base)})'):
            at.upper = None
        if isinstance(base, ast.Call) and _text(base.func) == 'os.path.split' and len(base.args) == 1 and _const(
                at, int) and at.value in (0, 1) and isinstance(node.ctx, ast.Load):
            base.func.attr = ('dirname', 'basename')[at.value]
            return base
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and _const(node.left, str):
            parts = node.left.value.split('%s')
            values = node.right.elts if isinstance(node.right, ast.Tuple) else [node.right]
            if len(parts) == len(values) + 1 and not any('%' in p for p in parts) and not any(
                    isinstance(v, (ast.Starred, ast.Dict)) for v in values):
                pieces = []
                for i, p in enumerate(parts):
                    if p:
                        pieces.append(ast.Constant(p))
                    if i < len(values):
                        pieces.append(ast.FormattedValue(values[i], -1, None))
                return _new(ast.JoinedStr(pieces), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1 or not isinstance(node.ops[0], (ast.Eq, ast.NotEq)):
            return node
        for a, b in ((node.left, node.comparators[0]), (node.comparators[0], node.left)):
            if not (isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice) and a.slice.step is None and _const(
                    b, str) and b.value):
                continue
            low, high, name = a.slice.lower, a.slice.upper, None
            if (low is None or _const(low, int) and low.value == 0) and _const(high, int) and high.value == len(b.value):
                name = 'startswith'
            elif high is None and isinstance(low, ast.UnaryOp) and isinstance(low.op, ast.USub) and _const(
                    low.operand, int) and low.operand.value == len(b.value):
                name = 'endswith'
            if name:
                new = ast.Call(ast.Attribute(a.value, name, ast.Load()), [b], [])
                if isinstance(node.ops[0], ast.NotEq):
                    new = ast.UnaryOp(ast.Not(), new)
                return _new(new, node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f, args = node.func, node.args
        if node.keywords:
            return node
        name = _text(f) if isinstance(f, (ast.Name, ast.Attribute)) and _path(f) else None
        if name == 'os.path.join' and args and isinstance(args[0], ast.Call) and isinstance(
                args[0].func, ast.Attribute) and _text(args[0].func) == name and not args[0].keywords:
            node.args = args[0].args + args[1:]
        elif (_method(node, 'removesuffix') or _method(node, 'removeprefix')) and _path(f.value) and len(
                args) == 1 and _const(args[0], str) and args[0].value:
            n = ast.Constant(len(args[0].value))
            first = f.attr == 'removeprefix'
            cut = ast.Slice(n, None) if first else ast.Slice(None, ast.UnaryOp(ast.USub(), n))
            test = ast.Call(ast.Attribute(f.value, 'startswith' if first else 'endswith', ast.Load()), args, [])
            return _new(ast.IfExp(test, ast.Subscript(copy.deepcopy(f.value), cut, ast.Load()),
                                  copy.deepcopy(f.value)), node)
        elif name == 'vars' and len(args) == 1 and not isinstance(args[0], ast.Starred):
            return _new(ast.Attribute(args[0], '__dict__', ast.Load()), node)
        elif name == 'sum' and len(args) == 1 and isinstance(args[0], (ast.GeneratorExp, ast.ListComp)) and _const(
                args[0].elt, int) and args[0].elt.value == 1:
            return _new(ast.Call(ast.Name('len', ast.Load()), [ast.ListComp(args[0].elt, args[0].generators)], []), node)
        elif name == 'dict' and len(args) == 1 and isinstance(args[0], ast.Call) and _text(args[0].func) == 'zip' and len(
                args[0].args) == 2 and not any(isinstance(a, ast.Starred) for a in args[0].args):
            k, v = self.fresh('key'), self.fresh('value')
            target = ast.Tuple([ast.Name(k, ast.Store()), ast.Name(v, ast.Store())], ast.Store())
            return _new(ast.DictComp(ast.Name(k, ast.Load()), ast.Name(v, ast.Load()), [
                ast.comprehension(target, args[0], [], 0)]), node)
        elif _method(node, 'join') and isinstance(f.value, ast.Attribute) and _path(f.value) and _text(
                f.value) == 'os.sep' and len(args) == 1 and isinstance(args[0], (ast.List, ast.Tuple)) and args[
                0].elts and not any(isinstance(a, ast.Starred) for a in args[0].elts):
            new = args[0].elts[0]
            for e in args[0].elts[1:]:
                new = ast.BinOp(ast.BinOp(new, ast.Add(), copy.deepcopy(f.value)), ast.Add(), e)
            return _new(new, node)
        elif name in ('list', 'tuple') and len(args) == 1 and isinstance(args[0], ast.Call) and _text(args[0].func) in (
                'product', 'itertools.product') and len(args[0].args) > 1 and not args[0].keywords and not any(
                isinstance(a, ast.Starred) for a in args[0].args):
            names = [self.fresh('each') for _ in args[0].args]
            kind = ast.ListComp if name == 'list' else ast.GeneratorExp
            new = kind(ast.Tuple([ast.Name(n, ast.Load()) for n in names], ast.Load()), [
                ast.comprehension(ast.Name(n, ast.Store()), a, [], 0) for n, a in zip(names, args[0].args)])
            return _new(new if name == 'list' else ast.Call(f, [new], []), node)
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and isinstance(node.elt, ast.Constant) and not node.generators[0].ifs:
            it = node.generators[0].iter
            if isinstance(it, ast.Call) and _text(it.func) == 'range' and len(it.args) == 1 and not it.keywords:
                return _new(ast.BinOp(ast.List([node.elt], ast.Load()), ast.Mult(), it.args[0]), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        target = copy.deepcopy(node.target)
        for x in ast.walk(target):
            if hasattr(x, 'ctx'):
                x.ctx = ast.Load()
        call = lambda method, a: _new(ast.Expr(ast.Call(ast.Attribute(copy.deepcopy(target), method, ast.Load()), [a], [])),
                                      node)
        v = node.value
        if isinstance(node.op, ast.Add) and isinstance(v, (ast.List, ast.ListComp)) and isinstance(target, ast.Attribute):
            if isinstance(v, ast.List) and len(v.elts) == 1 and not isinstance(v.elts[0], ast.Starred):
                return call('append', v.elts[0])
            return call('extend', v)
        if isinstance(node.op, ast.BitOr) and isinstance(v, ast.Set) and not any(
                isinstance(e, ast.Starred) for e in v.elts):
            return [call('add', e) for e in v.elts]
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if len(node.body) == 1 and isinstance(node.body[0], ast.Raise) and node.body[0].exc is not None and not node.orelse:
            e = node.body[0].exc
            e = e.func if isinstance(e, ast.Call) else e
            if isinstance(e, ast.Name) and e.id == 'AssertionError':
                return _new(ast.Assert(ast.UnaryOp(ast.Not(), node.test), None), node)
        return node

    def block(self, stmts):
        out = []
        i = 0
        while i < len(stmts):
            s = stmts[i]
            after = stmts[i + 1] if i + 1 < len(stmts) else None
            opened = self.opened(s, after)
            if opened is not None:
                out.append(opened)
                i += 2
                continue
            out.extend(self.defaulted(s) or self.reduced(s) or [s])
            i += 1
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(node, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, field, self.block(b))
        return node

    def opened(self, s, after):
        """f = open(...); try: ... finally: f.close() -> with open(...) as f: ..."""
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(
                s.value, ast.Call) and _text(s.value.func) == 'open' and isinstance(after, ast.Try) and not (
                after.handlers or after.orelse) and len(after.finalbody) == 1 and _text(after.finalbody[0]) == (
                f'{s.targets[0].id}.close()')):
            return None
        return _new(ast.With([ast.withitem(s.value, s.targets[0])], after.body), s)

    def defaulted(self, s):
        """d.setdefault(k, V).m(...) -> if k not in d: d[k] = V; d[k].m(...)"""
        e = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
        holder, inner = None, e
        if isinstance(s, ast.Expr):
            if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call)):
                return None
            holder, inner = e.func, e.func.value
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Subscript, ast.Attribute)) \
                and isinstance(s.targets[0].value, ast.Call):
            holder, inner = s.targets[0], s.targets[0].value
        if not (_method(inner, 'setdefault') and len(inner.args) == 2 and _path(inner.func.value)):
            return None
        d, (k, v) = inner.func.value, inner.args
        if not isinstance(v, (ast.List, ast.Dict, ast.Set, ast.Call)) or isinstance(v, ast.Call) and _text(v.func) not in (
                'set', 'list', 'dict'):
            return None
        before = []
        if not (_path(k) or isinstance(k, ast.Constant)):
            before = [ast.Assign([ast.Name(self.fresh('key'), ast.Store())], k)]
            k = ast.Name(before[0].targets[0].id, ast.Load())
        item = lambda ctx: ast.Subscript(copy.deepcopy(d), copy.deepcopy(k), ctx())
        test = ast.If(ast.Compare(copy.deepcopy(k), [ast.NotIn()], [copy.deepcopy(d)]),
                      [ast.Assign([item(ast.Store)], v)], [])
        if holder is not None:
            holder.value = item(ast.Load)
        else:
            s.value = item(ast.Load)
        return [_new(x, s) for x in before + [test, s]]

    def reduced(self, s):
        """x = reduce(f, xs, a) -> x = a; for y in xs: x = f(x, y)"""
        v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
        if not (isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and _text(v.func) in (
                'reduce', 'functools.reduce') and len(v.args) == 3 and not v.keywords):
            return None
        f, xs, start = v.args
        acc, each = self.fresh('acc'), self.fresh('each')
        name = lambda n, ctx=ast.Load: ast.Name(n, ctx())
        if isinstance(f, ast.Lambda):
            if len(f.args.args) != 2 or f.args.defaults or f.args.vararg or f.args.kwarg:
                return None
            names = dict(zip([a.arg for a in f.args.args], (acc, each)))
            for x in ast.walk(f.body):
                if isinstance(x, ast.Name) and x.id in names:
                    x.id = names[x.id]
            step = f.body
        elif _path(f):
            step = ast.Call(f, [name(acc), name(each)], [])
        else:
            return None
        s.value = name(acc)
        return [_new(x, s) for x in (
            ast.Assign([name(acc, ast.Store)], start),
            ast.For(name(each, ast.Store), xs, [ast.Assign([name(acc, ast.Store)], step)], []), s)]
