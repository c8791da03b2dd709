"""Development aid: mutants of single functions, to see what the rules notice. Not used by any check."""
import ast
import copy
import sys


def find(tree, path):
    node = tree
    for name in path:
        for child in node.body:
            if getattr(child, 'name', None) == name:
                if isinstance(child, ast.FunctionDef) and any(
                        ast.unparse(d).endswith('.setter') for d in child.decorator_list):
                    continue
                node = child
                break
        else:
            return None
    return node


def mutants(source, path):
    """yields (description, new source) of mutations of the function at the path of names"""
    tree = ast.parse(source)
    fn = find(tree, path)
    nodes = list(ast.walk(fn))
    count = len(nodes)

    def variant(i, change):
        t = ast.parse(source)
        f = find(t, path)
        n = list(ast.walk(f))[i]
        r = change(n, f)
        if r is False:
            return None
        ast.fix_missing_locations(t)
        return ast.unparse(t)

    for i, n in enumerate(nodes):
        line = getattr(n, 'lineno', '?')
        # statements
        for field in ('body', 'orelse', 'finalbody'):
            block = getattr(n, field, None)
            if not isinstance(block, list) or not block or not isinstance(block[0], ast.stmt):
                continue
            for j, s in enumerate(block):
                if isinstance(s, (ast.Import, ast.ImportFrom)) or isinstance(s, ast.Expr) and isinstance(
                        s.value, ast.Constant) or isinstance(s, ast.Assert):
                    continue
                text = ast.unparse(s).splitlines()[0][:60]
                if 'logger.' in text:
                    continue

                def drop(m, f, field=field, j=j):
                    b = getattr(m, field)
                    b[j] = ast.Pass()
                yield f'{s.lineno}: drop `{text}`', variant(i, drop)
                if j + 1 < len(block) and not isinstance(s, ast.Return):
                    def swap(m, f, field=field, j=j):
                        b = getattr(m, field)
                        b[j], b[j + 1] = b[j + 1], b[j]
                    yield f'{s.lineno}: swap `{text}` with the next', variant(i, swap)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            def neg(m, f):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            yield f'{line}: negate `{ast.unparse(n.test)[:50]}`', variant(i, neg)
            for val in (True, False):
                if isinstance(n, ast.While):
                    continue
                def const(m, f, val=val):
                    m.test = ast.Constant(val)
                yield f'{line}: always {val} `{ast.unparse(n.test)[:50]}`', variant(i, const)
        if isinstance(n, ast.BoolOp):
            def flip(m, f):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield f'{line}: and/or `{ast.unparse(n)[:50]}`', variant(i, flip)
            for k in range(len(n.values)):
                def less(m, f, k=k):
                    del m.values[k]
                yield f'{line}: without operand {k} `{ast.unparse(n)[:50]}`', variant(i, less)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                def fl(m, f):
                    m.value = not m.value
                yield f'{line}: {n.value} flipped', variant(i, fl)
            elif isinstance(n.value, int):
                def inc(m, f):
                    m.value += 1
                yield f'{line}: {n.value}+1', variant(i, inc)
            elif isinstance(n.value, str) and len(n.value) < 12 and n.value:
                def st(m, f):
                    m.value = m.value + 'x'
                yield f'{line}: string {n.value!r} changed', variant(i, st)
        if isinstance(n, ast.Compare):
            swap = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
                    ast.IsNot: ast.Is, ast.Lt: ast.LtE, ast.Gt: ast.GtE, ast.LtE: ast.Lt, ast.GtE: ast.Gt}
            def cmp(m, f):
                m.ops[0] = swap[type(m.ops[0])]()
            yield f'{line}: compare `{ast.unparse(n)[:50]}`', variant(i, cmp)
        if isinstance(n, ast.Call):
            if ast.unparse(n.func).startswith('logger.'):
                continue
            for k in range(len(n.keywords)):
                def kw(m, f, k=k):
                    del m.keywords[k]
                yield f'{line}: without keyword {n.keywords[k].arg} `{ast.unparse(n)[:60]}`', variant(i, kw)
            if len(n.args) >= 2:
                def sw(m, f):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                yield f'{line}: swapped args `{ast.unparse(n)[:60]}`', variant(i, sw)
            if len(n.args) >= 1:
                def da(m, f):
                    del m.args[-1]
                yield f'{line}: last arg dropped `{ast.unparse(n)[:60]}`', variant(i, da)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            def rn(m, f):
                m.value = None
            yield f'{line}: return nothing', variant(i, rn)
        if isinstance(n, ast.Dict) and len(n.values) >= 2:
            def rd(m, f):
                m.keys.reverse()
                m.values.reverse()
            yield f'{line}: dict reversed `{ast.unparse(n)[:50]}`', variant(i, rd)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in range(len(n.generators)):
                for k in range(len(n.generators[g].ifs)):
                    def nf(m, f, g=g, k=k):
                        del m.generators[g].ifs[k]
                    yield f'{line}: without filter `{ast.unparse(n)[:60]}`', variant(i, nf)
