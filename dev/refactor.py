"""
Development aid: behaviour-preserving edits of single functions, made automatically, to see whether the rules stay
quiet. Not used by any check.

python3 dev/refactor.py [--kind KIND] [--undecided] AREA...
"""
import ast
import builtins
import copy
import multiprocessing
import os
import sys
import time
from collections import Counter, defaultdict

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILTINS = set(dir(builtins))


def find(tree, path):
    from dev.mutate import find as f
    return f(tree, path)


def names(node, kind):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, kind)}


def own(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            stack.extend(ast.iter_child_nodes(n))


def locals_of(fn):
    out = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    for a in (fn.args.vararg, fn.args.kwarg):
        if a:
            out.add(a.arg)
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in n.names}
        elif isinstance(n, ast.FunctionDef):
            out.add(n.name)
    return out


def stored(node):
    out = names(node, (ast.Store, ast.Del))
    for n in ast.walk(node):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in n.names}
    return out


def definite(stmts):
    """names certainly assigned after the statements"""
    out = set()
    for s in stmts:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if isinstance(s, ast.AnnAssign) and s.value is None:
                continue
            out |= stored(s)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            out |= stored(s)
        elif isinstance(s, ast.If):
            out |= definite(s.body) & definite(s.orelse)
        elif isinstance(s, ast.With):
            out |= definite(s.body)
    return out


def comp_targets(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.comprehension):
            out |= names(n.target, ast.Store)
    return out


def jumps(stmts):
    """whether the statements contain a jump out of them"""
    def visit(n, loop):
        if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Await)):
            return True
        if isinstance(n, (ast.Break, ast.Continue)) and not loop:
            return True
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            return False
        inner = loop or isinstance(n, (ast.For, ast.While))
        return any(visit(c, inner) for c in ast.iter_child_nodes(n))
    return any(visit(s, False) for s in stmts)


def blocks(fn):
    for n in [fn] + list(own(fn)):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not (
                    isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn):
                yield n, field, b


def terminates(stmts):
    last = stmts[-1]
    if isinstance(last, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(last, ast.If) and bool(last.orelse) and terminates(last.body) and terminates(last.orelse)


def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(ast.Not(), t)


def fresh_name(base, taken):
    while base in taken:
        base += '_'
    return base


class Variants:
    def __init__(self, source, path):
        self.source, self.path = source, path
        self.tree = ast.parse(source)
        self.fn = find(self.tree, path)

    def make(self, change):
        t = copy.deepcopy(self.tree)
        f = find(t, self.path)
        nodes = [f] + list(own(f))
        cls = find(t, self.path[:-1]) if len(self.path) > 1 else None
        if change(t, cls, f, nodes) is False:
            return None
        ast.fix_missing_locations(t)
        text = ast.unparse(t)
        try:
            compile(text, 'x', 'exec')
        except SyntaxError as e:
            print('BAD', self.path, e, file=sys.stderr)
            return None
        return text

    def all(self):
        fn = self.fn
        nodes = [fn] + list(own(fn))
        seen = set()
        for kind, text, change in self.changes(fn, nodes):
            out = self.make(change)
            if out is not None and out not in seen:
                seen.add(out)
                yield kind, text, out

    def changes(self, fn, nodes):
        locs = locals_of(fn)
        index = {id(n): i for i, n in enumerate(nodes)}
        is_method = len(self.path) > 1
        kinds = [ast.unparse(d) for d in fn.decorator_list]
        static = 'staticmethod' in kinds
        clsm = 'classmethod' in kinds
        generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))
        nested = {n.name for n in own(fn) if isinstance(n, ast.FunctionDef)}
        uses_super = any(isinstance(n, ast.Name) and n.id == 'super' for n in ast.walk(fn))
        first = fn.args.args[0].arg if fn.args.args and is_method and not static else None

        def helper(cls, tree, f, name, params, body):
            args = [a for a in params if a != first]
            a = ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in ([first] if first else []) + args],
                              kwonlyargs=[], kw_defaults=[], defaults=[])
            node = ast.FunctionDef(name=name, args=a, body=body, decorator_list=[ast.Name(
                'classmethod' if clsm else 'staticmethod', ast.Load())] if is_method and (clsm or static) else [])
            if is_method:
                cls.body.insert(cls.body.index(f) + 1, node)
                func = ast.Attribute(ast.Name(first or self.path[-2], ast.Load()), name, ast.Load())
            else:
                tree.body.append(node)
                func = ast.Name(name, ast.Load())
            return ast.Call(func, [ast.Name(x, ast.Load()) for x in args], [])

        # extraction of statements
        docs = 1 if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        for n, field, b in blocks(fn):
            for i in range(docs if b is fn.body else 0, len(b)):
                for j in range(i + 1, len(b) + 1):
                    if j - i > 4 and not (i <= docs and j == len(b)):
                        continue
                    part = b[i:j]
                    tail = j == len(b) and b is fn.body
                    if uses_super and any(isinstance(x, ast.Name) and x.id == 'super' for s in part for x in ast.walk(s)):
                        continue
                    if any(isinstance(x, ast.Name) and x.id in nested or isinstance(x, (ast.FunctionDef, ast.Global, ast.Nonlocal))
                           for s in part for x in ast.walk(s)):
                        continue
                    if generator and any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Return)) for s in part for x in ast.walk(s)):
                        continue
                    j_out = jumps(part)
                    loopjump = any(isinstance(x, (ast.Break, ast.Continue)) for s in part for x in ast.walk(s)) and jumps(
                        [s for s in part if not isinstance(s, ast.Return)])
                    if j_out and not (tail and not generator and not loopjump or tail and not generator):
                        continue
                    if j_out and any(isinstance(s, (ast.Break, ast.Continue)) for s in part):
                        continue
                    aug = {x.target.id for s in part for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
                    writes = set().union(*[stored(s) - (comp_targets(s)) for s in part]) & locs
                    reads = (set().union(*[names(s, ast.Load) for s in part]) | aug) & locs
                    if len(part) == 1 and isinstance(part[0], (ast.Import, ast.ImportFrom, ast.Pass)):
                        continue
                    if isinstance(part[0], ast.Return) and len(part) == 1 and isinstance(part[0].value, (ast.Name, ast.Constant, type(None))):
                        continue
                    inside = {id(x) for s in part for x in ast.walk(s)}
                    if tail:
                        outs = []
                    else:
                        outs = sorted(w for w in writes if any(
                            isinstance(x, ast.Name) and x.id == w and isinstance(x.ctx, ast.Load) and id(x) not in inside
                            for x in ast.walk(fn)))
                    d = definite(part)
                    before = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | definite(fn.body[:docs])
                    if b is fn.body:
                        before |= definite(b[:i])
                    else:
                        for k, s in enumerate(fn.body):
                            if any(x is n for x in ast.walk(s)):
                                before |= definite(fn.body[:k]) | definite(b[:i])
                        for x in ast.walk(fn):
                            if isinstance(x, ast.For) and any(y is n for y in ast.walk(x)):
                                before |= names(x.target, ast.Store)
                    if any(o not in d and o not in before for o in outs):
                        continue
                    # variables of the enclosing loops and the like which are read are parameters
                    params = sorted((reads - (writes - before) | {o for o in outs if o not in d}))
                    undefined = [p for p in params if p not in before and p in writes]
                    if undefined:
                        continue
                    if any(p in writes and p not in before for p in params):
                        continue
                    sofar, bad_read = set(before), False
                    for x in part:
                        if isinstance(x, (ast.If, ast.For, ast.While, ast.Try, ast.With)) and b is not fn.body:
                            pass
                        if (names(x, ast.Load) & writes) - sofar - stored(x):
                            bad_read = True
                        if isinstance(x, ast.Assign) and (names(x.value, ast.Load) & writes) - sofar - comp_targets(x):
                            bad_read = True
                        sofar |= definite([x])
                    if bad_read or (reads & (locs - writes)) - before - {first}:
                        continue
                    if any(x in writes and x not in before and x not in d and x in reads for x in writes):
                        continue

                    def change(tree, cls, f, ns, k=index[id(n)], field=field, i=i, j=j, params=params, outs=outs, tail=tail):
                        block = getattr(ns[k], field)
                        body = block[i:j]
                        if outs:
                            ret = ast.Name(outs[0], ast.Load()) if len(outs) == 1 else ast.Tuple(
                                [ast.Name(o, ast.Load()) for o in outs], ast.Load())
                            body = body + [ast.Return(ret)]
                        call = helper(cls, tree, f, '_extracted', params, body)
                        if tail:
                            new = ast.Return(call) if not generator and f.name not in ('__init__', '__setattr__') else ast.Expr(call)
                        elif outs:
                            target = ast.Name(outs[0], ast.Store()) if len(outs) == 1 else ast.Tuple(
                                [ast.Name(o, ast.Store()) for o in outs], ast.Store())
                            new = ast.Assign([target], call)
                        else:
                            new = ast.Expr(call)
                        block[i:j] = [new]
                    yield 'extract', f'{b[i].lineno}+{j - i}', change

        # extraction of expressions
        for n in nodes:
            for field, value in list(ast.iter_fields(n)):
                vals = value if isinstance(value, list) else [value]
                for pos, v in enumerate(vals):
                    if not isinstance(v, (ast.Call, ast.BoolOp, ast.Compare, ast.IfExp, ast.ListComp, ast.DictComp, ast.JoinedStr)):
                        continue
                    if field in ('decorator_list', 'annotation', 'returns') or isinstance(n, (ast.JoinedStr, ast.FormattedValue)):
                        continue
                    if n is fn:
                        continue
                    if any(isinstance(x, (ast.Yield, ast.NamedExpr, ast.Lambda)) or isinstance(x, ast.Name) and x.id in nested | {'super'}
                           for x in ast.walk(v)):
                        continue
                    free = names(v, ast.Load) - comp_targets(v)
                    params = sorted(x for x in free if x in locs or x not in BUILTINS and x in comp_targets(fn))

                    def change(tree, cls, f, ns, k=index[id(n)], field=field, pos=pos, lst=isinstance(value, list), params=params):
                        node = ns[k]
                        old = getattr(node, field)
                        e = old[pos] if lst else old
                        call = helper(cls, tree, f, '_extracted', params, [ast.Return(e)])
                        if lst:
                            old[pos] = call
                        else:
                            setattr(node, field, call)
                    yield 'extract-expr', f'{v.lineno}: {ast.unparse(v)[:50]}', change

        for n in nodes:
            k = index[id(n)]
            line = getattr(n, 'lineno', 0)
            if isinstance(n, ast.If):
                def swap(tree, cls, f, ns, k=k):
                    m = ns[k]
                    m.test = negate(m.test)
                    m.body, m.orelse = m.orelse or [ast.Pass()], m.body
                yield 'swap-if', str(line), swap
                if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
                    def nest(tree, cls, f, ns, k=k):
                        m = ns[k]
                        v = m.test.values
                        m.body = [ast.If(v[-1], m.body, [])]
                        m.test = v[0] if len(v) == 2 else ast.BoolOp(ast.And(), v[:-1])
                    yield 'nest-and', str(line), nest
                if isinstance(n.test, ast.BoolOp):
                    def demorgan(tree, cls, f, ns, k=k):
                        m = ns[k]
                        op = ast.Or() if isinstance(m.test.op, ast.And) else ast.And()
                        m.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [negate(x) for x in m.test.values]))
                    yield 'demorgan', str(line), demorgan
                if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or) and not n.orelse and terminates(n.body):
                    def split(tree, cls, f, ns, k=k):
                        m = ns[k]
                        v = m.test.values
                        m.test = v[0]
                        m.orelse = [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.Or(), v[1:]), copy.deepcopy(m.body), [])]
                    yield 'split-or', str(line), split

                def flag(tree, cls, f, ns, k=k):
                    m = ns[k]
                    for x in ns:
                        for fl in ('body', 'orelse', 'finalbody'):
                            b = getattr(x, fl, None)
                            if isinstance(b, list) and m in b:
                                i = b.index(m)
                                if fl == 'orelse' and isinstance(x, ast.If):
                                    pass
                                b.insert(i, ast.Assign([ast.Name('condition_', ast.Store())], m.test))
                                m.test = ast.Name('condition_', ast.Load())
                                return
                    return False
                yield 'flag', str(line), flag
            if isinstance(n, ast.IfExp):
                def swe(tree, cls, f, ns, k=k):
                    m = ns[k]
                    m.test = negate(m.test)
                    m.body, m.orelse = m.orelse, m.body
                yield 'swap-ifexp', str(line), swe
            if isinstance(n, ast.Call):
                f0 = n.func
                if isinstance(f0, ast.Name) and f0.id == 'isinstance' and isinstance(n.args[1], ast.Tuple):
                    def isi(tree, cls, f, ns, k=k):
                        m = ns[k]
                        new = ast.BoolOp(ast.Or(), [ast.Call(ast.Name('isinstance', ast.Load()), [copy.deepcopy(m.args[0]), x], [])
                                                    for x in m.args[1].elts])
                        replace(f, m, new)
                    yield 'isinstance-or', str(line), isi
                if isinstance(f0, ast.Attribute) and f0.attr == 'append' and len(n.args) == 1:
                    def ap(tree, cls, f, ns, k=k):
                        m = ns[k]
                        m.func.attr = 'extend'
                        m.args[0] = ast.List([m.args[0]], ast.Load())
                    if True:
                        yield 'append-extend', str(line), ap
                if isinstance(f0, ast.Attribute) and f0.attr == 'items' and False:
                    pass
            if isinstance(n, ast.JoinedStr):
                def js(tree, cls, f, ns, k=k):
                    m = ns[k]
                    fmt, args = '', []
                    for v in m.values:
                        if isinstance(v, ast.Constant):
                            fmt += v.value.replace('{', '{{').replace('}', '}}')
                        else:
                            if v.conversion != -1 or v.format_spec:
                                return False
                            fmt += '{}'
                            args.append(v.value)
                    replace(f, m, ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, []))
                yield 'format', str(line), js
            if isinstance(n, ast.For) and not n.orelse:
                if not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
                    def wl(tree, cls, f, ns, k=k):
                        m = ns[k]
                        it = ast.Assign([ast.Name('it_', ast.Store())], ast.Call(ast.Name('list', ast.Load()), [m.iter], []))
                        i0 = ast.Assign([ast.Name('i_', ast.Store())], ast.Constant(0))
                        body = [ast.Assign([m.target], ast.Subscript(ast.Name('it_', ast.Load()), ast.Name('i_', ast.Load()), ast.Load())),
                                ast.AugAssign(ast.Name('i_', ast.Store()), ast.Add(), ast.Constant(1))] + m.body
                        w = ast.While(ast.Compare(ast.Name('i_', ast.Load()), [ast.Lt()], [ast.Call(ast.Name('len', ast.Load()), [ast.Name('it_', ast.Load())], [])]), body, [])
                        put(ns, m, [it, i0, w])
                    yield 'for-while', str(line), wl

                def en(tree, cls, f, ns, k=k):
                    m = ns[k]
                    m.iter = ast.Call(ast.Name('enumerate', ast.Load()), [m.iter], [])
                    m.target = ast.Tuple([ast.Name('_i', ast.Store()), m.target], ast.Store())
                yield 'enumerate', str(line), en

                def ri(tree, cls, f, ns, k=k):
                    m = ns[k]
                    m.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [ast.Name('it_', ast.Load())], [])], [])
                    it = ast.Assign([ast.Name('it_', ast.Store())], ast.Call(ast.Name('list', ast.Load()), [ns[k].iter.args[0] if False else None], []))
                    return False

                def guard(tree, cls, f, ns, k=k):
                    m = ns[k]
                    if len(m.body) == 1 and isinstance(m.body[0], ast.If) and not m.body[0].orelse:
                        i = m.body[0]
                        m.body = [ast.If(negate(i.test), [ast.Continue()], [])] + i.body
                        return
                    return False
                yield 'guard-continue', str(line), guard
                if isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.iter, ast.Call) and isinstance(
                        n.iter.func, ast.Attribute) and n.iter.func.attr == 'items':
                    def ki(tree, cls, f, ns, k=k):
                        m = ns[k]
                        d = m.iter.func.value
                        if not isinstance(d, (ast.Name, ast.Attribute)):
                            return False
                        a, b = m.target.elts
                        m.iter = d
                        m.target = a
                        m.body.insert(0, ast.Assign([b], ast.Subscript(copy.deepcopy(d), ast.Name(a.id, ast.Load()), ast.Load())))
                    yield 'items-keys', str(line), ki
                # loop with append -> comprehension
                def comp(tree, cls, f, ns, k=k):
                    m = ns[k]
                    body, conds = m.body, []
                    while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
                        conds.append(body[0].test)
                        body = body[0].body
                    if len(body) != 1 or not isinstance(body[0], ast.Expr) or not isinstance(body[0].value, ast.Call):
                        return False
                    c = body[0].value
                    if not (isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name)):
                        return False
                    lc = ast.ListComp(c.args[0], [ast.comprehension(m.target, m.iter, conds, 0)])
                    put(ns, m, [ast.Expr(ast.Call(ast.Attribute(c.func.value, 'extend', ast.Load()), [lc], []))])
                yield 'loop-comp', str(line), comp
            if isinstance(n, (ast.Assign, ast.Return, ast.Expr)) and n.value is not None:
                v = n.value
                # temporaries
                if not isinstance(v, (ast.Name, ast.Constant)) and not isinstance(v, (ast.Yield, ast.YieldFrom)) and not (
                        isinstance(n, ast.Expr)):
                    def tmp(tree, cls, f, ns, k=k):
                        m = ns[k]
                        a = ast.Assign([ast.Name('tmp_', ast.Store())], m.value)
                        m.value = ast.Name('tmp_', ast.Load())
                        put(ns, m, [a, m])
                    yield 'temp', str(line), tmp
                if isinstance(v, ast.Call) and not isinstance(v.func, ast.Call) and simple(v.func):
                    if v.args and not isinstance(v.args[0], (ast.Name, ast.Constant, ast.Starred)):
                        def ta(tree, cls, f, ns, k=k):
                            m = ns[k]
                            a = ast.Assign([ast.Name('tmp_', ast.Store())], m.value.args[0])
                            m.value.args[0] = ast.Name('tmp_', ast.Load())
                            put(ns, m, [a, m])
                        yield 'temp-arg', str(line), ta
                    elif not v.args and v.keywords and v.keywords[0].arg and not isinstance(v.keywords[0].value, (ast.Name, ast.Constant)):
                        def tk(tree, cls, f, ns, k=k):
                            m = ns[k]
                            a = ast.Assign([ast.Name('tmp_', ast.Store())], m.value.keywords[0].value)
                            m.value.keywords[0].value = ast.Name('tmp_', ast.Load())
                            put(ns, m, [a, m])
                        yield 'temp-arg', str(line), tk
                if isinstance(v, ast.IfExp) and not isinstance(n, ast.Expr):
                    def ie(tree, cls, f, ns, k=k):
                        m = ns[k]
                        e = m.value
                        a, b = copy.deepcopy(m), copy.deepcopy(m)
                        a.value, b.value = e.body, e.orelse
                        put(ns, m, [ast.If(e.test, [a], [b])])
                    yield 'ifexp-if', str(line), ie
                if isinstance(v, (ast.ListComp, ast.DictComp)) and len(v.generators) == 1 and not isinstance(n, ast.Expr):
                    def cl(tree, cls, f, ns, k=k):
                        m = ns[k]
                        c = m.value
                        g = c.generators[0]
                        if names(g.target, ast.Store) & locals_of(f):
                            return False
                        if isinstance(c, ast.ListComp):
                            st = ast.Expr(ast.Call(ast.Attribute(ast.Name('out_', ast.Load()), 'append', ast.Load()), [c.elt], []))
                            init = ast.List([], ast.Load())
                        else:
                            st = ast.Assign([ast.Subscript(ast.Name('out_', ast.Load()), c.key, ast.Store())], c.value)
                            init = ast.Dict([], [])
                        body = [st]
                        for cond in reversed(g.ifs):
                            body = [ast.If(cond, body, [])]
                        m.value = ast.Name('out_', ast.Load())
                        put(ns, m, [ast.Assign([ast.Name('out_', ast.Store())], init), ast.For(g.target, g.iter, body, []), m])
                    yield 'comp-loop', str(line), cl
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('any', 'all') and isinstance(
                        n, ast.Return) and isinstance(v.args[0], ast.GeneratorExp):
                    def aa(tree, cls, f, ns, k=k):
                        m = ns[k]
                        which = m.value.func.id == 'any'
                        g = m.value.args[0].generators[0]
                        t = m.value.args[0].elt
                        body = [ast.If(t if which else negate(t), [ast.Return(ast.Constant(which))], [])]
                        for cond in reversed(g.ifs):
                            body = [ast.If(cond, body, [])]
                        put(ns, m, [ast.For(g.target, g.iter, body, []), ast.Return(ast.Constant(not which))])
                    yield 'any-loop', str(line), aa
                if isinstance(n, ast.Return) and isinstance(v, ast.BoolOp) and False:
                    pass
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
                def au(tree, cls, f, ns, k=k):
                    m = ns[k]
                    t = copy.deepcopy(m.target)
                    for x in ast.walk(t):
                        if hasattr(x, 'ctx'):
                            x.ctx = ast.Load()
                    if not isinstance(t, ast.Name):
                        return False
                    put(ns, m, [ast.Assign([m.target], ast.BinOp(t, ast.Add(), m.value))])
                yield 'augassign', str(line), au
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and False:
                pass
        # blocks
        for n, field, b in blocks(fn):
            k = index[id(n)]
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and terminates(s.body) and i + 1 < len(b):
                    def el(tree, cls, f, ns, k=k, field=field, i=i):
                        block = getattr(ns[k], field)
                        block[i].orelse = block[i + 1:]
                        del block[i + 1:]
                    yield 'else', str(s.lineno), el
                if isinstance(s, ast.If) and s.orelse and terminates(s.body):
                    def un(tree, cls, f, ns, k=k, field=field, i=i):
                        block = getattr(ns[k], field)
                        rest = block[i].orelse
                        block[i].orelse = []
                        block[i + 1:i + 1] = rest
                    yield 'un-else', str(s.lineno), un
                if isinstance(s, ast.If) and not s.orelse and i == len(b) - 1 and b is fn.body and not generator or (
                        isinstance(s, ast.If) and not s.orelse and i == len(b) - 1 and isinstance(n, ast.For) and field == 'body'):
                    def ear(tree, cls, f, ns, k=k, field=field, i=i, loop=isinstance(n, ast.For)):
                        block = getattr(ns[k], field)
                        m = block[i]
                        block[i:] = [ast.If(negate(m.test), [ast.Continue() if loop else ast.Return(None)], [])] + m.body
                    yield 'early', str(s.lineno), ear
                # inline of a temporary
                if i + 1 < len(b) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    name = s.targets[0].id
                    uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == name]
                    nxt = b[i + 1]
                    if len(uses) == 2 and first_evaluated(nxt, name):
                        def inl(tree, cls, f, ns, k=k, field=field, i=i, name=name):
                            block = getattr(ns[k], field)
                            val = block[i].value
                            for x in ast.walk(block[i + 1]):
                                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                                    replace(block[i + 1], x, val)
                            del block[i]
                        yield 'inline', f'{s.lineno} {name}', inl
                # independent assignments in another order
                if i + 1 < len(b):
                    t = b[i + 1]
                    if swappable(s, t):
                        def sw(tree, cls, f, ns, k=k, field=field, i=i):
                            block = getattr(ns[k], field)
                            block[i], block[i + 1] = block[i + 1], block[i]
                        yield 'reorder', f'{s.lineno}', sw
        # names
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
        todo = [x for x in locs - params - nested if not any(
            isinstance(n, (ast.Import, ast.ImportFrom)) and x in stored(n) for n in nodes)]
        if todo:
            def ren(tree, cls, f, ns, todo=todo):
                for x in ast.walk(f):
                    if isinstance(x, ast.Name) and x.id in todo:
                        x.id += '_renamed'
                    elif isinstance(x, ast.ExceptHandler) and x.name in todo:
                        x.name += '_renamed'
            yield 'rename', '', ren
        # local alias of an attribute of self which is read at least twice and never assigned
        if first and not clsm:
            attrs = Counter(n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name)
                            and n.value.id == first and isinstance(n.ctx, ast.Load))
            sets = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
            cls_node = find(self.tree, self.path[:-1])
            methods = {m.name for m in cls_node.body if isinstance(m, ast.FunctionDef)}
            outer = set()
            for m in cls_node.body:
                if isinstance(m, ast.FunctionDef) and m.name != '__init__':
                    outer |= {n.attr for n in ast.walk(m) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
            for a, c in attrs.items():
                if a in sets or a in methods or a in outer or fn.name == '__init__':
                    continue
                uncond = any(isinstance(x, ast.Attribute) and x.attr == a for s in fn.body[docs:docs + 1] if not isinstance(s, (ast.For, ast.While, ast.Try, ast.If)) for x in ast.walk(s))
                own_class = any(isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == a for x in cls_node.body) or \
                    any(isinstance(m, ast.FunctionDef) and m.name == '__init__' and any(
                        isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Store) for x in ast.walk(m)) for m in cls_node.body)
                if not (uncond or own_class):
                    continue

                def al(tree, cls, f, ns, a=a):
                    for x in [y for y in ast.walk(f) if isinstance(y, ast.Attribute) and y.attr == a and isinstance(
                            y.value, ast.Name) and y.value.id == first]:
                        replace(f, x, ast.Name('alias_', ast.Load()))
                    f.body.insert(docs, ast.Assign([ast.Name('alias_', ast.Store())], ast.Attribute(
                        ast.Name(first, ast.Load()), a, ast.Load())))
                yield 'alias', a, al


def simple(f):
    if isinstance(f, ast.Name):
        return True
    return isinstance(f, ast.Attribute) and simple(f.value)


def put(ns, old, new):
    for x in ns:
        for fl in ('body', 'orelse', 'finalbody'):
            b = getattr(x, fl, None)
            if isinstance(b, list) and any(y is old for y in b):
                i = [y is old for y in b].index(True)
                b[i:i + 1] = new
                return
    raise KeyError


def replace(root, old, new):
    for p in ast.walk(root):
        for field, value in ast.iter_fields(p):
            if value is old:
                setattr(p, field, new)
                return
            if isinstance(value, list):
                for i, v in enumerate(value):
                    if v is old:
                        value[i] = new
                        return


def first_evaluated(stmt, name):
    """whether the name is what the statement evaluates before anything which could have an effect"""
    if isinstance(stmt, (ast.For,)):
        e = stmt.iter
    elif isinstance(stmt, ast.If):
        e = stmt.test
    elif isinstance(stmt, (ast.Return, ast.Assign, ast.Expr)) and stmt.value is not None:
        e = stmt.value
    else:
        return False
    while True:
        if isinstance(e, ast.Name):
            return e.id == name
        if isinstance(e, ast.Call):
            if isinstance(e.func, (ast.Name,)) or isinstance(e.func, ast.Attribute) and simple(e.func) and not any(
                    isinstance(x, ast.Name) and x.id == name for x in ast.walk(e.func)):
                if e.args:
                    e = e.args[0]
                elif e.keywords:
                    e = e.keywords[0].value
                else:
                    return False
                continue
            e = e.func
        elif isinstance(e, ast.Attribute):
            e = e.value
        elif isinstance(e, ast.Compare):
            e = e.left
        elif isinstance(e, ast.BoolOp):
            e = e.values[0]
        elif isinstance(e, ast.UnaryOp):
            e = e.operand
        elif isinstance(e, ast.Subscript):
            e = e.value
        elif isinstance(e, ast.IfExp):
            e = e.test
        else:
            return False


def inert(e):
    return not any(isinstance(x, (ast.Call, ast.Subscript, ast.Yield, ast.BinOp, ast.Await, ast.Attribute)) and not (
        isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)) for x in ast.walk(e))


def swappable(s, t):
    def parts(x):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute)):
            return x.targets[0], x.value
        if isinstance(x, ast.AnnAssign) and x.value is not None:
            return x.target, x.value
        return None
    a, b = parts(s), parts(t)
    if a is None or b is None:
        return False
    if not inert(a[1]) and not inert(b[1]):
        return False
    # one of them is inert: it may move over the other one when neither reads or writes what the other writes
    ta, tb = ast.unparse(a[0]), ast.unparse(b[0])
    if ta == tb:
        return False
    for (target, value), other in ((a, b), (b, a)):
        text = ast.unparse(target)
        for x in list(ast.walk(other[1])) + list(ast.walk(other[0])):
            if isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) == text:
                return False
    calls_a, calls_b = not inert(a[1]), not inert(b[1])
    # a call may read or write any attribute
    for calls, other in ((calls_a, b), (calls_b, a)):
        if calls and (isinstance(other[0], ast.Attribute) or any(isinstance(x, ast.Attribute) for x in ast.walk(other[1]))):
            return False
    return True


# ---- driver

def work(job):
    root, area, entry, rel, path, kind, text, source = job
    from rules.areas import AREAS
    from rules.lib import Program, Specs
    import time
    from analyzer.conform import Conform
    Conform.TOTAL = time.process_time() + 200
    started = time.process_time()
    try:
        prog = Program(root, overrides={rel: source})
        r = AREAS[area]().run(Specs(prog))
    except BaseException as e:
        return job[:7], 'CRASH', [f'{type(e).__name__}: {e}'], source
    if time.process_time() - started > 60:
        print('SLOW', round(time.process_time() - started), job[2:3], job[5:7], flush=True)
    if r.violations:
        return job[:7], 'VIOLATION', [repr(v)[:700] for v in r.violations], source
    if r.undecided:
        return job[:7], 'UNDECIDED', [v[:500] for v in r.undecided], source
    return job[:7], 'ok', [], None


def jobs(root, areas, only):
    from rules.areas import AREAS
    from rules.lib import Program
    prog = Program(root)
    for area in areas:
        for p in AREAS[area]().pairs:
            qual = p.entry.split(':')[0]
            if p.entry.endswith(':setter'):
                continue
            f = prog.funcs[qual]
            rel = f.module.relpath
            path = qual[len(f.module.name) + 1:].split('.')
            if find(f.module.tree, path) is None:
                continue
            for kind, text, out in Variants(f.module.source, path).all():
                if only and kind not in only:
                    continue
                yield root, area, qual, rel, path, kind, text, out


def combined(job):
    """several random edits of one function after each other"""
    import random
    root, area, qual, rel, path, seed, steps = job
    rnd = random.Random(seed)
    with open(os.path.join(root, rel)) as f:
        source = f.read()
    done = []
    for n in range(steps):
        by_kind = defaultdict(list)
        try:
            for kind, text, out in Variants(source, path).all():
                by_kind[kind].append((text, out))
        except Exception as e:
            print('tool', e)
            break
        if not by_kind:
            break
        kind = rnd.choice(sorted(by_kind))
        text, source = rnd.choice(by_kind[kind])
        source = source.replace('_extracted', f'_part_{n}').replace('tmp_', f'temp{n}x').replace('it_', f'seq{n}x').replace(
            ' i_', f' n{n}x').replace('out_', f'out{n}x') if False else rename_all(source, n)
        done.append(f'{kind} {text}')
    return work((root, area, qual, rel, path, 'combined', '; '.join(done), source))


def rename_all(source, n):
    import re
    return re.sub(r'\b(_extracted|tmp_|it_|i_|out_|condition_|alias_|_i)\b', lambda m: m.group(1) + f'_{n}', source)


def main():
    args = sys.argv[1:]
    if '--combined' in args:
        i = args.index('--combined')
        count = int(args[i + 1])
        del args[i:i + 2]
    else:
        count = 0
    only = []
    while '--kind' in args:
        i = args.index('--kind')
        only.append(args[i + 1])
        del args[i:i + 2]
    root = os.environ.get('REPO', '/repo')
    from rules.areas import AREAS
    out = os.environ.get('OUT', '/tmp/refactor')
    if '--redo' in args:
        import json
        with open(f'{out}/jobs.json') as f:
            todo = [tuple(j) for j in json.load(f)]
    elif count:
        import random
        from rules.lib import Program
        root = os.environ.get('REPO', '/repo')
        prog = Program(root)
        places = []
        for area in args or list(AREAS):
            for pr in AREAS[area]().pairs:
                q = pr.entry
                if q.endswith(':setter'):
                    continue
                f = prog.funcs[q]
                path = q[len(f.module.name) + 1:].split('.')
                if find(f.module.tree, path) is not None:
                    places.append((root, area, q, f.module.relpath, path))
        rnd = random.Random(int(os.environ.get('SEED', '1')))
        todo = [rnd.choice(places) + (rnd.random(), rnd.randint(2, 6)) for _ in range(count)]
    else:
        todo = list(jobs(root, args or list(AREAS), only))
    print(len(todo), 'variants', flush=True)
    stats = defaultdict(Counter)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    n = 0
    bad = []
    with multiprocessing.Pool(8, maxtasksperchild=50) as pool:
        for job, verdict, lines, source in pool.imap_unordered(combined if count else work, todo, chunksize=4):
            stats[job[5]][verdict] += 1
            if verdict != 'ok':
                n += 1
                bad.append(list(job) + [source])
                with open(f'{out}/{n}.py', 'w') as f:
                    f.write(source)
                with open(f'{out}/{n}.txt', 'w') as f:
                    f.write(f'{verdict} {job[1]} {job[2]} {job[5]} {job[6]}\n' + '\n'.join(lines))
                if verdict != 'UNDECIDED':
                    print(n, verdict, job[1], job[2].removeprefix('pyfileconf.'), job[5], job[6], '::', lines[0][:150].replace('\n', ' '), flush=True)
    import json
    with open(f'{out}/jobs.json', 'w') as f:
        json.dump(bad, f)
    for kind, c in sorted(stats.items()):
        print(kind, dict(c))


if __name__ == '__main__':
    main()
