"""
Loops which count or step through a sequence by hand are written as loops over the sequence, so that the analysis meets
one form only. Only where this certainly is the same: the sequence and the counter are not assigned in the loop.
"""
import ast
import copy

from .idioms import Idioms


def walk(node):
    return ast.walk(node) if not isinstance(node, list) else (x for s in node for x in ast.walk(s))


def is_name(e, name=None):
    return isinstance(e, ast.Name) and (name is None or e.id == name)


def path_of(e):
    """x or x.y.z"""
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def stores(nodes):
    return {x.id for x in walk(nodes) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def loads(nodes, name):
    return sum(1 for x in walk(nodes) if is_name(x, name) and isinstance(x.ctx, ast.Load))


def attr_stores(nodes):
    return {ast.unparse(x) for x in walk(nodes) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort', 'update', 'add', 'discard'}


def constant_sequence(seq, body):
    """the sequence is neither assigned nor changed by a method in the body"""
    if not path_of(seq):
        return False
    text = ast.unparse(seq)
    root = text.split('.')[0]
    if root in stores(body) or any(text == t or text.startswith(t + '.') for t in attr_stores(body)):
        return False
    for x in walk(body):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and ast.unparse(
                x.func.value) == text:
            return False
        if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and ast.unparse(x.value) == text:
            return False
    return True


class Elements(ast.NodeTransformer):
    """seq[i] -> element"""

    def __init__(self, seq, index, element):
        self.seq, self.index, self.element = ast.unparse(seq), index, element

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load) and is_name(node.slice, self.index) and ast.unparse(node.value) == self.seq:
            return ast.copy_location(ast.Name(self.element, ast.Load()), node)
        return self.generic_visit(node)


def len_of(e):
    if isinstance(e, ast.Call) and is_name(e.func, 'len') and len(e.args) == 1 and not e.keywords:
        return e.args[0]
    return None


def leaves(body, kind):
    """whether a break or continue of the loop itself is in its body"""
    for s in body:
        if isinstance(s, kind):
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        blocks = [getattr(s, f, []) for f in ('body', 'orelse', 'finalbody')] + [
            h.body for h in getattr(s, 'handlers', ())] + [c.body for c in getattr(s, 'cases', ())]
        if isinstance(s, (ast.For, ast.While)):
            blocks = [s.orelse]
        if any(leaves(b, kind) for b in blocks if isinstance(b, list)):
            return True
    return False


def ends_with(block, y):
    """whether nothing follows the yield in an iteration of the loop it is in"""
    for i, s in enumerate(block):
        if not any(x is y for x in walk([s])):
            continue
        if isinstance(s, ast.Expr):
            return False                    # not in a loop
        if isinstance(s, (ast.For, ast.While)):
            return last_in(s.body, y) or ends_with(s.body, y)
        return any(ends_with(b, y) for b in (getattr(s, 'body', []), getattr(s, 'orelse', [])))
    return False


def last_in(block, y):
    if not block:
        return False
    s = block[-1]
    if isinstance(s, ast.Expr):
        return s.value is y
    return isinstance(s, ast.If) and (last_in(s.body, y) or last_in(s.orelse, y))


def place_yields(block, loop):
    out = []
    for s in block:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            value = s.value.value or ast.Constant(None)
            out.append(ast.Assign([copy.deepcopy(loop.target)], value))
            out += copy.deepcopy(loop.body)
            continue
        for f in ('body', 'orelse'):
            if isinstance(getattr(s, f, None), list):
                setattr(s, f, place_yields(getattr(s, f), loop))
        out.append(s)
    return out


def simple_generators(tree):
    """the generators of a module which can be put in the place where they are used: (class, name) -> definition"""
    out = {}
    for cls, body in [(None, tree.body)] + [(c.name, c.body) for c in tree.body if isinstance(c, ast.ClassDef)]:
        for f in body:
            if isinstance(f, ast.FunctionDef) and not f.decorator_list:
                g = as_generator(f)
                if g is not None and (cls is None or g.args.args):
                    out[(cls, f.name)] = g
    return out


def as_generator(f):
    kinds = (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.AsyncFunctionDef, ast.Await)
    if any(isinstance(x, kinds) for x in walk(f.body)):
        return None
    f = copy.deepcopy(f)
    yields = [x for x in walk(f.body) if isinstance(x, (ast.Yield, ast.YieldFrom))]
    if not yields:
        last = f.body[-1]
        if not (isinstance(last, ast.Return) and isinstance(last.value, ast.GeneratorExp)) or any(
                isinstance(x, ast.Return) and x is not last for x in walk(f.body)):
            return None
        g = last.value
        inner = [ast.Expr(ast.Yield(g.elt))]
        for c in reversed(g.generators):
            for test in reversed(c.ifs):
                inner = [ast.If(test, inner, [])]
            inner = [ast.For(c.target, c.iter, inner, [])]
        f.body = f.body[:-1] + [ast.fix_missing_locations(ast.copy_location(inner[0], last))]
        return f
    plain = [s.value for s in walk(f.body) if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom))]
    if len(plain) != len(yields) or any(isinstance(x, (ast.Return, ast.Try, ast.With, ast.While)) for x in walk(f.body)):
        return None

    class Froms(ast.NodeTransformer):
        def visit_Expr(self, node):
            if isinstance(node.value, ast.YieldFrom):
                x = ast.Name('__each', ast.Load())
                return ast.fix_missing_locations(ast.copy_location(ast.For(
                    ast.Name('__each', ast.Store()), node.value.value, [ast.Expr(ast.Yield(x))], []), node))
            return node
    return Froms().visit(f)


CONSUMERS = {'list', 'tuple', 'set', 'dict', 'sorted', 'frozenset', 'sum', 'len'}


class Desugar:
    def __init__(self, generators=None, cls=None):
        self.count = self.inlined = 0
        self.generators, self.cls = generators or {}, cls

    def function(self, fn):
        self.fn = fn
        self.visit(fn)

    def visit(self, node):
        for field in ('body', 'orelse', 'finalbody'):
            block = getattr(node, field, None)
            if isinstance(block, list) and block and isinstance(block[0], ast.stmt):
                setattr(node, field, self.block(block))
        for h in getattr(node, 'handlers', ()):
            self.visit(h)
        for c in getattr(node, 'cases', ()):
            self.visit(c)

    @staticmethod
    def only_raises_again(h):
        """whether a handler raises what it has caught and does nothing else"""
        body = [x for x in h.body if not isinstance(x, ast.Pass) and not (
            isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        return bool(body) and isinstance(body[0], ast.Raise) and body[0].cause is None and (
            body[0].exc is None or h.name is not None and is_name(body[0].exc, h.name))

    def over_generated(self, s):
        """for x in (e for y in z if c): ... -> for y in z: if c: x = e; ..."""
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom) and (
                isinstance(s.value.value, ast.GeneratorExp) or self.generator_of(s.value.value)):
            # yield from ... -> for x in ...: yield x
            x = self.fresh()
            new = ast.For(ast.Name(x, ast.Store()), s.value.value,
                          [ast.Expr(ast.Yield(ast.Name(x, ast.Load())))], [])
            return [ast.fix_missing_locations(ast.copy_location(new, s))]
        if isinstance(s, ast.Return) and getattr(self.fn, 'name', None) == '__iter__' and isinstance(s.value, ast.Call) \
                and is_name(s.value.func, 'iter') and len(s.value.args) == 1 and self.fn.body[-1] is s \
                and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(self.fn)):
            # __iter__: return iter(xs) -> for x in xs: yield x
            x = self.fresh()
            new = ast.For(ast.Name(x, ast.Store()), s.value.args[0],
                          [ast.Expr(ast.Yield(ast.Name(x, ast.Load())))], [])
            return [ast.fix_missing_locations(ast.copy_location(new, s))]
        made = self.listed(s)
        if made is not None:
            return made
        if not isinstance(s, ast.For):
            return None
        if isinstance(s.body[-1], (ast.Return, ast.Raise)) and not leaves(s.body, (ast.Break, ast.Continue)) \
                and not isinstance(s.iter, (ast.GeneratorExp, ast.Call)) and isinstance(s.target, ast.Name):
            # for x in xs: ...; return -> if xs: x = xs[0]; ...; return
            xs = self.fresh()
            new = ast.If(ast.Name(xs, ast.Load()), [ast.Assign([s.target], ast.Subscript(
                ast.Name(xs, ast.Load()), ast.Constant(0), ast.Load()))] + s.body, s.orelse)
            return [ast.fix_missing_locations(ast.copy_location(n, s))
                    for n in (ast.Assign([ast.Name(xs, ast.Store())], s.iter), new)]
        if not isinstance(s.iter, ast.GeneratorExp):
            return self.over_generator(s)
        g = copy.deepcopy(s.iter)
        if any(c.is_async for c in g.generators) or len(g.generators) > 1 and (s.orelse or leaves(s.body, ast.Break)):
            return None
        names = {n: self.fresh() for c in g.generators for n in stores([c.target])}
        if names.keys() & stores_in_first(g):
            return None
        first = g.generators[0].iter
        g.generators[0].iter = ast.Constant(None)
        Renamed(names).visit(g)
        g.generators[0].iter = first
        inner = [ast.Assign([s.target], g.elt)] + s.body
        if len(g.generators) == 1 and isinstance(g.elt, ast.Name) and isinstance(g.generators[0].target, ast.Name) \
                and isinstance(s.target, ast.Name) and g.elt.id == g.generators[0].target.id:
            Renamed({g.elt.id: s.target.id}).visit(g)
            inner = s.body
        for c in reversed(g.generators):
            for test in reversed(c.ifs):
                inner = [ast.If(test, inner, [])]
            inner = [ast.For(c.target, c.iter, inner, [])]
        inner[0].orelse = s.orelse
        return [ast.fix_missing_locations(ast.copy_location(inner[0], s))]

    def generator_of(self, call):
        """(function, receiver) of a call of a generator of this module whose yields are plain statements"""
        if not isinstance(call, ast.Call) or any(isinstance(a, ast.Starred) for a in call.args) or any(
                k.arg is None for k in call.keywords):
            return None
        f = call.func
        if isinstance(f, ast.Name):
            g, receiver = self.generators.get((None, f.id)), None
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and self.cls is not None and f.value.id == (
                self.fn.args.args[0].arg if self.fn.args.args else None):
            g, receiver = self.generators.get((self.cls, f.attr)), f.value
        else:
            return None
        if g is None or g.name == self.fn.name:
            return None
        return g, receiver

    def listed(self, s):
        """x = list(generator()) or return list(generator()): the elements are collected by a loop"""
        if not isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) or s.value is None:
            return None
        v, acc = s.value, self.fresh()
        empty, name = ast.List([], ast.Load()), lambda: ast.Name(acc, ast.Load())
        if isinstance(v, ast.Call) and is_name(v.func, 'list') and len(v.args) == 1 and not v.keywords \
                and self.generator_of(v.args[0]):
            source = v.args[0]
            s.value = ast.copy_location(name(), v)
        elif isinstance(v, (ast.ListComp, ast.DictComp, ast.SetComp)):
            if len(v.generators) != 1 or not self.generator_of(v.generators[0].iter):
                return None
            g = copy.deepcopy(v.generators[0])
            source, g.iter = g.iter, ast.Constant(None)
            names = Renamed({n: self.fresh() for n in stores([g.target])})
            visited = lambda e: names.visit(copy.deepcopy(e))
            target, tests = names.visit(g.target), [names.visit(t) for t in g.ifs]
            if isinstance(v, ast.DictComp):
                empty = ast.Dict([], [])
                body = [ast.Assign([ast.Subscript(name(), visited(v.key), ast.Store())], visited(v.value))]
            else:
                method = 'append'
                if isinstance(v, ast.SetComp):
                    empty, method = ast.Call(ast.Name('set', ast.Load()), [], []), 'add'
                body = [ast.Expr(ast.Call(ast.Attribute(name(), method, ast.Load()), [visited(v.elt)], []))]
            for t in reversed(tests):
                body = [ast.If(t, body, [])]
            out = [ast.Assign([ast.Name(acc, ast.Store())], empty), ast.For(target, source, body, [])]
            for n in out:
                ast.fix_missing_locations(ast.copy_location(n, s))
            s.value = ast.copy_location(name(), v)
            return out + [s]
        else:
            found = self.consumed(v)
            if found is None:
                return None
            source, put = found
            put(name())
        x = self.fresh()
        out = [ast.Assign([ast.Name(acc, ast.Store())], empty), ast.For(ast.Name(x, ast.Store()), source, [ast.Expr(
            ast.Call(ast.Attribute(name(), 'append', ast.Load()), [ast.Name(x, ast.Load())], []))], [])]
        for n in out:
            ast.fix_missing_locations(ast.copy_location(n, s))
        ast.fix_missing_locations(s)
        return out + [s]

    def consumed(self, e):
        """the call of a generator whose elements an expression takes all at once, when it is evaluated first"""
        if isinstance(e, ast.Call):
            f = e.func
            takes = isinstance(f, ast.Name) and f.id in CONSUMERS or isinstance(f, ast.Attribute) and path_of(f) and (
                f.attr in ('extend', 'join', 'update', 'from_iterable')) or isinstance(f, ast.Attribute) and isinstance(
                    f.value, ast.Constant) and f.attr == 'join'
            for i, a in enumerate(e.args):
                inner = a.value if isinstance(a, ast.Starred) else a
                if (takes or isinstance(a, ast.Starred)) and isinstance(inner, ast.Call) and self.generator_of(inner):
                    def put(x, a=a, i=i):
                        if isinstance(a, ast.Starred):
                            a.value = x
                        else:
                            e.args[i] = x
                    return inner, put
                if not isinstance(a, (ast.Name, ast.Constant)):
                    return self.consumed(a) if i == 0 and not isinstance(a, ast.Starred) else None
            return None
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            for a in e.elts:
                if isinstance(a, ast.Starred) and isinstance(a.value, ast.Call) and self.generator_of(a.value):
                    def put(x, a=a):
                        a.value = x
                    return a.value, put
                if not isinstance(a, (ast.Name, ast.Constant)):
                    return None
        return None

    def matched(self, s):
        """match x: case ...: -> if ...: elif ...: for patterns which test the subject as a whole"""
        if not isinstance(s, ast.Match):
            return None
        name, before = s.subject, []
        if not isinstance(name, ast.Name):
            before = [ast.Assign([ast.Name(self.fresh(), ast.Store())], name)]
            name = ast.Name(before[0].targets[0].id, ast.Load())

        def test(p):
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                return ast.Constant(True), p.name
            if isinstance(p, ast.MatchAs):
                t = test(p.pattern)
                return t and (t[0], p.name) if t and t[1] is None else None
            if isinstance(p, ast.MatchValue):
                return ast.Compare(name, [ast.Eq()], [p.value]), None
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(name, [ast.Is()], [ast.Constant(p.value)]), None
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                return ast.Call(ast.Name('isinstance', ast.Load()), [name, p.cls], []), None
            if isinstance(p, ast.MatchOr):
                parts = [test(q) for q in p.patterns]
                if all(parts) and not any(n for _, n in parts):
                    return ast.BoolOp(ast.Or(), [t for t, _ in parts]), None
            return None
        out = []
        for c in reversed(s.cases):
            got = test(c.pattern)
            if got is None:
                return None
            cond, bound = got
            body = list(c.body)
            if bound is not None:
                if c.guard is not None:
                    if any(is_name(x, bound) for x in walk(c.guard)):
                        return None
                body.insert(0, ast.Assign([ast.Name(bound, ast.Store())], name))
            if isinstance(cond, ast.Constant) and c.guard is None:
                out = body
                continue
            if c.guard is not None:
                cond = c.guard if isinstance(cond, ast.Constant) else ast.BoolOp(ast.And(), [cond, c.guard])
            out = [ast.If(cond, body, out)]
        return [ast.fix_missing_locations(ast.copy_location(x, s)) for x in copy.deepcopy(before + out)]

    def over_generator(self, s):
        """for x in generator(): ... -> the body of the generator, with the body of the loop in the place of its yields"""
        found = self.generator_of(s.iter)
        if found is None or self.inlined > 8:
            return None
        g, receiver = found
        a = g.args
        params = [p.arg for p in a.args]
        given = {}
        if receiver is not None:
            given[params[0]] = receiver
            rest = params[1:]
        else:
            rest = params
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or len(s.iter.args) > len(rest):
            return None
        given.update(zip(rest, s.iter.args))
        for k in s.iter.keywords:
            if k.arg not in rest or k.arg in given:
                return None
            given[k.arg] = k.value
        for p, d in zip(params[len(params) - len(a.defaults):], a.defaults):
            given.setdefault(p, d)
        if set(given) != set(params):
            return None
        body = copy.deepcopy(g.body)
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        breaks, continues = leaves(s.body, ast.Break), leaves(s.body, ast.Continue)
        yields = [x for x in walk(body) if isinstance(x, ast.Yield)]
        if len(yields) > 3 or s.orelse:
            return None
        if breaks and not (len(yields) == 1 and body and isinstance(body[-1], ast.For) and not body[-1].orelse and any(
                x is yields[0] for x in walk(body[-1].body)) and not any(
                    isinstance(x, (ast.For, ast.While)) and any(y is yields[0] for y in walk(x.body))
                    for x in walk(body[-1].body))):
            return None
        if continues and not all(ends_with(body, y) for y in yields):
            return None
        names = {n: self.fresh() for n in stores(body) | set(params)}
        pre = []
        for p, v in given.items():
            if isinstance(v, ast.Name) and p not in stores(body) and v.id not in stores(s.body) | stores([s.target]):
                names[p] = v.id
            else:
                pre.append(ast.Assign([ast.Name(names[p], ast.Store())], v))
        for n in body:
            Renamed(names).visit(n)
        body = place_yields(body, s)
        self.inlined += 1
        out = pre + body
        for n in out:
            ast.fix_missing_locations(ast.copy_location(n, s))
        return out

    @staticmethod
    def suppressing(s):
        """with suppress(E): ... -> try: ... except E: pass"""
        if len(s.items) != 1 or s.items[0].optional_vars is not None:
            return None
        c = s.items[0].context_expr
        if not (isinstance(c, ast.Call) and ast.unparse(c.func) in ('suppress', 'contextlib.suppress')) or c.keywords:
            return None
        if not c.args or any(isinstance(a, ast.Starred) for a in c.args):
            return None
        kind = c.args[0] if len(c.args) == 1 else ast.Tuple(list(c.args), ast.Load())
        new = ast.Try(s.body, [ast.ExceptHandler(kind, None, [ast.Pass()])], [], [])
        return ast.fix_missing_locations(ast.copy_location(new, s))

    def searched(self, s):
        """x = next((e for ...), default) -> for ...: x = e; break / else: x = default"""
        field = {ast.Assign: 'value', ast.AnnAssign: 'value', ast.Return: 'value', ast.Expr: 'value', ast.If: 'test'}.get(
            type(s))
        if field is None or getattr(s, field) is None:
            return None
        found = first_next(getattr(s, field))
        if found is None:
            return None
        call, put = found
        g = copy.deepcopy(call.args[0])
        if any(c.is_async for c in g.generators):
            return None
        names = {n: self.fresh() for c in g.generators for n in stores([c.target])}
        if names.keys() & stores_in_first(g):
            return None
        first = g.generators[0].iter
        g.generators[0].iter = ast.Constant(None)
        Renamed(names).visit(g)
        g.generators[0].iter = first
        result = self.fresh()

        def store(value):
            return ast.Assign([ast.Name(result, ast.Store())], value)
        default = call.args[1] if len(call.args) == 2 else None
        returns = isinstance(s, ast.Return) and put is None
        if returns:
            inner = [ast.Return(g.elt)]
            after = ast.Return(default) if default is not None else None
        else:
            inner = [store(g.elt), ast.Break()]
            after = store(default) if default is not None else None
        if after is None:
            after = ast.Raise(ast.Call(ast.Name('StopIteration', ast.Load()), [], []), None)
        if not returns and len(g.generators) > 1:
            return None
        for c in reversed(g.generators):
            for test in reversed(c.ifs):
                inner = [ast.If(test, inner, [])]
            inner = [ast.For(c.target, c.iter, inner, [])]
        loop = inner[0]
        if returns:
            new = [loop, after]
        else:
            loop.orelse = [after]
            if put is None:
                setattr(s, field, ast.Name(result, ast.Load()))
            else:
                put(ast.Name(result, ast.Load()))
            new = [loop, s]
        for x in new:
            if x is not s:
                ast.copy_location(x, s)
            ast.fix_missing_locations(x)
        return new

    def block(self, stmts):
        out = list(stmts)
        i = 0
        while i < len(out):
            new = self.over_generated(out[i])
            if new is not None:
                out[i:i + 1] = new
                continue
            new = self.searched(out[i])
            if new is not None:
                out[i:i + 1] = new
                continue
            if isinstance(out[i], ast.With):
                out[i] = self.suppressing(out[i]) or out[i]
            new = self.folder_made(out[i]) or self.last_match(out[i]) or self.matched(out[i])
            if new is not None:
                out[i:i + 1] = new
                continue
            i += 1
        for i, s in enumerate(out):
            if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)) and i + 1 < len(out) and not any(
                    isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk(out[i + 1:])):
                del out[i + 1:]
                break
        for i, s in enumerate(out[:-1]):
            new = self.first_match(s, out[i + 1], out[i + 2:])
            if new is not None:
                out[i:i + 2] = new
                break
        i = 0
        while i < len(out):
            s = out[i]
            if isinstance(s, ast.Try):
                while s.handlers and self.only_raises_again(s.handlers[-1]):
                    s.handlers.pop()
                if not s.handlers and not s.finalbody:
                    out[i:i + 1] = s.body + s.orelse
                    continue
            i += 1
        i = 0
        while i < len(out):
            s = out[i]
            if isinstance(s, (ast.For, ast.While)):
                new = self.counted_for(s) if isinstance(s, ast.For) else (
                    self.counted_while(s, out, i) or self.stepped(s, out, i) or self.popped(s, out, i))
                if new is not None:
                    out = new if isinstance(new, list) else out[:i] + [new] + out[i + 1:]
                    i = 0
                    continue
            i += 1
        for s in out:
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.visit(s)
        return out

    def folder_made(self, s):
        """os.makedirs(X, exist_ok=True) -> if not os.path.exists(X): os.makedirs(X)"""
        e = s.value if isinstance(s, ast.Expr) else None
        if not (isinstance(e, ast.Call) and ast.unparse(e.func) == 'os.makedirs' and len(e.args) == 1 and len(
                e.keywords) == 1 and e.keywords[0].arg == 'exist_ok' and isinstance(
                e.keywords[0].value, ast.Constant) and e.keywords[0].value.value is True):
            return None
        name, before = e.args[0], []
        if not path_of(name):
            before = [ast.Assign([ast.Name(self.fresh(), ast.Store())], name)]
            name = ast.Name(before[0].targets[0].id, ast.Load())
        exists = ast.parse('os.path.exists', mode='eval').body
        new = ast.If(ast.UnaryOp(ast.Not(), ast.Call(exists, [copy.deepcopy(name)], [])),
                     [ast.Expr(ast.Call(e.func, [name], []))], [])
        return [ast.fix_missing_locations(ast.copy_location(x, s)) for x in before + [new]]

    def first_match(self, s, test, rest):
        """m = [e for x in X if T]; if not m: ...; return R; ... m[0] -> for x in X: if T: r = e; break / else: ...; ... r"""
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and is_name(s.targets[0]) and isinstance(
                s.value, ast.ListComp) and len(s.value.generators) == 1 and s.value.generators[0].ifs and isinstance(
                test, ast.If) and not test.orelse):
            return None
        m, t = s.targets[0].id, test.test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and is_name(t.operand, m) or ast.unparse(t) in (
                f'len({m}) == 0', f'not len({m})', f'len({m}) < 1', f'{m} == []'):
            uses, ending = rest, test.body
            if not isinstance(ending[-1], (ast.Return, ast.Raise)) or any(is_name(x, m) for x in walk(test.body)):
                return None
        elif is_name(t, m) or ast.unparse(t) in (f'len({m}) > 0', f'len({m})', f'len({m}) >= 1', f'{m} != []'):
            uses, ending = test.body, None
            if not isinstance(uses[-1], (ast.Return, ast.Raise)) or any(is_name(x, m) for x in walk(rest)) or leaves(
                    uses, (ast.Break, ast.Continue)):
                return None
        else:
            return None
        reads = [x for x in walk(uses) if isinstance(x, ast.Subscript) and is_name(x.value, m) and isinstance(
            x.slice, ast.Constant) and x.slice.value == 0 and isinstance(x.ctx, ast.Load)]
        everywhere = [x for x in walk(self.fn) if is_name(x, m)]
        if len(reads) != sum(is_name(x, m) for x in walk(uses)) or not reads or len(everywhere) != len(reads) + 2:
            return None
        g = copy.deepcopy(s.value.generators[0])
        names = {n: self.fresh() for n in stores([g.target])}
        whole, g.iter = g.iter, ast.Constant(None)
        Renamed(names).visit(g)
        r = self.fresh()
        first = ast.Assign([ast.Name(r, ast.Store())], Renamed(names).visit(copy.deepcopy(s.value.elt)))

        class Read(ast.NodeTransformer):
            def visit_Subscript(self, node):
                if any(node is x for x in reads):
                    return ast.copy_location(ast.Name(r, ast.Load()), node)
                self.generic_visit(node)
                return node
        for u in uses:
            Read().visit(u)
        inner = [first, ast.Break()] if ending is not None else [first] + uses
        for c in reversed(g.ifs):
            inner = [ast.If(c, inner, [])]
        new = ast.For(g.target, whole, inner, ending or [])
        return [ast.fix_missing_locations(ast.copy_location(new, s))]

    def last_match(self, s):
        """for x in reversed(X): if T: ...; return R -> m = [x for x in X if T]; if m: x = m[-1]; ...; return R"""
        if not (isinstance(s, ast.For) and isinstance(s.target, ast.Name) and len(s.body) == 1 and isinstance(
                s.body[0], ast.If) and not s.body[0].orelse):
            return None
        it, inner = s.iter, s.body[0]
        if isinstance(it, ast.Call) and is_name(it.func, 'reversed') and len(it.args) == 1 and not it.keywords:
            whole = it.args[0]
        elif isinstance(it, ast.Subscript) and ast.unparse(it.slice) == '::-1':
            whole = it.value
        else:
            return None
        body = inner.body
        if not isinstance(body[-1], (ast.Return, ast.Break)) or any(isinstance(x, (
                ast.Break, ast.Continue, ast.For, ast.While, ast.Yield, ast.YieldFrom)) for x in walk(body[:-1])) or any(
                isinstance(x, ast.NamedExpr) for x in walk(inner.test)):
            return None
        m, x, each = self.fresh(), s.target.id, self.fresh()
        test = Renamed({x: each}).visit(copy.deepcopy(inner.test))
        new = [ast.Assign([ast.Name(m, ast.Store())], ast.ListComp(ast.Name(each, ast.Load()), [
            ast.comprehension(ast.Name(each, ast.Store()), whole, [test], 0)])),
            ast.If(ast.Name(m, ast.Load()), [
                ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(
                    ast.Name(m, ast.Load()), ast.Constant(-1), ast.Load()))] + (
                        body if isinstance(body[-1], ast.Return) else body[:-1]), s.orelse)]
        return [ast.fix_missing_locations(ast.copy_location(n, s)) for n in new]

    def fresh(self):
        self.count += 1
        return f'__element_{self.count}'

    def over(self, seq, index, body, loc, orelse):
        """the loop over the elements (with the index if it is used otherwise)"""
        element = self.fresh()
        body = [Elements(seq, index, element).visit(s) for s in body]
        target = ast.Name(element, ast.Store())
        it = seq
        if loads(body, index):
            target = ast.Tuple([ast.Name(index, ast.Store()), target], ast.Store())
            it = ast.Call(ast.Name('enumerate', ast.Load()), [seq], [])
        new = ast.For(target, it, body, orelse)
        ast.copy_location(new, loc)
        return ast.fix_missing_locations(new)

    def counted_for(self, s):
        """for i in range(len(seq)): ... seq[i] ..."""
        it = s.iter
        if not (isinstance(it, ast.Call) and is_name(it.func, 'range') and len(it.args) in (1, 2) and not it.keywords):
            return None
        if len(it.args) == 2 and not (isinstance(it.args[0], ast.Constant) and it.args[0].value == 0):
            return None
        seq = len_of(it.args[-1])
        if seq is None or not is_name(s.target) or not constant_sequence(seq, s.body) or s.target.id in stores(s.body):
            return None
        if self.used_elsewhere(s, s.target.id):
            return None
        return self.over(seq, s.target.id, s.body, s, s.orelse)

    def used_elsewhere(self, s, name):
        """whether the name is read in the function outside of the statement"""
        inside = loads([s], name)
        return loads([self.fn], name) > inside

    def counted_while(self, s, block, at):
        """i = 0; while i < len(seq): ... seq[i] ...; i += 1"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and is_name(
                t.left)):
            return None
        index, seq = t.left.id, len_of(t.comparators[0])
        extra = []
        if seq is None and is_name(t.comparators[0]):
            # n = len(seq) before
            n = t.comparators[0].id
            extra = [j for j in range(at) if isinstance(block[j], ast.Assign) and is_name(block[j].targets[0], n)]
            if len(extra) != 1 or n in stores(s.body):
                return None
            seq = len_of(block[extra[0]].value)
            if seq is not None and not constant_sequence(seq, block[extra[0] + 1:at]):
                return None
        if seq is None or not constant_sequence(seq, s.body) or self.used_elsewhere(s, index):
            return None
        steps = [j for j, x in enumerate(s.body) if self.is_step(x, index)]
        if len(steps) != 1 or sum(1 for x in walk(s.body) if is_name(x, index) and isinstance(x.ctx, ast.Store)) != 1:
            return None
        step = steps[0]
        if any(isinstance(x, ast.Continue) for x in walk(s.body[:step])) or loads(s.body[step + 1:], index):
            return None
        starts = [j for j in range(at) if index in stores([block[j]])]
        if not starts:
            return None
        start = block[starts[-1]]
        if not (isinstance(start, ast.Assign) and len(start.targets) == 1 and is_name(start.targets[0]) and isinstance(
                start.value, ast.Constant) and start.value.value == 0):
            return None
        new = self.over(seq, index, s.body[:step] + s.body[step + 1:], s, s.orelse)
        out = list(block)
        out[at] = new
        return out

    @staticmethod
    def is_step(x, index):
        if isinstance(x, ast.AugAssign) and is_name(x.target, index) and isinstance(x.op, ast.Add):
            return isinstance(x.value, ast.Constant) and x.value.value == 1
        return isinstance(x, ast.Assign) and is_name(x.targets[0], index) and isinstance(x.value, ast.BinOp) and isinstance(
            x.value.op, ast.Add) and is_name(x.value.left, index) and isinstance(
                x.value.right, ast.Constant) and x.value.right.value == 1

    def stepped(self, s, block, at):
        """it = iter(seq); while True: try: x = next(it) except StopIteration: break; ..."""
        if not (isinstance(s.test, ast.Constant) and s.test.value and s.body and isinstance(s.body[0], ast.Try)):
            return None
        t = s.body[0]
        if len(t.body) != 1 or len(t.handlers) != 1 or t.finalbody or len(t.handlers[0].body) != 1:
            return None
        h = t.handlers[0]
        if not (is_name(h.type, 'StopIteration') and isinstance(h.body[0], ast.Break)):
            return None
        a = t.body[0]
        if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Call) and is_name(
                a.value.func, 'next') and len(a.value.args) == 1 and is_name(a.value.args[0])):
            return None
        it = a.value.args[0].id
        starts = [j for j in range(at) if it in stores([block[j]])]
        if not starts or loads([self.fn], it) != 1 or sum(
                1 for x in walk([self.fn]) if is_name(x, it) and isinstance(x.ctx, ast.Store)) != 1:
            return None
        start = block[starts[-1]]
        if not (isinstance(start, ast.Assign) and is_name(start.targets[0], it) and isinstance(
                start.value, ast.Call) and is_name(start.value.func, 'iter') and len(start.value.args) == 1):
            return None
        if starts[-1] != at - 1 and not path_of(start.value.args[0]):
            return None
        new = ast.For(a.targets[0], start.value.args[0], t.orelse + s.body[1:] or [ast.Pass()], s.orelse)
        ast.copy_location(new, s)
        ast.fix_missing_locations(new)
        return block[:starts[-1]] + block[starts[-1] + 1:at] + [new] + block[at + 1:]

    def popped(self, s, block, at):
        """rest = list(seq); while rest: x = rest.pop(0); ..."""
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and isinstance(
                t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
            t = t.left
        inner = len_of(t)
        t = inner if inner is not None else t
        if not is_name(t) or not s.body:
            return None
        rest, a = t.id, s.body[0]
        if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Call)):
            return None
        f = a.value.func
        if not (isinstance(f, ast.Attribute) and is_name(f.value, rest)):
            return None
        first = f.attr == 'popleft' and not a.value.args or f.attr == 'pop' and len(a.value.args) == 1 and isinstance(
            a.value.args[0], ast.Constant) and a.value.args[0].value == 0
        last = f.attr == 'pop' and not a.value.args
        if not (first or last) or loads(s.body[1:], rest) or rest in stores(s.body):
            return None
        starts = [j for j in range(at) if rest in stores([block[j]])]
        # (read in the test and in the pop only)
        if len(starts) != 1 or starts[0] != at - 1 or loads([self.fn], rest) != 2 or sum(
                1 for x in walk([self.fn]) if is_name(x, rest) and isinstance(x.ctx, ast.Store)) != 1:
            return None
        start = block[at - 1]
        if not (isinstance(start, ast.Assign) and is_name(start.targets[0], rest)):
            return None
        v = start.value
        if not (isinstance(v, ast.Call) and is_name(v.func) and v.func.id in ('list', 'deque', 'sorted') and len(
                v.args) == 1 or isinstance(v, (ast.ListComp, ast.List))):
            return None
        if isinstance(v, ast.Call) and v.func.id == 'deque':
            v = ast.Call(ast.Name('list', ast.Load()), v.args, v.keywords)
        if last:
            v = ast.Call(ast.Name('reversed', ast.Load()), [v], [])
        new = ast.For(a.targets[0], v, s.body[1:] or [ast.Pass()], s.orelse)
        ast.copy_location(new, s)
        ast.fix_missing_locations(new)
        return block[:at - 1] + [new] + block[at + 1:]


CHAINS = ('chain', 'itertools.chain', 'chain.from_iterable', 'itertools.chain.from_iterable')


class Expressions(ast.NodeTransformer):
    """map, filter, chain and list/set/dict of a generator expression as comprehensions"""
    count = 0

    @staticmethod
    def chained(node):
        if ast.unparse(node.func).endswith('from_iterable'):
            whole = node.args[0] if len(node.args) == 1 else None
        else:
            whole = node.args[0].value if len(node.args) == 1 and isinstance(node.args[0], ast.Starred) else None
        if whole is None:
            if ast.unparse(node.func).endswith('from_iterable'):
                return node
            new = ast.List([x if isinstance(x, ast.Starred) else ast.Starred(x, ast.Load()) for x in node.args], ast.Load())
            if any(isinstance(x, ast.Starred) for x in node.args):
                return node
        else:
            Expressions.count += 1
            x, y = f'__inner_{Expressions.count}', f'__outer_{Expressions.count}'
            new = ast.GeneratorExp(ast.Name(x, ast.Load()), [
                ast.comprehension(ast.Name(y, ast.Store()), whole, [], 0),
                ast.comprehension(ast.Name(x, ast.Store()), ast.Name(y, ast.Load()), [], 0)])
        return ast.fix_missing_locations(ast.copy_location(new, node))

    def visit_With(self, node):
        """for line in f -> for line in f.readlines(), where f is the file which the statement opens"""
        self.generic_visit(node)
        for item in node.items:
            if isinstance(item.optional_vars, ast.Name) and isinstance(item.context_expr, ast.Call) and is_name(
                    item.context_expr.func, 'open'):
                f = item.optional_vars.id
                lines = lambda e: ast.copy_location(ast.Call(ast.Attribute(e, 'readlines', ast.Load()), [], []), e)
                for x in walk(node.body):
                    if isinstance(x, (ast.For, ast.comprehension)) and is_name(x.iter, f):
                        x.iter = ast.fix_missing_locations(lines(x.iter))
                    if isinstance(x, ast.Call) and len(x.args) == 1 and is_name(x.args[0], f) and not x.keywords and (
                            isinstance(x.func, ast.Name) and x.func.id in ('list', 'tuple', 'set', 'enumerate')
                            or isinstance(x.func, ast.Attribute) and x.func.attr == 'join'):
                        x.args = [ast.fix_missing_locations(lines(x.args[0]))]
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if ast.unparse(node.func) in CHAINS and not node.keywords and node.args:
            return self.chained(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'pop' and len(node.args) == 1 and ast.unparse(
                node.args[0]) == '-1' and not node.keywords:
            node.args = []      # the last one
            return node
        if not isinstance(node.func, ast.Name) or node.keywords or any(isinstance(a, ast.Starred) for a in node.args):
            return node
        name, args = node.func.id, node.args
        if name in ('map', 'filter') and len(args) == 2:
            f = args[0]
            if isinstance(f, ast.Lambda):
                a = f.args
                if len(a.args) != 1 or a.posonlyargs or a.kwonlyargs or a.vararg or a.kwarg or a.defaults:
                    return node
            elif not (path_of(f) and isinstance(f, (ast.Name, ast.Attribute))):
                if not (name == 'filter' and isinstance(f, ast.Constant) and f.value is None):
                    return node
            Expressions.count += 1
            x = f'__mapped_{Expressions.count}'
            value = ast.Name(x, ast.Load())
            if isinstance(f, ast.Lambda):
                result = Renamed({f.args.args[0].arg: x}).visit(copy.deepcopy(f.body))
            elif isinstance(f, ast.Constant):
                result = value
            else:
                result = ast.Call(f, [value], [])
            new = ast.GeneratorExp(result, [ast.comprehension(ast.Name(x, ast.Store()), args[1], [], 0)]) if (
                name == 'map') else ast.GeneratorExp(
                    value, [ast.comprehension(ast.Name(x, ast.Store()), args[1], [result], 0)])
            return ast.fix_missing_locations(ast.copy_location(new, node))
        if len(args) == 1 and isinstance(args[0], ast.GeneratorExp):
            g = args[0]
            new = None
            if name == 'list':
                new = ast.ListComp(g.elt, g.generators)
            elif name == 'set':
                new = ast.SetComp(g.elt, g.generators)
            elif name == 'dict' and isinstance(g.elt, ast.Tuple) and len(g.elt.elts) == 2:
                new = ast.DictComp(g.elt.elts[0], g.elt.elts[1], g.generators)
            if new is not None:
                return ast.copy_location(new, node)
        return node


def stores_in_first(g):
    return {x.target.id for x in walk([g.generators[0].iter]) if isinstance(x, ast.NamedExpr)}


class Renamed(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, node):
        if node.id in self.names:
            return ast.copy_location(ast.Name(self.names[node.id], node.ctx), node)
        return node


def first_next(e):
    """the call of next on a generator expression which is the first thing an expression evaluates, with the way to
    replace it: (call, set) or None"""
    if isinstance(e, ast.Call) and is_name(e.func, 'next') and e.args and isinstance(
            e.args[0], ast.GeneratorExp) and not e.keywords and len(e.args) <= 2:
        # (what is returned when there is nothing is evaluated first in the call, so it must be a plain value)
        if len(e.args) == 1 or isinstance(e.args[1], (ast.Constant, ast.Name)):
            return e, None
        return None
    if isinstance(e, ast.Call) and is_name(e.func) and e.func.id in ('any', 'all') and len(e.args) == 1 and isinstance(
            e.args[0], ast.GeneratorExp) and not e.keywords:
        # whether there is one which decides
        g = copy.deepcopy(e.args[0])
        decides = e.func.id == 'any'
        g.generators[-1].ifs.append(g.elt if decides else ast.UnaryOp(ast.Not(), g.elt))
        g.elt = ast.Constant(decides)
        new = ast.Call(ast.Name('next', ast.Load()), [g, ast.Constant(not decides)], [])
        return ast.fix_missing_locations(ast.copy_location(new, e)), None
    places = []
    if isinstance(e, ast.Compare):
        places = [('left', None)]
    elif isinstance(e, ast.BinOp):
        places = [('left', None)]
    elif isinstance(e, ast.BoolOp):
        places = [('values', 0)]
    elif isinstance(e, ast.UnaryOp):
        places = [('operand', None)]
    elif isinstance(e, (ast.Attribute, ast.Subscript, ast.NamedExpr)):
        places = [('value', None)]
    elif isinstance(e, ast.IfExp):
        places = [('test', None)]
    elif isinstance(e, (ast.Tuple, ast.List)) and e.elts:
        places = [('elts', 0)]
    elif isinstance(e, ast.Call):
        places = [('args', 0)] if isinstance(e.func, ast.Name) and e.args else [('func', None)]
    for field, at in places:
        child = getattr(e, field)
        child = child if at is None else child[at]
        found = first_next(child)
        if found is not None:
            call, put = found
            if put is None:
                def put(x, e=e, field=field, at=at):
                    if at is None:
                        setattr(e, field, x)
                    else:
                        getattr(e, field)[at] = x
            return call, put
    return None


def desugar(tree):
    Idioms().visit(tree)
    Expressions().visit(tree)
    generators = simple_generators(tree)
    owner = {f: c.name for c in tree.body if isinstance(c, ast.ClassDef) for f in c.body}
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            Desugar(generators, owner.get(node)).function(node)
    return tree
