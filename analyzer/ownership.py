"""
Which containers belong to someone else: to the caller of the public interface (its arguments), to all calls of a
function (default values of its parameters) or to all objects of a class (containers in its body). A flow sensitive
analysis within functions and an insensitive one across calls and attributes follows such containers and what is in them,
and finds every place which changes one of them.

A fact is (origin, depth): 0 for the container itself and everything in it, otherwise how many levels of containers
which are new there are around it.
"""
import ast

OWN, AROUND, DEEPEST = 0, 1, 4
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort',
            'reverse', 'popitem', 'difference_update', 'intersection_update', '__setitem__', '__delitem__'}
FRESH = {'list', 'dict', 'tuple', 'set', 'sorted', 'frozenset', 'reversed', 'zip', 'enumerate', 'map', 'filter', 'chain',
         'product', 'OrderedDict', 'iter', 'defaultdict', 'fromkeys'}
ENTRIES = {'get', 'values', 'items', 'keys', 'pop', 'setdefault', 'popitem'}
NOTHING = frozenset()


def is_container(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(
        e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'dict', 'set', 'defaultdict', 'OrderedDict')


def inside(facts):
    return frozenset((o, max(n - 1, 0)) for o, n in facts)


def around(facts):
    return frozenset((o, min(n + 1, DEEPEST)) for o, n in facts)


def copied(facts):
    return around(inside(facts))


def fresh(name, facts):
    got = copied(facts)
    if name in ('zip', 'enumerate', 'product', 'items'):
        return around(got)
    if name in ('chain', 'from_iterable'):
        return got | copied(inside(facts))
    return got


class Ownership:
    def __init__(self, prog, entries):
        """entries: {qualified function: what to call it}"""
        self.prog = prog
        self.params = {}        # (function, parameter) -> facts
        self.fields = {}        # (class, attribute) -> facts
        self.returns = {}       # function -> facts
        self.found = {}         # (function, line) -> (origin, text)
        self.functions = set()
        self.sites = 0
        self.by_name = {}
        for q, info in prog.funcs.items():
            if q.startswith('pyfileconf.') and info.cls is not None:
                self.by_name.setdefault(info.name, [])
                if info not in self.by_name[info.name]:
                    self.by_name[info.name].append(info)
        for q, name in entries.items():
            info = prog.funcs.get(q)
            if info is None:
                continue
            a = info.node.args
            params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
            for p in params[1 if info.cls is not None and info.kind != 'staticmethod' else 0:]:
                self.params[info.qual, p] = frozenset({(f'the argument {p} of {name}', OWN)})
            if a.vararg:
                self.params[info.qual, a.vararg.arg] = frozenset({(f'the arguments of {name}', AROUND)})
            if a.kwarg:
                self.params[info.qual, a.kwarg.arg] = frozenset({(f'the keyword arguments of {name}', AROUND)})
        self.own_attrs = {}
        for q, cls in prog.classes.items():
            if not q.startswith('pyfileconf.'):
                continue
            for name, value in cls.attrs.items():
                if value is not None and is_container(value) and not self.assigned_by_instances(q, name):
                    self.fields[q, name] = frozenset({(f'{cls.name}.{name}, which all objects of the class share', OWN)})

    def assigned_by_instances(self, cls, name):
        for sub in {cls} | set(self.prog.subclasses(cls)):
            for q in self.prog.mro(sub):
                c = self.prog.classes.get(q)
                init = c and c.methods.get('__init__')
                if init and any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store)
                                for n in ast.walk(init.node)):
                    return True
        return False

    def run(self):
        todo = [info for q, info in self.prog.funcs.items() if q.startswith('pyfileconf.')
                and not q.startswith('pyfileconf_reference')]
        todo = list({id(i.node): i for i in todo}.values())
        for _ in range(12):
            self.changed, self.sites = False, 0
            for info in todo:
                Function(self, info).run()
            if not self.changed:
                break
        self.functions = {i.qual for i in todo}
        return self

    def join(self, table, key, facts):
        old = table.get(key, NOTHING)
        if not facts <= old:
            table[key] = old | facts
            self.changed = True

    def mutated(self, info, node, facts):
        for origin, level in sorted(facts):
            if level == OWN:
                self.found.setdefault((info.qual, node.lineno), (info, node.lineno, origin, ast.unparse(node)[:90]))


class Function:
    def __init__(self, own, info):
        self.own, self.info, self.prog = own, info, own.prog
        self.mod = info.module
        a = info.node.args
        params = list(a.posonlyargs) + list(a.args)
        self.self_name = params[0].arg if info.cls is not None and params and info.kind != 'staticmethod' else None
        self.env = {}
        defaults = dict(zip([p.arg for p in params][len(params) - len(a.defaults):], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in params + list(a.kwonlyargs) + [x for x in (a.vararg, a.kwarg) if x]:
            facts = own.params.get((info.qual, p.arg), NOTHING)
            if p.arg in defaults and is_container(defaults[p.arg]):
                facts |= {(f'the default value of {p.arg} of {info.qual.replace("pyfileconf.", "")}, '
                           f'which all its calls share', OWN)}
            self.env[p.arg] = facts
        self.env.pop(self.self_name, None)
        self.locals = None

    def run(self):
        self.block(self.info.node.body)

    # ---- statements

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def branches(self, *blocks):
        before = dict(self.env)
        ends = []
        for b in blocks:
            self.env = dict(before)
            self.block(b)
            if not (b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))) or any(
                    isinstance(n, (ast.Continue, ast.Break)) for n in b[-1:]):
                ends.append(self.env)
        merged = {}
        for e in ends:
            for k, v in e.items():
                merged[k] = merged.get(k, NOTHING) | v
        self.env = merged if ends else before

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            before = dict(self.env)
            for p in s.args.args + s.args.kwonlyargs:
                self.env[p.arg] = NOTHING
            self.block(s.body)
            self.env = before
        elif isinstance(s, ast.ClassDef):
            pass
        elif isinstance(s, ast.Assign):
            v = self.eval(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.eval(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.eval(s.value)
            old = self.eval(s.target)
            if isinstance(s.op, (ast.Add, ast.BitOr)) and (v or is_container(s.value) or old):
                if not isinstance(s.value, (ast.Constant, ast.JoinedStr)):
                    self.change(s, old)
            self.assign(s.target, old | copied(v), None)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.change(s, self.eval(t.value))
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.own.join(self.own.returns, self.info.qual, self.eval(s.value))
        elif isinstance(s, ast.If):
            self.eval(s.test)
            self.branches(s.body, s.orelse)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = inside(self.eval(s.iter))
            for _ in range(2):
                self.assign(s.target, it, None)
                self.branches(s.body, [])
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.eval(s.test)
                self.branches(s.body, [])
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.eval(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, NOTHING, None)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.branches(s.body + s.orelse, *[s.body + h.body for h in s.handlers])
            self.block(s.finalbody)
        elif isinstance(s, ast.Expr):
            v = self.eval(s.value)
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                pass
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.eval(c)

    def change(self, node, facts):
        self.own.sites += 1
        if facts:
            self.own.mutated(self.info, node, facts)

    def assign(self, t, v, value):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for x, e in zip(t.elts, value.elts):
                    self.assign(x, self.eval(e), e)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, inside(v), None)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.self_name and self.self_name:
                self.own.join(self.own.fields, (self.info.cls.qual, t.attr), v)
        elif isinstance(t, ast.Subscript):
            self.change(t, self.eval(t.value))
            self.add_to(t.value, v)

    def add_to(self, target, v):
        """a container of this function gets an entry"""
        while isinstance(target, ast.Subscript):
            target, v = target.value, around(v)
        if v and isinstance(target, ast.Name):
            self.env[target.id] = self.env.get(target.id, NOTHING) | around(v)
        elif v and isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) \
                and target.value.id == self.self_name and self.self_name:
            self.own.join(self.own.fields, (self.info.cls.qual, target.attr), around(v))

    # ---- values

    def eval(self, e):
        if e is None:
            return NOTHING
        if isinstance(e, ast.Name):
            return self.env.get(e.id, NOTHING)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id in (self.self_name, 'cls') and self.info.cls is not None:
                return self.field(self.info.cls.qual, e.attr)
            got = self.prog.resolve_expr(self.mod, e.value, self.prog.local_imports(self.info))
            if got is not None and got[0] == 'class':
                return self.field(got[1], e.attr)
            self.eval(e.value)
            return NOTHING
        if isinstance(e, ast.Subscript):
            v = self.eval(e.value)
            self.eval(e.slice)
            return copied(v) if isinstance(e.slice, ast.Slice) else inside(v)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = NOTHING
            for x in e.elts:
                out |= copied(self.eval(x.value)) if isinstance(x, ast.Starred) else around(self.eval(x))
            return out
        if isinstance(e, ast.Dict):
            out = NOTHING
            for k, x in zip(e.keys, e.values):
                out |= copied(self.eval(x)) if k is None else around(self.eval(x))
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            before = dict(self.env)
            for g in e.generators:
                self.assign(g.target, inside(self.eval(g.iter)), None)
                for c in g.ifs:
                    self.eval(c)
            v = around(self.eval(e.value if isinstance(e, ast.DictComp) else e.elt))
            self.env = before
            return v
        if isinstance(e, ast.BoolOp):
            out = NOTHING
            for x in e.values:
                out |= self.eval(x)
            return out
        if isinstance(e, ast.IfExp):
            self.eval(e.test)
            return self.eval(e.body) | self.eval(e.orelse)
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e.value)
            self.assign(e.target, v, e.value)
            return v
        if isinstance(e, ast.BinOp):
            return copied(self.eval(e.left) | self.eval(e.right))
        if isinstance(e, (ast.Starred, ast.Await)):
            return self.eval(e.value)
        if isinstance(e, ast.Lambda):
            return NOTHING
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                self.own.join(self.own.returns, self.info.qual, around(self.eval(e.value)))
            return NOTHING
        if isinstance(e, ast.Call):
            return self.call(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.eval(c)
        return NOTHING

    def field(self, cls, attr):
        out = NOTHING
        for q in set(self.prog.mro(cls)) | set(self.prog.subclasses(cls)):
            out |= self.own.fields.get((q, attr), NOTHING)
        for q in self.prog.mro(cls):
            info = self.prog.funcs.get(f'{q}.{attr}')
            if info is not None and info.kind == 'property':
                out |= self.own.returns.get(info.qual, NOTHING)
        return out

    def call(self, e):
        f = e.func
        args = [self.eval(a) for a in e.args]
        kw = [(k.arg, self.eval(k.value)) for k in e.keywords]
        every = frozenset().union(*args, *[v for _, v in kw]) if args or kw else NOTHING
        if isinstance(f, ast.Name):
            name = f.id
            target = None if name in self.env else self.resolve(f)
            if target is not None and target[0] in ('func', 'class'):
                return self.pass_on(self.callee(target), e, args, kw)
            if name in ('setattr', 'isinstance', 'len', 'str', 'repr', 'type', 'hasattr', 'getattr', 'any', 'all',
                        'deepcopy', 'print', 'sum', 'min', 'max', 'bool', 'int'):
                return NOTHING
            return fresh(name, every) if name in FRESH else NOTHING
        if isinstance(f, ast.Attribute):
            got = self.resolve(f)
            if got is not None and got[0] in ('func', 'class'):
                return self.pass_on(self.callee(got), e, args, kw)
            if isinstance(f.value, ast.Attribute) and f.value.attr == 'hook':
                hooks = [self.prog.funcs[q] for q in (f'pyfileconf.plugin.default_hooks.{f.attr}',)
                         if q in self.prog.funcs]
                return around(self.pass_on(hooks, e, args, kw))
            base = self.eval(f.value)
            if f.attr in MUTATORS and self.is_plain(f.value):
                self.change(e, base)
                if f.attr in ('append', 'add', 'insert', 'extend', 'update', 'setdefault'):
                    # (a key, or the place of an insertion, does not become part of the container)
                    added = frozenset().union(*args[1:], *[v for _, v in kw]) if f.attr in ('setdefault', 'insert') else every
                    self.add_to(f.value, inside(every) if f.attr in ('extend', 'update') else added)
            if base:
                if f.attr in ENTRIES:
                    return {'values': copied(base), 'items': around(copied(base)), 'keys': NOTHING}.get(
                        f.attr, inside(base))
                if f.attr in ('copy', 'union', 'difference', '__add__'):
                    return around(base | every)
            if f.attr in ('deepcopy',):
                return NOTHING
            methods = self.methods(f)
            if methods and not base:
                return self.pass_on(methods, e, args, kw)
            return fresh(f.attr, every) if f.attr in FRESH or f.attr == 'from_iterable' else NOTHING
        self.eval(f)
        return NOTHING

    def is_plain(self, e):
        """whether a value may be a container (and is not known to be another object of the package)"""
        return True

    def resolve(self, f):
        try:
            return self.prog.resolve_expr(self.mod, f, self.prog.local_imports(self.info))
        except Exception:
            return None

    def callee(self, target):
        if target[0] == 'func':
            return [self.prog.funcs[target[1]]] if target[1] in self.prog.funcs else []
        init = self.prog.find_method(target[1], '__init__')
        return [init] if init is not None else []

    def methods(self, f):
        """the methods of the package a call may be one of"""
        if isinstance(f.value, ast.Name) and f.value.id in (self.self_name, 'cls') and self.info.cls is not None:
            cls = self.info.cls.qual
            found = {id(m): m for q in [cls, *self.prog.subclasses(cls)]
                     for m in [self.prog.find_method(q, f.attr)] if m is not None}
            return list(found.values())
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' \
                and self.info.cls is not None:
            m = self.prog.find_method(self.info.cls.qual, f.attr, after=self.info.cls.qual)
            return [m] if m is not None else []
        got = self.resolve(f.value)
        if got is not None and got[0] == 'class':
            m = self.prog.find_method(got[1], f.attr)
            return [m] if m is not None else []
        if got is not None and got[0] in ('ext', 'module'):
            return []
        if f.attr in MUTATORS | ENTRIES | {'copy', 'join', 'split', 'format', 'strip'} and f.attr not in ('update',):
            return []
        return self.own.by_name.get(f.attr, [])

    def pass_on(self, infos, e, args, kw):
        out = NOTHING
        for info in infos:
            a = info.node.args
            params = [p.arg for p in a.posonlyargs + a.args]
            if info.cls is not None and info.kind != 'staticmethod' and params:
                params = params[1:]
            names = set(params) | {p.arg for p in a.kwonlyargs}
            for i, v in enumerate(args):
                starred = isinstance(e.args[i], ast.Starred)
                if starred:
                    for p in params[i:]:
                        self.give(info, p, inside(v))
                elif i < len(params):
                    self.give(info, params[i], v)
                elif a.vararg:
                    self.give(info, a.vararg.arg, around(v))
            for k, v in kw:
                if k is None:
                    for p in names:
                        self.give(info, p, inside(v))
                    if a.kwarg:
                        self.give(info, a.kwarg.arg, copied(v))
                elif k in names:
                    self.give(info, k, v)
                elif a.kwarg:
                    self.give(info, a.kwarg.arg, around(v))
            out |= self.own.returns.get(info.qual, NOTHING)
        return out

    def give(self, info, param, facts):
        if facts:
            self.own.join(self.own.params, (info.qual, param), facts)
