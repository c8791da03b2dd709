"""Transfer functions of statements: each returns [(state, outcome)]"""
import ast
import builtins

from .expr import is_raised, is_raised_list
from .facts import strip_opt
from .loops import LoopsMixin
from .state import *
from .values import *

NEXT = ('next',)


class StmtsMixin(LoopsMixin):

    def exec_block(self, stmts, st, fr):
        live = [(st, NEXT)]
        done = []
        for stmt in stmts:
            nxt = []
            for s, out in live:
                for s2, out2 in self.exec(stmt, s, fr):
                    (nxt if out2 == NEXT else done).append((s2, out2))
            live = nxt
            if not live:
                break
            if len(live) + len(done) > self.MAX_PATHS:
                raise Undecided('too many paths')
        return done + live

    def exec(self, stmt, st, fr):
        method = getattr(self, 's_' + type(stmt).__name__, None)
        if method is None:
            raise Undecided(f'statement {type(stmt).__name__} at {self.loc(fr, stmt)}')
        return method(stmt, st, fr)

    def after_value(self, results, then):
        """continues non raising results with then(state, value) -> [(state, outcome)]"""
        out = []
        for s, v in results:
            if is_raised(v):
                out.append((s, ('raise', v)))
            else:
                out.extend(then(s, v))
        return out

    def s_Pass(self, stmt, st, fr):
        return [(st, NEXT)]

    def s_Break(self, stmt, st, fr):
        return [(st, ('break',))]

    def s_Continue(self, stmt, st, fr):
        return [(st, ('continue',))]

    def s_Global(self, stmt, st, fr):
        fr.globals.update(stmt.names)
        return [(st, NEXT)]

    def s_Nonlocal(self, stmt, st, fr):
        raise Undecided(f'nonlocal at {self.loc(fr, stmt)}')

    def s_Import(self, stmt, st, fr):
        st.env = dict(st.env)
        for name, target in self.prog.import_bindings(fr.module, stmt):
            st.env[name] = self.binding_value(self.prog.resolve_binding(target), st)
        return [(st, NEXT)]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, stmt, st, fr):
        st.env = dict(st.env)
        v = self.closure(stmt, st, fr)
        st.env[stmt.name] = v
        return [(st, NEXT)]

    def s_ClassDef(self, stmt, st, fr):
        st.env = dict(st.env)
        st.env[stmt.name] = ('u', f'local class {stmt.name}')
        return [(st, NEXT)]

    def s_Expr(self, stmt, st, fr):
        if isinstance(stmt.value, ast.Constant):
            return [(st, NEXT)]
        if isinstance(stmt.value, ast.YieldFrom):
            name = '#passed on'
            loop = ast.For(ast.Name(name, ast.Store()), stmt.value.value,
                           [ast.Expr(ast.Yield(ast.Name(name, ast.Load())))], [])
            for n in ast.walk(loop):
                ast.copy_location(n, stmt)
            return self.exec(loop, st, fr)
        return self.after_value(self.eval(stmt.value, st, fr), lambda s, v: [(s, NEXT)])

    def s_Return(self, stmt, st, fr):
        if stmt.value is None:
            return [(st, ('return', NONE))]
        return self.after_value(self.eval(stmt.value, st, fr), lambda s, v: [(s, ('return', v))])

    def s_Assert(self, stmt, st, fr):
        # assertions here are hints for the type checker: they give types, not conditions
        out = []
        before = set(st.facts)
        for s, truth in self.eval_cond(stmt.test, st, fr):
            if not isinstance(truth, bool):
                out.append((s, ('raise', truth)))
            elif truth:
                for f in [f for f in s.facts if f not in before and f[0] in ('isnone', 'isinst', 'truthy')]:
                    del s.facts[f]
                out.append((s, NEXT))
        return self.merge_outcomes(out)

    def s_Raise(self, stmt, st, fr):
        from .interp import Raised
        if stmt.exc is None:
            current = st.env.get('#exception')
            return [(st, ('raise', Raised(current[1] if current else 'Exception', current)))]
        exc = stmt.exc
        if isinstance(exc, ast.Call):
            exc = exc.func
        name = None
        ref = None
        if not (isinstance(exc, ast.Name) and exc.id in st.env):
            ref = self.prog.resolve_expr(fr.module, exc)
        if ref is not None and ref[0] == 'class':
            name = ref[1]
        elif ref is not None and ref[0] == 'ext':
            name = ref[1].split('.')[-1]
        elif isinstance(exc, ast.Name) and exc.id in st.env:
            v = st.env[exc.id]
            if v[0] == 'exc':
                return [(st, ('raise', Raised(v[1], v)))]
            if v[0] == 'k':
                name = v[1]
        if name is None and isinstance(stmt.exc, ast.Call):
            # made by a function
            def then(s, v):
                return [(s, ('raise', Raised(v[1] if v[0] == 'exc' else 'Exception', v)))]
            return self.after_value(self.eval(stmt.exc, st, fr), then)
        if name is None:
            name = 'Exception'
        return [(st, ('raise', Raised(name, ('exc', name), origin=self.loc(fr, stmt))))]

    # ---- assignment

    def s_Assign(self, stmt, st, fr):
        def then(s, v):
            live = [(s, None)]
            out = []
            for target in stmt.targets:
                nxt = []
                for s2, _ in live:
                    for s3, r in self.assign(target, v, s2, fr):
                        if r is None:
                            nxt.append((s3, None))
                        else:
                            out.append((s3, ('raise', r)))
                live = nxt
            return out + [(s2, NEXT) for s2, _ in live]
        return self.after_value(self.eval(stmt.value, st, fr), then)

    def s_AnnAssign(self, stmt, st, fr):
        if stmt.value is None:
            return [(st, NEXT)]

        def then(s, v):
            t = self.prog.parse_type(fr.module, stmt.annotation)
            if t is not None and v[0] not in ('o', 'c') and self.typeof(v, s) is None:
                s.types[v] = self.known[v] = t
            return [(s2, NEXT if r is None else ('raise', r)) for s2, r in self.assign(stmt.target, v, s, fr)]
        return self.after_value(self.eval(stmt.value, st, fr), then)

    def s_AugAssign(self, stmt, st, fr):
        load = ast.copy_location(_as_load(stmt.target), stmt)
        out = []
        for s, vals in self.eval_many([load, stmt.value], st, fr):
            if is_raised_list(vals):
                out.append((s, ('raise', vals)))
                continue
            a, b = vals
            t = strip_opt(self.typeof(a, s))
            op = type(stmt.op).__name__
            if op == 'Add' and (t is not None and t[0] == 'list'):
                c = self.content(b, s)
                res = self.grow(a, 'lext', c[1] if c[0] in ('L', 'T') else [('star', c)], s, fr, stmt)
                out.extend((s2, NEXT) for s2, _ in res)
                continue
            if op == 'BitOr' and t is not None and t[0] == 'dict':
                c = self.content(b, s)
                res = self.grow(a, 'dset', c[1] if c[0] == 'D' else [('star', c)], s, fr, stmt)
                out.extend((s2, NEXT) for s2, _ in res)
                continue
            if op == 'BitOr' and t is not None and t[0] == 'set':
                c = self.content(b, s)
                res = self.grow(a, 'sadd', c[1] if c[0] == 'S' else [('star', c)], s, fr, stmt)
                out.extend((s2, NEXT) for s2, _ in res)
                continue
            for s2, v in self.binop(op, a, b, s, fr, stmt):
                out.extend((s3, NEXT if r is None else ('raise', r)) for s3, r in self.assign(stmt.target, v, s2, fr))
        return out

    def assign(self, target, v, st, fr):
        """[(state, None or Raised)]"""
        if isinstance(target, ast.Name):
            if target.id in fr.globals:
                g = ('g', fr.module.name, target.id)
                st.ev.append(Ev('gset', target.id, ('mod', fr.module.name), (('value', v),), self.loc(fr, target)))
                st.ov[(g, '#value')] = v
                return [(st, None)]
            st.env = dict(st.env)
            st.env[target.id] = v
            return [(st, None)]
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, fr)
        if isinstance(target, (ast.Tuple, ast.List)):
            c = self.copied_sequence(self.content(self.iterated(v, st), st), st)
            n = len(target.elts)
            star = [i for i, t in enumerate(target.elts) if isinstance(t, ast.Starred)]
            plain = c[0] in ('L', 'T') and not any(e[0] in ('star', 'each', 'prev') for e in c[1])
            values = []
            if plain and not star and len(c[1]) == n:
                values = list(c[1])
            elif star:
                i = star[0]
                for j in range(n):
                    if j < i:
                        values.append(self.item(c, C(j), st))
                    elif j == i:
                        hi = NONE if i == n - 1 else C(i - n + 1)
                        if plain:
                            values.append(self.alloc(st, HObj('list', c[1][i:hi[2]])))
                        else:
                            values.append(sliced(c, C(i) if i else NONE, hi) if i or hi != NONE else
                                          self.alloc(st, HObj('list', (('star', c),))))
                    else:
                        values.append(self.item(c, C(j - n), st))
            else:
                values = [self.item(c, C(j), st) for j in range(n)]
            live = [(st, None)]
            for t, x in zip(target.elts, values):
                nxt = []
                for s, r in live:
                    if r is not None:
                        nxt.append((s, r))
                    else:
                        nxt.extend(self.assign(t, x, s, fr))
                live = nxt
            return live
        if isinstance(target, ast.Attribute):
            out = []
            for s, base in self.eval(target.value, st, fr):
                if is_raised(base):
                    out.append((s, base))
                else:
                    out.extend(self.store_attr(base, target.attr, v, s, fr, target))
            return out
        if isinstance(target, ast.Subscript):
            out = []
            if isinstance(target.slice, ast.Slice):
                for s, base in self.eval(target.value, st, fr):
                    if is_raised(base):
                        out.append((s, base))
                        continue
                    full = target.slice.lower is None and target.slice.upper is None and target.slice.step is None
                    if base[0] == 'o' and full:
                        c = self.content(v, s)
                        s.heap[base[1]] = s.heap[base[1]].with_entries(
                            c[1] if c[0] in ('L', 'T') else (('star', c),))
                    else:
                        s.ev.append(Ev('mut', 'slice', s.freeze(base), (('value', s.freeze(v)),),
                                       self.loc(fr, target)))
                        s.ov[(base, '#content')] = ('after', 'slice', s.freeze(base), s.freeze(v))
                    out.append((s, None))
                return out
            for s, vals in self.eval_many([target.value, target.slice], st, fr):
                if is_raised_list(vals):
                    out.append((s, vals))
                    continue
                base, key = vals
                t = strip_opt(self.typeof(base, s))
                if t is not None and t[0] == 'cls':
                    info = self.prog.find_method(t[1], '__setitem__')
                    if info is not None:
                        out.extend((s2, r if is_raised(r) else None) for s2, r in
                                   self.call_function(info, base, [key, v], [], s, fr, target))
                        continue
                if base[0] != 'o' and s.freeze(v) == self.item(base, s.freeze(key), s):
                    out.append((s, None))   # it is already there
                    continue
                if t is not None and t[0] == 'list' and base[0] == 'o' and key[0] == 'c':
                    obj = s.heap[base[1]]
                    if not any(e[0] in ('star', 'each', 'prev') for e in obj.entries) and \
                            isinstance(key[2], int) and -len(obj.entries) <= key[2] < len(obj.entries):
                        entries = list(obj.entries)
                        entries[key[2]] = v
                        s.heap[base[1]] = obj.with_entries(entries)
                        out.append((s, None))
                        continue
                    at = key[2] if key[2] in (0, -1) and obj.entries else None
                    if at is not None and obj.entries[at][0] == 'star':
                        # instead of the first or last one of a sequence
                        part = s.freeze(obj.entries[at][1])
                        new = (v, ('star', sliced(part, C(1), NONE))) if at == 0 else \
                            (('star', sliced(part, NONE, C(-1))), v)
                        s.heap[base[1]] = obj.with_entries(
                            (*new, *obj.entries[1:]) if at == 0 else (*obj.entries[:-1], *new))
                        out.append((s, None))
                        continue
                out.extend((s2, r if is_raised(r) and r is not None else None) for s2, r in
                           self.grow(base, 'dset', [('kv', as_key(s.freeze(key)), v)], s, fr, target))
            return out
        raise Undecided(f'assignment to {type(target).__name__}')

    def store_attr(self, base, name, v, st, fr, node):
        if base == NONE:
            return [(st, self.raised('AttributeError'))]
        if base[0] == 'mod':
            st.ev.append(Ev('gset', name, base, (('value', v),), self.loc(fr, node)))
            st.ov[(('g', base[1], name), '#value')] = v
            return [(st, None)]
        t = strip_opt(self.typeof(base, st))
        if t is not None and t[0] == 'cls':
            setter = self.prog.find_setter(t[1], name)
            if setter is not None:
                return [(s, r if is_raised(r) else None) for s, r in
                        self.call_function(setter, base, [v], [], st, fr, node)]
        if base[0] == 'o':
            st.heap[base[1]] = st.heap[base[1]].with_attr(name, v)
            return [(st, None)]
        st.ev.append(Ev('set', name, st.freeze(base), (('value', v),), self.loc(fr, node)))
        st.ov[(base, name)] = v
        return [(st, None)]

    def s_Delete(self, stmt, st, fr):
        live = [(st, NEXT)]
        for target in stmt.targets:
            nxt = []
            for s, out in live:
                if out != NEXT:
                    nxt.append((s, out))
                    continue
                if isinstance(target, ast.Name):
                    s.env = dict(s.env)
                    s.env.pop(target.id, None)
                    nxt.append((s, NEXT))
                elif isinstance(target, ast.Attribute):
                    for s2, base in self.eval(target.value, s, fr):
                        if is_raised(base):
                            nxt.append((s2, ('raise', base)))
                            continue
                        if base[0] == 'o':
                            obj = s2.heap[base[1]]
                            attrs = {n: x for n, x in obj.attrs.items() if n != target.attr}
                            s2.heap[base[1]] = HObj(obj.cls, obj.entries, attrs)
                        else:
                            s2.ev.append(Ev('delattr', target.attr, s2.freeze(base), (), self.loc(fr, target)))
                            s2.ov.pop((base, target.attr), None)
                        nxt.append((s2, NEXT))
                else:
                    for s2, vals in self.eval_many([target.value, target.slice], s, fr):
                        if is_raised_list(vals):
                            nxt.append((s2, ('raise', vals)))
                            continue
                        nxt.extend((s3, ('raise', r) if is_raised(r) else NEXT) for s3, r in
                                   self.delete_item(vals[0], vals[1], s2, fr, target))
            live = nxt
        return live

    # ---- branching

    def s_If(self, stmt, st, fr):
        out = []
        for s, truth in self.eval_cond(stmt.test, st, fr):
            if not isinstance(truth, bool):
                out.append((s, ('raise', truth)))
            else:
                out.extend(self.exec_block(stmt.body if truth else stmt.orelse, s, fr))
        return self.merge_outcomes(out)

    def merge_outcomes(self, outs):
        if len(outs) < 2:
            return outs
        res = self.merge_values([(s, o[1] if o[0] == 'raise' else ('out',) + o) for s, o in outs])
        return [(s, ('raise', v) if is_raised(v) else v[1:]) for s, v in res]

    def s_Match(self, stmt, st, fr):
        raise Undecided(f'match statement at {self.loc(fr, stmt)}')

    # ---- exceptions

    def exception_names(self, node, st, fr):
        if node is None:
            return ['BaseException']
        if isinstance(node, ast.Tuple):
            return [n for e in node.elts for n in self.exception_names(e, st, fr)]
        if isinstance(node, ast.Name) and node.id in st.env:
            names = self.exception_value_names(st.freeze(st.env[node.id]))
            if names:
                return names
        ref = self.prog.resolve_expr(fr.module, node)
        if ref is None:
            return [ast.unparse(node)]
        if ref[0] == 'class':
            return [ref[1]]
        if ref[0] == 'global':
            binding = self.prog.modules[ref[1]].bindings.get(ref[2])
            if binding and binding[0] == 'var' and binding[1] is not None:
                return self.exception_names(binding[1], st, fr)
        return [ref[-1].split('.')[-1]]

    def exception_value_names(self, v):
        if v[0] in ('T', 'L'):
            return [n for e in v[1] for n in self.exception_value_names(e)]
        if v[0] == 'k':
            return [v[1] if v[1] in self.prog.classes else v[1].split('.')[-1]]
        if v[0] in ('exc', 'x') and isinstance(v[-1], str):
            return [v[-1].split('.')[-1]]
        return []

    def catches(self, handler, name):
        """whether a handler for one exception name catches another"""
        if handler == name or handler == 'BaseException':
            return True
        bases = []
        if name in self.prog.classes:
            for b in self.prog.mro(name):
                bases.append(b)
                cls = getattr(builtins, b.split('.')[-1], None)
                if isinstance(cls, type):
                    bases += [c.__name__ for c in cls.__mro__]
        else:
            cls = getattr(builtins, name, None)
            if isinstance(cls, type):
                bases = [c.__name__ for c in cls.__mro__]
            else:
                bases = [name, 'Exception']
        return handler in bases

    def s_Try(self, stmt, st, fr):
        handlers = [(h, self.exception_names(h.type, st, fr)) for h in stmt.handlers]
        pushed = 0
        for h, names in handlers:
            for n in names:
                self.handlers.append((fr.depth, n))
                pushed += 1
        try:
            outs = self.exec_block(stmt.body, st, fr)
        finally:
            if pushed:
                del self.handlers[-pushed:]
        res = []
        for s, out in outs:
            if out == NEXT:
                res.extend(self.exec_block(stmt.orelse, s, fr) if stmt.orelse else [(s, out)])
                continue
            if out[0] != 'raise':
                res.append((s, out))
                continue
            exc = out[1]
            for h, names in handlers:
                if any(self.catches(n, exc.name) for n in names):
                    s.env = dict(s.env)
                    outer = s.env.get('#exception')
                    value = exc.value if exc.value is not None and exc.value[0] == 'exc' else ('exc', exc.name)
                    s.env['#exception'] = value
                    if h.name:
                        s.env[h.name] = value
                    for s2, out2 in self.exec_block(h.body, s, fr):
                        s2.env = dict(s2.env)
                        if outer is not None:
                            s2.env['#exception'] = outer
                        else:
                            s2.env.pop('#exception', None)
                        if h.name:
                            s2.env.pop(h.name, None)
                        res.append((s2, out2))
                    break
            else:
                res.append((s, out))
        if stmt.finalbody:
            final = []
            for s, out in res:
                for s2, out2 in self.exec_block(stmt.finalbody, s, fr):
                    final.append((s2, out if out2 == NEXT else out2))
            res = final
        return self.merge_outcomes(res)

    s_TryStar = s_Try

    # ---- with

    def s_With(self, stmt, st, fr):
        return self.with_items(list(stmt.items), stmt.body, st, fr)

    def with_items(self, items, body, st, fr):
        if not items:
            return self.exec_block(body, st, fr)
        item, rest = items[0], items[1:]

        def then(s, cm):
            return self.with_one(cm, item, lambda s2: self.with_items(rest, body, s2, fr), s, fr)
        return self.after_value(self.eval(item.context_expr, st, fr), then)

    def with_one(self, cm, item, body, st, fr):
        node = item.context_expr

        def bind_and_run(s, v):
            if item.optional_vars is None:
                return body(s)
            out = []
            for s2, r in self.assign(item.optional_vars, v, s, fr):
                out.extend(body(s2) if r is None else [(s2, ('raise', r))])
            return out

        if cm in self.cms:
            return self.with_generator(cm, bind_and_run, st, fr, node)
        t = strip_opt(self.typeof(cm, st))
        enter = leave = None
        if cm[0] == 'call' and cm[1] == 'contextlib.nullcontext':
            return bind_and_run(st, cm[2][0] if cm[2] and isinstance(cm[2][0], tuple) and len(cm[2][0]) != 2 else NONE)
        if t is not None and t[0] == 'cls':
            enter, leave = self.prog.find_method(t[1], '__enter__'), self.prog.find_method(t[1], '__exit__')
        if enter is not None and leave is not None:
            entered = self.call_function(enter, cm, [], [], st, fr, node)
        elif cm[0] == 'call' and (cm[1] == 'open' or isinstance(cm[1], str) and cm[1].endswith('.open')):
            return bind_and_run(st, cm)
        else:
            entered = self.opaque('__enter__', cm, (), st, fr, node)
        out = []
        for s, v in entered:
            if is_raised(v):
                out.append((s, ('raise', v)))
                continue
            for s2, outcome in bind_and_run(s, v):
                exc = outcome[1].name if outcome[0] == 'raise' else None
                if leave is not None:
                    args = [NONE] * 3 if exc is None else [('x', exc), ('exc', exc), ('u', 'traceback')]
                    left = self.call_function(leave, cm, args, [], s2, fr, node)
                else:
                    left = [(s3, NONE) for s3, _ in self.opaque('__exit__', cm, (), s2, fr, node)]
                for s3, r in left:
                    if is_raised(r):
                        out.append((s3, ('raise', r)))
                    elif exc is None:
                        out.append((s3, outcome))
                    else:
                        for s4, swallow in self.truth(r, s3):
                            out.append((s4, NEXT if swallow else outcome))
        return out

    def with_generator(self, cm, body, st, fr, node):
        from .interp import Frame
        info, selfval, pos, kw = self.cms[cm]
        if info.qual in self.stack or len(self.stack) >= self.MAX_DEPTH:
            raise Undecided(f'recursive context manager {info.qual}')
        if info.qual in self.atoms or info.qual in self.pure_atoms:
            args = self.bind_named(info, selfval, pos, kw, st)
            out = []
            for s, v in self.opaque(info.qual + ' enter', selfval, args, st, fr, node):
                if is_raised(v):
                    out.append((s, ('raise', v)))
                    continue
                for s2, outcome in body(s, v):
                    s2.ev.append(Ev('call', info.qual + ' exit', s2.freeze(selfval) if selfval else None, args,
                                    self.loc(fr, node)))
                    out.append((s2, outcome))
            return out
        given, extra, extra_kw, spread = self.bind(info, pos, kw, st)
        caller_env = st.env
        a = info.node.args
        env = {}
        params = list(a.posonlyargs) + list(a.args)
        defaults = [None] * (len(params) - len(a.defaults)) + list(a.defaults)
        for i, (p, d) in enumerate(list(zip(params, defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))):
            if i == 0 and info.cls is not None and info.kind != 'staticmethod':
                env[p.arg] = selfval
            elif p.arg in given:
                env[p.arg] = given[p.arg]
            elif d is not None:
                const = self.literal(d)
                env[p.arg] = const if const is not None else ('u', f'default {p.arg}')
            else:
                env[p.arg] = ('u', f'spread {p.arg}')
        if a.vararg:
            env[a.vararg.arg] = mk_tuple(tuple(extra))
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, HObj('dict', tuple(
                [('star', st.freeze(v)) for v in spread] + [('kv', C(n), v) for n, v in extra_kw])))
        fr2 = Frame(info, info.module, info.cls, fr.depth + 1, info.qual, selfval)

        def at_yield(s, v):
            gen_env = s.env
            s.env = dict(s.env['#caller'])
            qual = self.stack.pop()
            handlers = self.handlers
            # exceptions of the body are seen by the handlers around the yield, and by those around the with statement
            try:
                outs = body(s, v)
            finally:
                self.stack.append(qual)
                self.handlers = handlers
            res = []
            for s2, outcome in outs:
                env2 = dict(gen_env)
                env2['#caller'] = s2.env
                if outcome[0] == 'raise':
                    s2.env = env2
                    res.append((s2, outcome[1]))
                    continue
                env2['#pending'] = ('outcome',) + outcome
                s2.env = env2
                res.append((s2, NONE))
            return res
        fr2.yield_k = at_yield
        env['#caller'] = caller_env
        st.env = env
        self.stack.append(info.qual)
        self.visited.add(info.qual)
        try:
            outs = self.exec_block(info.node.body, st, fr2)
        finally:
            self.stack.pop()
        out = []
        for s, outcome in outs:
            pending = s.env.get('#pending')
            s.env = dict(s.env['#caller'])
            if outcome[0] == 'raise':
                out.append((s, outcome))
            elif pending is not None:
                out.append((s, pending[1:]))
            else:
                # the exception of the body was swallowed
                out.append((s, NEXT))
        return out

    def s_AsyncWith(self, stmt, st, fr):
        raise Undecided('async')


def _as_load(target):
    clone = ast.parse(ast.unparse(target), mode='eval').body
    for n in ast.walk(clone):
        if hasattr(n, 'lineno'):
            n.lineno, n.col_offset = target.lineno, target.col_offset
    return clone
