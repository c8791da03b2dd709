"""Transfer functions of calls: following functions of the package, effects of everything else"""
import ast
import builtins

from .builtin_calls import BuiltinCallsMixin
from .expr import is_raised, is_raised_list
from .facts import EXTERNAL_TYPES, strip_opt
from .state import *
from .values import *


class CallsMixin(BuiltinCallsMixin):

    def x_Call(self, node, st, fr):
        if self.is_log_call(node, st, fr):
            return [(st, NONE)]
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args:
            return [(st, ('super', fr.cls.qual if fr.cls else '', fr.selfval))]
        out = []
        for s, fn in self.eval(node.func, st, fr):
            if is_raised(fn):
                out.append((s, fn))
                continue
            # arguments in evaluation order, generator arguments are evaluated like lists
            nodes = [a.value if isinstance(a, ast.Starred) else a for a in node.args] + \
                    [k.value for k in node.keywords]
            for s2, vals in self.eval_many(nodes, s, fr):
                if is_raised_list(vals):
                    out.append((s2, vals))
                    continue
                pos, kw = [], []
                for a, v in zip(node.args, vals):
                    if isinstance(a, ast.Starred):
                        c = self.content(v, s2)
                        pos.extend(c[1] if c[0] in ('L', 'T') else [('star', c)])
                    else:
                        pos.append(v)
                for k, v in zip(node.keywords, vals[len(node.args):]):
                    if k.arg is None:
                        c = self.content(v, s2)
                        kinds = [e[0] for e in c[1]] if c[0] == 'D' else []
                        if 'kv' in kinds and any(x != 'kv' for x in kinds[kinds.index('kv'):]):
                            # what comes later may replace what is known
                            kw.append((None, c))
                        elif c[0] == 'D':
                            for e in c[1]:
                                if e[0] == 'kv' and e[1][0] == 'c' and isinstance(e[1][2], str):
                                    kw = [x for x in kw if x[0] != e[1][2]] + [(e[1][2], e[2])]
                                elif e[0] == 'star':
                                    kw.append((None, e[1]))
                                else:
                                    kw.append((None, ('D', (e,))))
                        else:
                            kw.append((None, c))
                    else:
                        kw.append((k.arg, v))
                out.extend(self.call_value(fn, pos, kw, s2, fr, node))
        return out

    def is_log_call(self, node, st, fr):
        func = node.func
        if not isinstance(func, ast.Attribute) or self.keep_log:
            return False
        if isinstance(func.value, ast.Name) and func.value.id not in st.env:
            target = self.prog.resolve_name(fr.module, func.value.id)
            if target == ('ext', 'warnings') and func.attr == 'warn':
                return True
            if target is not None and target[0] == 'global' and target[2] == 'logger' and func.attr in (
                    'debug', 'info', 'warning', 'error', 'exception', 'log', 'critical'):
                return True
        return False

    # ---- dispatch

    def call_value(self, fn, pos, kw, st, fr, node):
        self.call_sites += 1
        kind = fn[0]
        if kind == 'f':
            info = self.prog.funcs[fn[1]]
            selfval = fn[2]
            if selfval is None and info.cls is not None and info.kind in ('function', 'property') and pos:
                selfval, pos = pos[0], pos[1:]
            return self.call_function(info, selfval, pos, kw, st, fr, node)
        if kind == 'superf':
            info = self.prog.funcs[fn[1]]
            if info.qual in self.atoms or info.qual in self.pure_atoms or info.qual in self.stack:
                if info.qual not in self.stack:
                    self.met.add(self.rename.get(info.qual, info.qual))
                return self.opaque(info.qual, fn[2], self.bind_named(info, fn[2], pos, kw, st), st, fr, node,
                                   pure=info.qual in self.pure_atoms)
            return self.inline(info, fn[2], pos, kw, st, fr, node)
        if kind == 'superm':
            _, selfval, name, bases = fn
            if any(b in ('dict', 'collections.OrderedDict', 'collections.UserDict') for b in bases) and name in (
                    '__init__', 'update', '__setitem__', 'pop', 'clear', '__delitem__', 'setdefault'):
                if name == '__init__' and not pos and not kw:
                    return [(st, NONE)]
                return self.mutate(selfval, 'update' if name == '__init__' else name, pos, kw, st, fr, node)
            if name in ('__init__', '__init_subclass__') and not pos and not kw:
                return [(st, NONE)]
            return self.opaque('super ' + name, selfval, self.plain_args(pos, kw, st), st, fr, node)
        if kind == 'k':
            return self.construct(fn[1], pos, kw, st, fr, node)
        if kind == 'x':
            owner, _, method = fn[1].rpartition('.')
            if owner in EXTERNAL_TYPES:
                return self.call_method(('x', owner), method, pos, kw, st, fr, node)
            return self.call_external(fn[1], pos, kw, st, fr, node)
        if kind in ('m', 'a'):
            hook = self.hook_name(fn)
            if hook is not None:
                return self.call_hook(hook, fn, pos, kw, st, fr, node)
            if kind == 'm' or self.is_method_like(fn, st):
                return self.call_method(fn[1], fn[2], pos, kw, st, fr, node)
        if kind == 'call' and fn[1] == 'functools.partial' and fn[2]:
            bound = dict(fn[3])
            bound.update(kw)
            return self.call_value(fn[2][0], list(fn[2][1:]) + list(pos), list(bound.items()), st, fr, node)
        if kind == 'lam':
            return self.call_closure(fn, pos, kw, st, fr, node)
        t = strip_opt(self.typeof(fn, st))
        if t is not None and t[0] == 'cls':
            info = self.prog.find_method(t[1], '__call__')
            if info is not None:
                return self.call_function(info, fn, pos, kw, st, fr, node)
        # something the user supplied, or otherwise unknown
        return self.opaque(st.freeze(fn), None, self.plain_args(pos, kw, st), st, fr, node)

    def is_method_like(self, fn, st):
        """an attribute of an unknown object which is called: treated as a method of that name"""
        return True

    def hook_name(self, fn):
        """name of a plugin hook when the callee is <plugin manager>.hook.<name>"""
        if fn[0] == 'a' and fn[2].startswith('pyfileconf_'):
            base = fn[1]
            if base[0] == 'a' and base[2] == 'hook':
                return fn[2]
        return None

    def call_hook(self, hook, fn, pos, kw, st, fr, node):
        args = tuple(sorted((n or '**', st.freeze(v)) for n, v in kw)) + tuple(
            ('*', st.freeze(v)) for v in pos)
        st.ev.append(Ev('hook', hook, st.freeze(fn[1][1]), args, self.loc(fr, node)))
        value = self.with_occ(st, ('hook', hook, args))
        return self.fallible(st, value, fr, value, {}, effectful=True)

    def with_occ(self, st, value):
        n = st.cnt.get(value, 0)
        st.cnt[value] = n + 1
        return ('call', value[1], *value[2:], n) if value[0] == 'call' else \
            ('call', value[1], (), value[2], n)

    def plain_args(self, pos, kw, st):
        out = [(str(i) if v[0] != 'star' else '*', st.freeze(v)) for i, v in enumerate(pos)]
        out += sorted(((n or '**', st.freeze(v)) for n, v in kw), key=repr)
        return tuple(out)

    def opaque(self, name, recv, args, st, fr, node, pure=False):
        """a call whose effect is itself"""
        recv = st.freeze(recv) if recv is not None else None
        value = ('call', name, () if recv is None else (recv,), args)
        if pure:
            fresh = self.prog.returns_fresh(name)
            result = value
            if fresh is not None:
                # a new container which only the caller has
                result = self.alloc(st, HObj(fresh, (('star', value),)))
            return self.fallible(st, result, fr, value, {}, effectful=False)
        ev = Ev('call', name, recv, args, self.loc(fr, node))
        value = self.with_occ(st, value)
        ev.result = value
        st.ev.append(ev)
        return self.fallible(st, value, fr, value, {}, effectful=True)

    # ---- functions of the package

    def renamed_args(self, info, target, args):
        """arguments of a reference definition under the names of the parameters of what it stands for"""
        if target is None:
            return args
        names = [[p.arg for p in i.node.args.posonlyargs + i.node.args.args] for i in (info, target)]
        table = dict(zip(*names))
        return tuple((table.get(n, n), v) for n, v in args)

    def can_follow(self, info, cls, base):
        if base is not None and (base == ('s', 'self') or base[0] in ('o', 'super') or base[0] == 'k'
                                 or base[0] == 'call' and base[1] in self.prog.classes):
            return True
        find = self.prog.find_setter if info.kind == 'setter' else self.prog.find_method
        for sub in self.prog.subclasses(cls):
            if find(sub, info.name) is not info:
                return False
        return True

    def call_function(self, info, selfval, pos, kw, st, fr, node):
        qual = info.qual
        if self.spreads is not None and fr.depth == 0:
            for n, v in kw:
                if n is None:
                    v = st.freeze(v)
                    parts = [v] + [e[1] for e in v[1] if e[0] in ('star', 'each')] if v[0] == 'D' else [v]
                    self.spreads.append((info, v, [strip_opt(self.typeof(x, st)) for x in parts], node))
        if info.is_contextmanager or (info.is_generator and not info.is_contextmanager):
            args = self.bind_named(info, selfval, pos, kw, st)
            recv = st.freeze(selfval) if selfval is not None else None
            value = ('call', qual, () if recv is None else (recv,), args)
            if info.is_contextmanager:
                self.cms[value] = (info, selfval, pos, kw)
            return [(st, value)]
        atom = qual in self.atoms
        pure = qual in self.pure_atoms
        if atom or pure:
            self.met.add(self.rename.get(qual, qual))
        follow = not atom and not pure and qual not in self.stack and qual not in self.no_follow and len(self.stack) < self.MAX_DEPTH
        if follow and self.inline_only is not None and not self.inline_only(info):
            follow = False
        if follow and info.cls is not None and selfval is not None and info.kind != 'staticmethod':
            t = strip_opt(self.typeof(selfval, st)) if selfval[0] != 'super' else None
            cls = t[1] if t is not None and t[0] == 'cls' else info.cls.qual
            if selfval[0] != 'super' and not self.can_follow(info, cls, selfval):
                follow = False
        if not follow:
            args = self.bind_named(info, selfval, pos, kw, st)
            if not atom and not pure and qual not in self.rename:
                self.cut.add(self.rename.get(qual, qual))
            if qual in self.rename:
                args = self.renamed_args(info, self.prog.funcs.get(self.rename[qual]), args)
                # a reference definition which stands for a method
                target = self.prog.funcs.get(self.rename[qual])
                if target is not None and target.kind == 'property':
                    return [(st, ('a', st.freeze(selfval if selfval is not None else args[0][1]), target.name))]
                if target is not None and target.cls is not None and target.kind != 'staticmethod':
                    if selfval is not None:
                        return self.opaque(target.qual, selfval, args, st, fr, node, pure=pure)
                    return self.opaque(target.qual, args[0][1], args[1:], st, fr, node, pure=pure)
                return self.opaque(self.rename[qual], None, args, st, fr, node, pure=pure)
            return self.opaque(qual, selfval if info.kind != 'staticmethod' else None, args, st, fr, node, pure=pure)
        return self.inline(info, selfval, pos, kw, st, fr, node)

    def params_of(self, info):
        a = info.node.args
        params = [p.arg for p in list(a.posonlyargs) + list(a.args)]
        if info.cls is not None and info.kind != 'staticmethod':
            params = params[1:]
        return params

    def bind(self, info, pos, kw, st):
        """(given {param: value}, extra positional, extra keywords, spread keywords)"""
        a = info.node.args
        params = self.params_of(info)
        given, extra = {}, []
        for i, v in enumerate(pos):
            if v[0] == 'star' or extra or i >= len(params):
                extra.append(v)
            else:
                given[params[i]] = v
        names = set(params) | {p.arg for p in a.kwonlyargs}
        extra_kw, spread = [], []
        for n, v in kw:
            if n is None:
                spread.append(v)
            elif n in names:
                given[n] = v
            else:
                extra_kw.append((n, v))
        return given, extra, extra_kw, spread

    def bind_named(self, info, selfval, pos, kw, st):
        given, extra, extra_kw, spread = self.bind(info, pos, kw, st)
        a = info.node.args
        out = []
        params = list(a.posonlyargs) + list(a.args)
        defaults = [None] * (len(params) - len(a.defaults)) + list(a.defaults)
        pairs = list(zip(params, defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
        if info.cls is not None and info.kind != 'staticmethod':
            pairs = pairs[1:]
        merged = self.MERGED.get(self.rename.get(info.qual, info.qual))
        if merged is not None and (not spread or all(p.arg in given or p.arg == merged for p, default in pairs)):
            # a dictionary and keywords which are used as one
            entries = [('star', given.get(merged, NONE))] + [('kv', C(n), v) for n, v in extra_kw] + \
                      [('star', v) for v in spread]
            given[merged] = mk_dict(tuple(('star', st.freeze(e[1])) if e[0] == 'star' else
                                          ('kv', e[1], st.freeze(e[2])) for e in entries if e[1] != NONE))
            extra_kw, spread = [], []
        for p, default in pairs:
            if p.arg in given:
                out.append((p.arg, st.freeze(given[p.arg])))
            elif default is not None and not spread and not any(v[0] == 'star' for v in extra):
                const = self.literal(default)
                out.append((p.arg, const if const is not None else ('u', 'default ' + ast.unparse(default))))
        out += [('*', st.freeze(v[1] if v[0] == 'star' else v)) for v in extra]
        out += sorted(((n, st.freeze(v)) for n, v in extra_kw), key=repr)
        out += sorted((('**', st.freeze(v)) for v in spread), key=repr)
        return tuple(out)

    def inline(self, info, selfval, pos, kw, st, fr, node):
        from .interp import Frame
        if info.qual in self.redirect:
            target = self.prog.funcs[self.redirect[info.qual]]
            target.cls, target.kind = info.cls, info.kind
            names = [[p.arg for p in i.node.args.posonlyargs + i.node.args.args] for i in (info, target)]
            table = dict(zip(*names))
            kw = [(table.get(n, n), v) for n, v in kw]
            info = target
        a = info.node.args
        given, extra, extra_kw, spread = self.bind(info, pos, kw, st)
        fr2 = Frame(info, info.module, info.cls, fr.depth + 1, info.qual, selfval)
        env = {}
        params = list(a.posonlyargs) + list(a.args)
        defaults = [None] * (len(params) - len(a.defaults)) + list(a.defaults)
        todo = []
        first = True
        for p, default in list(zip(params, defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if first and info.cls is not None and info.kind != 'staticmethod':
                first = False
                env[p.arg] = selfval
                continue
            first = False
            if p.arg in given:
                env[p.arg] = given[p.arg]
                t = self.prog.parse_type(info.module, p.annotation)
                v = given[p.arg]
                if t is not None and v[0] != 'c' and v[0] != 'o' and self.typeof(v, st) is None:
                    st.types[v] = self.known[v] = t
            elif spread and a.kwarg is None:
                env[p.arg] = ('i', st.freeze(spread[0]), C(p.arg))
            elif default is not None:
                todo.append((p.arg, default))
            else:
                if any(v[0] == 'star' for v in extra):
                    env[p.arg] = ('u', f'spread {p.arg}')
                else:
                    # missing argument
                    return [(st, self.raised('TypeError'))]
        if a.vararg:
            env[a.vararg.arg] = mk_tuple(tuple(extra))
        if a.kwarg:
            entries = [('star', st.freeze(v)) for v in spread] + [('kv', C(n), v) for n, v in extra_kw]
            env[a.kwarg.arg] = self.alloc(st, HObj('dict', tuple(entries)))
        saved = st.env
        results = [(st, None)]
        for name, default in todo:
            st.env = {}
            vals = self.eval(default, st, fr2)
            if len(vals) != 1 or is_raised(vals[0][1]):
                raise Undecided(f'default of {info.qual}.{name}')
            v = vals[0][1]
            if v[0] == 'o':
                v = ('a', ('f', info.qual, None), f'default {name}')
            env[name] = v
        st.env = env
        self.stack.append(info.qual)
        self.visited.add(info.qual)
        try:
            outs = self.exec_block(info.node.body, st, fr2)
        finally:
            self.stack.pop()
        out = []
        for s, outcome in outs:
            s.env = dict(saved)
            if outcome[0] == 'return':
                out.append((s, outcome[1]))
            elif outcome[0] == 'raise':
                out.append((s, outcome[1]))
            else:
                out.append((s, NONE))
        return self.merge_values(out)

    def call_closure(self, fn, pos, kw, st, fr, node):
        key = fn[1]
        if key not in self.closures or key in self.stack or len(self.stack) >= self.MAX_DEPTH:
            return self.opaque(st.freeze(fn), None, self.plain_args(pos, kw, st), st, fr, node)
        lam, fr0 = self.closures[key]
        env = dict(fn[2])
        a = lam.args
        params = [p.arg for p in list(a.posonlyargs) + list(a.args)]
        for n, v in zip(params, pos):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = mk_tuple(tuple(pos[len(params):]))
        extra = []
        for n, v in kw:
            if n in params or n in [p.arg for p in a.kwonlyargs]:
                env[n] = v
            else:
                extra.append((n, v))
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, HObj('dict', tuple(
                ('star', st.freeze(v)) if n is None else ('kv', C(n), v) for n, v in extra)))
        defaults = [None] * (len(params) - len(a.defaults)) + list(a.defaults)
        for n, d in zip(params, defaults):
            if n not in env or (n in dict(fn[2]) and n not in dict(zip(params, pos)) and n not in dict(kw)):
                if d is not None:
                    const = self.literal(d)
                    env[n] = const if const is not None else ('u', f'default {n}')
        saved = st.env
        st.env = env
        self.stack.append(key)
        from .interp import Frame
        fr2 = Frame(fr0.info, fr0.module, fr0.cls, fr.depth + 1, fr0.qual, fr0.selfval)
        try:
            if isinstance(lam, ast.Lambda):
                outs = [(s, ('return', v) if not is_raised(v) else ('raise', v)) for s, v in
                        self.eval(lam.body, st, fr2)]
            else:
                outs = self.exec_block(lam.body, st, fr2)
        finally:
            self.stack.pop()
        out = []
        for s, outcome in outs:
            s.env = dict(saved)
            out.append((s, outcome[1] if outcome[0] in ('return', 'raise') else NONE))
        return out

    # ---- classes

    def is_exception(self, cls):
        return any(isinstance(getattr(builtins, b.split('.')[-1], None), type)
                   and issubclass(getattr(builtins, b.split('.')[-1]), BaseException)
                   for b in self.prog.external_bases(cls))

    def construct(self, cls, pos, kw, st, fr, node):
        if self.is_exception(cls) and cls not in self.pure_atoms:
            return [(st, ('exc', cls))]
        init = self.prog.find_method(cls, '__init__')
        if cls in self.inline_classes:
            obj = self.alloc(st, HObj(cls))
            if init is None:
                return [(st, obj)]
            return [(s, v if is_raised(v) else obj) for s, v in
                    self.inline(init, obj, pos, kw, st, fr, node)]
        args = self.bind_named(init, None, pos, kw, st) if init is not None else self.plain_args(pos, kw, st)
        if cls in self.pure_atoms or self.pure_constructors:
            value = ('call', cls, (), args)
            if cls in self.pure_atoms:
                return [(st, value)]
            made = st.cnt.get(('made', value), 0)
            st.cnt[('made', value)] = made + 1
            if made:
                value = value + (made,)      # another object than the ones made in the same way before
            return self.fallible(st, value, fr, value, {}, effectful=True)
        return self.opaque(cls, None, args, st, fr, node)

    def super_attr(self, base, name, st, fr, node):
        _, after, selfval = base
        t = strip_opt(self.typeof(selfval, st)) if selfval is not None and selfval[0] != 'k' else None
        cls = selfval[1] if selfval is not None and selfval[0] == 'k' else (t[1] if t and t[0] == 'cls' else after)
        if not self.prog.is_subclass(cls, after):
            cls = after
        info = self.prog.find_method(cls, name, after=after)
        if info is not None:
            if info.kind == 'property':
                return self.inline(info, selfval, [], [], st, fr, node)
            return [(st, ('f', info.qual, selfval))] if info.kind == 'classmethod' else \
                [(st, ('superf', info.qual, selfval))]
        return [(st, ('superm', selfval, name, tuple(self.prog.external_bases(cls))))]

    # ---- merging of states which differ in irrelevant conditions only

    def merge_values(self, results):
        """results: [(state, value)]; two states which are equal but for the polarity of one fact become one"""
        if len(results) < 2:
            return results
        work = list(results)
        changed = True
        while changed:
            changed = False
            for i in range(len(work)):
                for j in range(i + 1, len(work)):
                    m = self.merge_pair(work[i], work[j])
                    if m is not None:
                        work[i] = m
                        del work[j]
                        changed = True
                        break
                if changed:
                    break
        return work

    def merge_pair(self, a, b):
        self.check_budget()
        (s1, v1), (s2, v2) = a, b
        if len(s1.ev) != len(s2.ev):
            return None
        if is_raised(v1) or is_raised(v2):
            if not (is_raised(v1) and is_raised(v2) and v1.name == v2.name):
                return None
        elif not self.same_outcome_value(v1, v2):
            return None
        if len(s1.facts) != len(s2.facts):
            return None
        diff = None
        for k, v in s1.facts.items():
            if k not in s2.facts:
                return None
            if s2.facts[k] != v:
                if diff is not None:
                    return None
                diff = k
        if s1.env != s2.env or s1.ov != s2.ov or s1.cnt != s2.cnt:
            return None
        for e1, e2 in zip(s1.ev, s2.ev):
            if e1 is not e2 and e1.key() != e2.key():
                return None
        if s1.heap.keys() != s2.heap.keys():
            reach = self.reachable(s1, v1) | self.reachable(s2, v2) | (s1.heap.keys() & s2.heap.keys())
        else:
            reach = s1.heap.keys()
        for k in reach:
            o1, o2 = s1.heap.get(k), s2.heap.get(k)
            if o1 is o2:
                continue
            if o1 is None or o2 is None or not o1.same(o2):
                return None
        if diff is not None:
            del s1.facts[diff]
        s1.types = {k: t for k, t in s1.types.items() if s2.types.get(k) == t}
        for k in list(s2.heap):
            s1.heap.setdefault(k, s2.heap[k])
        return (s1, v1)

    def same_outcome_value(self, v1, v2):
        if isinstance(v1, tuple) and isinstance(v2, tuple) and len(v1) > 1 and len(v2) > 1 \
                and isinstance(v1[0], str) and v1[0] in ('return', 'next', 'break', 'continue') and v1[0] == v2[0]:
            return v1 == v2
        return v1 == v2

    def reachable(self, st, value):
        todo, seen = [value, *st.env.values(), *st.ov.values()], set()
        for e in st.ev:
            if e.kind == 'set':
                todo.extend(v for n, v in e.args)
        while todo:
            v = todo.pop()
            if isinstance(v, dict):
                todo.extend(v.values())
                continue
            if not isinstance(v, tuple) or not v:
                continue
            if v[0] == 'o':
                if v[1] not in seen:
                    seen.add(v[1])
                    obj = st.heap.get(v[1])
                    if obj is not None:
                        todo.extend(obj.entries)
                        todo.extend(obj.attrs.values())
                continue
            if v[0] == 'c':
                continue
            todo.extend(x for x in v if isinstance(x, tuple))
        return seen
