"""Transfer functions of expressions: each returns [(state, value or Raised)]"""
import ast
import builtins

from .facts import strip_opt
from .state import *
from .values import *

MAX_UNROLL = 8


def is_raised(v):
    return not isinstance(v, tuple)


class ExprMixin:

    # ---- sequencing helpers

    def each_state(self, results, then):
        """continues every non raising result with then(state, value)"""
        out = []
        for st, v in results:
            if is_raised(v):
                out.append((st, v))
            else:
                out.extend(then(st, v))
        return out

    def eval_many(self, nodes, st, fr):
        """[(state, [values] or Raised)]"""
        results = [(st, [])]
        for node in nodes:
            nxt = []
            for s, vals in results:
                if not isinstance(vals, list):
                    nxt.append((s, vals))
                    continue
                for s2, v in self.eval(node, s, fr):
                    nxt.append((s2, v) if is_raised(v) else (s2, vals + [v]))
            results = nxt
        return results

    def eval(self, node, st, fr):
        method = getattr(self, 'x_' + type(node).__name__, None)
        if method is None:
            raise Undecided(f'expression {type(node).__name__} at {self.loc(fr, node)}')
        return method(node, st, fr)

    def eval_cond(self, node, st, fr):
        """[(state, bool or Raised)] of a condition, short circuiting"""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            results = [(st, is_and)]
            for sub in node.values:
                nxt = []
                for s, truth in results:
                    if truth is not is_and:
                        nxt.append((s, truth))
                    else:
                        nxt.extend(self.eval_cond(sub, s, fr))
                results = nxt
            return results
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, b if not isinstance(b, bool) else not b) for s, b in self.eval_cond(node.operand, st, fr)]
        out = []
        for s, v in self.eval(node, st, fr):
            if is_raised(v):
                out.append((s, v))
            else:
                out.extend(self.truth_obj(v, s, fr))
        return out

    def truth_obj(self, v, st, fr):
        v2 = self.content(v, st)
        return self.truth(v2, st)

    # ---- content of containers

    def content(self, v, st):
        """the current content of a container: local object, or unknown container with changes made on this path"""
        if v[0] == 'o':
            obj = st.heap[v[1]]
            if obj.cls in ('dict', 'list', 'set') or obj.entries:
                if obj.cls not in ('dict', 'list', 'set'):
                    return mk_dict(tuple(st.freeze(e) for e in obj.entries))
                return st.freeze(v)
            return v
        got = st.ov.get((v, '#content'))
        if got is not None:
            return got
        return v

    def narrow(self, cont, key):
        """drops entries of a dict which can not matter for the given key"""
        if cont[0] != 'D':
            return cont
        entries = list(cont[1])
        while entries and key[0] == 'c':
            e = entries[-1]
            if e[0] in ('kv', 'del') and e[1][0] == 'c' and e[1] != key:
                entries.pop()
                continue
            break
        while entries and key[0] == 'key' and entries[-1] == ('prev', key[1], 'own key'):
            entries.pop()
        if len(entries) == 1 and entries[0][0] == 'star':
            return entries[0][1]
        return ('D', tuple(entries)) if len(entries) != len(cont[1]) else cont

    def item(self, base, key, st, raw=False):
        """value of base[key] without considering failure"""
        if base[0] == 'o' and st.heap[base[1]].cls == 'dict' and key[0] not in ('key', 'idx'):
            last = next(iter(reversed(st.heap[base[1]].entries)), None)
            if last is not None and last[0] == 'kv' and last[2][0] == 'o' and st.freeze(last[1]) == key:
                return last[2]      # the object itself, which can be changed
        cont = base if raw else self.content(base, st)
        if key[0] == 'key' and key[1] == cont or key[0] == 'key' and key[1] == base:
            return ('val', key[1])
        if key[0] == 'idx' and key[1] in (cont, base):
            return ('el', key[1])
        if key[0] == 'el' and cont[0] not in ('L', 'T') and strip_opt(self.typeof(cont, st) or ('?',))[0] == 'dict' \
                and key[1] in (cont, base):
            return ('val', key[1])
        if cont[0] == 'D':
            cont = self.narrow(cont, key)
            if cont[0] == 'D':
                for e in reversed(cont[1]):
                    if e[0] == 'kv' and e[1] == key:
                        return e[2]
                    if e[0] == 'each' and e[3][0] == 'kv' and e[3][1] == key and not e[2]:
                        return e[3][2]
                    if e[0] == 'star' and key == ('key', e[1]):
                        return ('val', e[1])
                    if e[0] == 'star' and st.facts.get(('in', key, e[1])) is False:
                        continue
                    break
            else:
                return self.item(cont, key, st, raw=True)
        if cont[0] in ('L', 'T') and key[0] == 'c' and isinstance(key[2], int):
            entries = cont[1]
            n = key[2]
            plain = lambda es: not any(e[0] in ('star', 'each', 'prev') for e in es)
            if n >= 0 and n < len(entries) and plain(entries[:n + 1]):
                return entries[n]
            if n < 0 and -n <= len(entries) and plain(entries[n:]):
                return entries[n]
        if cont[0] == 'c' and key[0] == 'c' and isinstance(cont[2], (str, tuple)):
            try:
                return C(cont[2][key[2]])
            except Exception:
                pass
        cont = self.copied_sequence(cont, st)
        if cont[0] == 'sl' and cont[3] == NONE and cont[2][0] == key[0] == 'c' and isinstance(key[2], int) \
                and isinstance(cont[2][2], int) and cont[2][2] >= 0 and key[2] >= 0:
            return ('i', cont[1], C(cont[2][2] + key[2]))
        return ('i', cont, key)

    def copied_sequence(self, cont, st):
        """the sequence of which this one is a copy"""
        if cont[0] == 'call' and cont[1] in ('list', 'tuple') and len(cont[2]) == 1:
            return cont[2][0]
        if cont[0] in ('L', 'T') and len(cont[1]) == 1 and cont[1][0][0] == 'star':
            inner = st.freeze(cont[1][0][1])
            t = strip_opt(self.typeof(inner, st))
            if inner[0] in ('sl', 'split') or t is not None and t[0] in ('list', 'tuple'):
                return inner
        return cont

    # ---- leaves

    def x_Constant(self, node, st, fr):
        return [(st, ('c', type(node.value).__name__, node.value))]

    def x_Name(self, node, st, fr):
        return [(st, self.name_value(node.id, st, fr))]

    def name_value(self, name, st, fr):
        if name in st.env and name not in fr.globals:
            return st.env[name]
        if name in fr.local_imports:
            return self.binding_value(fr.local_imports[name], st)
        target = self.prog.resolve_name(fr.module, name)
        if target is None:
            return ('u', name)
        return self.binding_value(target, st)

    def binding_value(self, target, st):
        kind = target[0]
        if kind == 'func':
            return ('f', target[1], None)
        if kind == 'class':
            return ('k', target[1])
        if kind == 'module':
            return ('mod', target[1])
        if kind == 'ext':
            return ('x', target[1])
        if kind == 'global':
            v = ('g', target[1], target[2])
            if (v, '#value') in st.ov:
                return st.ov[(v, '#value')]
            binding = self.prog.modules[target[1]].bindings.get(target[2])
            if binding and binding[0] == 'var' and binding[1] is not None:
                const = self.literal(binding[1])
                if const is not None and not self.is_reassigned(target[1], target[2]):
                    return const
                entries = self.constant_list(self.prog.modules[target[1]], binding[1])
                if entries is not None and not self.is_reassigned(target[1], target[2]) \
                        and not self.may_be_mutated(target[2]):
                    return ('L', entries)
            return v
        return ('u', str(target))

    def constant_list(self, mod, expr, depth=0):
        """entries of a list of constants which is written down in a module, or None"""
        if isinstance(expr, ast.List):
            parts = [self.literal(e) for e in expr.elts]
            return tuple(parts) if all(p is not None for p in parts) else None
        if isinstance(expr, ast.BinOp) and isinstance(expr.op, ast.Add):
            parts = [self.constant_list(mod, e, depth) for e in (expr.left, expr.right)]
            return parts[0] + parts[1] if None not in parts else None
        if isinstance(expr, ast.Name) and depth < 3 and not self.may_be_mutated(expr.id):
            binding = mod.bindings.get(expr.id)
            if binding and binding[0] == 'var' and binding[1] is not None \
                    and not self.is_reassigned(mod.name, expr.id):
                return self.constant_list(mod, binding[1], depth + 1)
        return None

    def may_be_mutated(self, name):
        """whether anything of this name is changed in place or handed on anywhere in the package"""
        cache = self.prog.__dict__.setdefault('_handed_on', None)
        if cache is None:
            cache = set()

            def name_of(e):
                return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None
            for mod in self.prog.modules.values():
                for n in ast.walk(mod.tree):
                    if isinstance(n, ast.Call):
                        if isinstance(n.func, ast.Attribute):
                            cache.add(name_of(n.func.value))
                        for a in list(n.args) + [k.value for k in n.keywords]:
                            cache.add(name_of(a))
                    elif isinstance(n, (ast.Subscript, ast.Attribute)) and not isinstance(n.ctx, ast.Load):
                        cache.add(name_of(n.value))
                    elif isinstance(n, ast.AugAssign):
                        cache.add(name_of(n.target))
            self.prog.__dict__['_handed_on'] = cache
        return name in cache

    def is_reassigned(self, modname, name):
        """whether a module global is rebound by a function of its module or from another module"""
        cache = self.prog.__dict__.setdefault('_reassigned', None)
        if cache is None:
            cache = set()
            for mod in self.prog.modules.values():
                for node in ast.walk(mod.tree):
                    if isinstance(node, ast.Global):
                        cache.update((mod.name, n) for n in node.names)
                    targets = node.targets if isinstance(node, ast.Assign) else \
                        [node.target] if isinstance(node, (ast.AugAssign, ast.AnnAssign)) else []
                    for t in targets:
                        if isinstance(t, ast.Attribute):
                            ref = self.prog.resolve_expr(mod, t.value)
                            if ref is not None and ref[0] == 'module':
                                cache.add((ref[1], t.attr))
            self.prog.__dict__['_reassigned'] = cache
        return (modname, name) in cache

    def literal(self, expr):
        if isinstance(expr, ast.Constant):
            return ('c', type(expr.value).__name__, expr.value)
        if isinstance(expr, ast.Tuple):
            parts = [self.literal(e) for e in expr.elts]
            return mk_tuple(tuple(parts)) if all(p is not None for p in parts) else None
        return None

    # ---- displays

    def x_Tuple(self, node, st, fr):
        return self.display(node.elts, st, fr, self.pack)

    def pack(self, st, entries):
        """a tuple which is taken apart and put together again is that tuple"""
        v = mk_tuple(tuple(entries))
        if v[0] == 'T' and v[1] and all(e[0] == 'i' and e[2] == C(n) and e[1] == v[1][0][1]
                                        for n, e in enumerate(v[1])):
            t = self.typeof(v[1][0][1], st)
            if t is not None and t[0] == 'tuple' and t[1] is not None and len(t[1]) == len(v[1]):
                return v[1][0][1]
        return v

    def x_List(self, node, st, fr):
        return self.display(node.elts, st, fr, lambda s, entries: self.alloc(s, HObj('list', tuple(entries))))

    def x_Set(self, node, st, fr):
        return self.display(node.elts, st, fr, lambda s, entries: self.alloc(s, HObj('set', tuple(entries))))

    def display(self, elts, st, fr, make):
        out = []
        for s, vals in self.eval_many([e.value if isinstance(e, ast.Starred) else e for e in elts], st, fr):
            if is_raised_list(vals):
                out.append((s, vals))
                continue
            entries = []
            for e, v in zip(elts, vals):
                if isinstance(e, ast.Starred):
                    c = self.content(v, s)
                    entries.extend(c[1] if c[0] in ('L', 'T') else [('star', c)])
                else:
                    entries.append(v)
            out.append((s, make(s, entries)))
        return out

    def x_Dict(self, node, st, fr):
        nodes = []
        for k, v in zip(node.keys, node.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for s, vals in self.eval_many(nodes, st, fr):
            if is_raised_list(vals):
                out.append((s, vals))
                continue
            vals = list(vals)
            entries = []
            for k in node.keys:
                if k is None:
                    c = self.content(vals.pop(0), s)
                    entries.extend(c[1] if c[0] == 'D' else [('star', c)])
                else:
                    kv = vals.pop(0)
                    entries.append(('kv', as_key(kv), vals.pop(0)))
            out.append((s, self.alloc(s, HObj('dict', tuple(entries)))))
        return out

    def x_JoinedStr(self, node, st, fr):
        out = []
        for s, vals in self.eval_many(node.values, st, fr):
            if is_raised_list(vals):
                out.append((s, vals))
            elif len(vals) == 1 and vals[0][0] != 'c' and not self.is_str(vals[0], s):
                out.append((s, ('call', 'str', (s.freeze(vals[0]),), ())))
            else:
                out.append((s, cat([strip_str(s.freeze(v)) for v in vals])))
        return out

    def x_FormattedValue(self, node, st, fr):
        out = []
        for s, v in self.eval(node.value, st, fr):
            if not is_raised(v) and (node.conversion not in (-1, 115) or node.format_spec is not None):
                v = ('call', f'format!{node.conversion}', (s.freeze(v),), ())
            out.append((s, v))
        return out

    # ---- operators

    def x_BinOp(self, node, st, fr):
        out = []
        op = type(node.op).__name__
        for s, vals in self.eval_many([node.left, node.right], st, fr):
            if is_raised_list(vals):
                out.append((s, vals))
            else:
                out.extend(self.binop(op, vals[0], vals[1], s, fr, node))
        return out

    def binop(self, op, a, b, st, fr, node):
        ca, cb = self.content(a, st), self.content(b, st)
        if op == 'Add':
            if ca[0] in ('L', 'T') or cb[0] in ('L', 'T') or all(
                    t is not None and t[0] == 'list' for t in (strip_opt(self.typeof(x, st)) for x in (a, b))):
                entries = []
                for c in (ca, cb):
                    entries.extend(c[1] if c[0] in ('L', 'T') else [('star', c)])
                if 'T' in (ca[0], cb[0]):
                    return [(st, mk_tuple(tuple(entries)))]
                return [(st, self.alloc(st, HObj('list', tuple(entries))))]
            if all(x[0] == 'c' and isinstance(x[2], (int, float)) for x in (a, b)):
                return [(st, C(a[2] + b[2]))]
            if self.is_str(a, st) or self.is_str(b, st):
                return [(st, cat([strip_str(a), strip_str(b)]))]
        if op == 'BitOr':
            types = [(strip_opt(self.typeof(x, st)) or (None,))[0] for x in (a, b)]
            if ca[0] == 'D' or cb[0] == 'D' or types == ['dict', 'dict']:
                return [(st, self.alloc(st, HObj('dict', (('star', ca), ('star', cb)))))]
            if types == ['set', 'set']:
                entries = [e for c in (ca, cb) for e in (c[1] if c[0] == 'S' else [('star', c)])]
                return [(st, self.alloc(st, HObj('set', tuple(entries))))]
        if op == 'Mod' and a[0] == 'c' and isinstance(a[2], str):
            return [(st, ('call', 'format!%', (a, st.freeze(b)), ()))]
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[2], int) and isinstance(b[2], int):
            if op == 'Sub':
                return [(st, C(a[2] - b[2]))]
        return [(st, ('bin', op, st.freeze(ca), st.freeze(cb)))]

    def x_UnaryOp(self, node, st, fr):
        if isinstance(node.op, ast.Not):
            out = []
            for s, v in self.eval(node.operand, st, fr):
                if is_raised(v):
                    out.append((s, v))
                elif v[0] == 'o':
                    out.extend((s2, C(not t)) for s2, t in self.truth_obj(v, s, fr))
                else:
                    c = self.content(v, s)
                    got = self.decide(('truthy', c), s)
                    out.append((s, C(not got) if got is not None else negate(c)))
            return out
        out = []
        for s, v in self.eval(node.operand, st, fr):
            if is_raised(v):
                out.append((s, v))
            elif isinstance(node.op, ast.USub) and v[0] == 'c':
                out.append((s, C(-v[2])))
            else:
                out.append((s, ('bin', type(node.op).__name__, s.freeze(v), NONE)))
        return out

    def x_BoolOp(self, node, st, fr):
        is_and = isinstance(node.op, ast.And)
        results = [(st, None)]
        for i, sub in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s, v in results:
                if v is not None:
                    nxt.append((s, v))
                    continue
                for s2, v2 in self.eval(sub, s, fr):
                    if is_raised(v2) or last:
                        nxt.append((s2, v2))
                        continue
                    for s3, truth in self.truth_obj(v2, s2, fr):
                        if truth is is_and:
                            nxt.append((s3, None))
                        else:
                            nxt.append((s3, C(truth) if v2[0] == 'b' else v2))
            results = nxt
        return results

    def x_IfExp(self, node, st, fr):
        out = []
        for s, truth in self.eval_cond(node.test, st, fr):
            if not isinstance(truth, bool):
                out.append((s, truth))
            else:
                out.extend(self.eval(node.body if truth else node.orelse, s, fr))
        return out

    def x_Compare(self, node, st, fr):
        out = []
        for s, vals in self.eval_many([node.left] + node.comparators, st, fr):
            if is_raised_list(vals):
                out.append((s, vals))
                continue
            results = [(s, None)]
            for i, op in enumerate(node.ops):
                name = type(op).__name__
                last = i == len(node.ops) - 1
                nxt = []
                for s2, v in results:
                    if v is not None:
                        nxt.append((s2, v))
                        continue
                    for s3, r in self.compare_values(name, vals[i], vals[i + 1], s2, fr, node):
                        if is_raised(r) or last:
                            nxt.append((s3, r))
                        else:
                            for s4, truth in self.truth(r, s3):
                                nxt.append((s4, None if truth else FALSE))
                results = nxt
            out.extend(results)
        return out

    def compare_values(self, op, a, b, st, fr, node):
        if op in ('In', 'NotIn'):
            t = strip_opt(self.typeof(b, st))
            if t is not None and t[0] == 'cls':
                info = self.prog.find_method(t[1], '__contains__')
                if info is not None:
                    res = self.call_function(info, b, [a], [], st, fr, node)
                    if op == 'In':
                        return res
                    return [(s, v if is_raised(v) else negate(v)) for s, v in res]
            b = self.narrow(self.content(b, st), a)
        if op in ('Is', 'IsNot'):
            fa, fb = st.freeze(a), st.freeze(b)
            if 'o' in (a[0], b[0]):
                if a == b:
                    return [(st, C(op == 'Is'))]
                if a[0] == 'o' and b == NONE or b[0] == 'o' and a == NONE:
                    return [(st, C(op == 'IsNot'))]
        else:
            if op in ('Eq', 'NotEq'):
                info = self.own_equality(a, b, st)
                if info is not None:
                    res = self.call_function(info, a, [b], [], st, fr, node)
                    return res if op == 'Eq' else [(s, v if is_raised(v) else negate(v)) for s, v in res]
            fa = st.freeze(self.content(a, st))
            fb = st.freeze(self.content(b, st))
        v = self.compare(op, fa, fb, st)
        if v[0] == 'b':
            got = self.decide(v[1], st)
            if got is not None:
                v = C(got == v[2])
        value = ('call', 'compare', (fa, fb), ())
        text = op in ('Eq', 'NotEq') and any(self.typeof(x, st) == ('b', 'str') for x in (a, b))
        return self.fallible(st, v, fr, value, {'never': True} if text else {}, effectful=False)

    def own_equality(self, a, b, st):
        """the method which compares two instances of one class of the program"""
        types = [self.typeof(x, st) for x in (a, b)]
        if None in types or types[0] != types[1] or types[0][0] != 'cls' or types[0][1] not in self.prog.classes:
            return None
        return self.prog.find_method(types[0][1], '__eq__')

    def fallible(self, st, v, fr, value, specific, effectful):
        out = []
        for s, r in self.may_raise(st, value, fr, specific, effectful):
            out.append((s, v if r is None else r))
        return out

    # ---- attributes and items

    def x_Attribute(self, node, st, fr):
        return self.each_state(self.eval(node.value, st, fr),
                               lambda s, v: self.load_attr(v, node.attr, s, fr, node))

    def x_Subscript(self, node, st, fr):
        def then(s, base):
            if isinstance(node.slice, ast.Slice):
                return self.load_slice(base, node.slice, s, fr)
            return self.each_state(self.eval(node.slice, s, fr),
                                   lambda s2, key: self.load_item(base, key, s2, fr, node))
        return self.each_state(self.eval(node.value, st, fr), then)

    def load_slice(self, base, sl, st, fr):
        if sl.step is not None:
            t = strip_opt(self.typeof(base, st))
            if sl.lower is None and sl.upper is None and ast.unparse(sl.step) == '-1' and not (
                    t is not None and t[0] in ('str', 'cls')):
                cont = self.content(base, st)
                if cont[0] in ('L', 'T') and not any(e[0] in ('star', 'each', 'prev') for e in cont[1]):
                    return [(st, (cont[0], tuple(reversed(cont[1]))))]
                value = st.freeze(base)
                return [(st, (cont[0] if cont[0] in 'LT' else 'L', (('star', ('call', 'reversed', (value,), ())),)))]
            return [(st, ('u', 'stepped slice'))]
        bounds = [b if b is not None else ast.Constant(value=None) for b in (sl.lower, sl.upper)]
        out = []
        for s, vals in self.eval_many(bounds, st, fr):
            if is_raised_list(vals):
                out.append((s, vals))
                continue
            lo, hi = vals
            if lo == C(0):
                lo = NONE
            vals = [lo, hi]
            t = strip_opt(self.typeof(base, s))
            info = self.prog.find_method(t[1], '__getitem__') if t is not None and t[0] == 'cls' else None
            if info is not None:
                key = ('slice', s.freeze(lo), s.freeze(hi))
                out.extend(self.call_function(info, base, [key], [], s, fr, sl))
                continue
            cont = self.content(base, s)
            if all(v[0] == 'c' for v in vals):
                if cont[0] == 'c' and isinstance(cont[2], str):
                    out.append((s, C(cont[2][lo[2]:hi[2]])))
                    continue
                if cont[0] in ('L', 'T') and not any(e[0] in ('star', 'each', 'prev') for e in cont[1]):
                    sub = cont[1][lo[2]:hi[2]]
                    out.append((s, self.alloc(s, HObj('list', sub)) if cont[0] == 'L' else mk_tuple(sub)))
                    continue
            if lo == NONE and hi == NONE:
                out.append((s, self.alloc(s, HObj('list', (('star', cont),))) if cont[0] != 'T' else cont))
                continue
            cont = self.copied_sequence(cont, s)
            out.append((s, sliced(cont, s.freeze(lo), s.freeze(hi))))
        return out

    def load_default_item(self, base, key, st, fr, node):
        """item of a dictionary which creates missing items"""
        out = []
        cont, key = self.content(base, st), as_key(key)
        for s, truth in self.branch(('in', key, self.narrow(cont, key)), st):
            if truth:
                out.append((s, self.item(base, key, s)))
                continue
            for s2, v in self.call_value(s.heap[base[1]].attrs['#default'], [], [], s, fr, node):
                if is_raised(v):
                    out.append((s2, v))
                    continue
                out.extend((s3, v) for s3, _ in self.grow(base, 'dset', [('kv', key, v)], s2, fr, node))
        return out

    def load_item(self, base, key, st, fr, node):
        if base == NONE:
            return [(st, self.raised('TypeError'))]
        if base[0] == 'o' and '#default' in st.heap[base[1]].attrs:
            return self.load_default_item(base, st.freeze(key), st, fr, node)
        t = strip_opt(self.typeof(base, st))
        if t is not None and t[0] == 'cls' and base[0] != 'k':
            info = self.prog.find_method(t[1], '__getitem__')
            if info is not None:
                return self.call_function(info, base, [key], [], st, fr, node)
        key = as_key(st.freeze(key))
        if key[0] == 'slice':
            bounds = [ast.Constant(value=x[2]) if x[0] == 'c' else ast.Name(id=f'#b{i}', ctx=ast.Load())
                      for i, x in enumerate(key[1:])]
            st.env = dict(st.env)
            st.env['#b0'], st.env['#b1'] = key[1:]
            return self.load_slice(base, ast.Slice(lower=bounds[0], upper=bounds[1], step=None), st, fr)
        cont = self.narrow(self.content(base, st), key)
        if key == C(0) and cont[0] in ('L', 'T') and len(cont[1]) == 1 and cont[1][0][0] == 'each':
            # the first one for which the conditions are true, if it is known that there is one
            _, it, conds, value = st.freeze(cont)[1][0]
            atom = ('exists', it, tuple(sorted(set(conds), key=repr))) if conds else ('truthy', it)
            if it[0] not in ('nest', 'reversed') and self.decide(atom, st) is True and all(
                    self.decide(a, st) in (None, pol) for a, pol in conds):
                for a, pol in conds:
                    self.assume(a, pol, st)
                return [(st, value)]
        v = self.item(base, key, st)
        specific = {'never': True}
        if not (v[0] in ('val', 'el') and key[0] in ('key', 'idx', 'el')):
            atom = ('in', key, cont)
            specific = {'never': True, 'KeyError': (atom, False), 'IndexError': (atom, False)}
            kind = strip_opt(self.typeof(cont, st))
            if kind is not None and kind[0] in ('list', 'tuple', 'dict'):
                del specific['IndexError' if kind[0] == 'dict' else 'KeyError']
        return self.fallible(st, v, fr, v, specific, effectful=False)

    def load_attr(self, base, name, st, fr, node):
        kind = base[0]
        if base == NONE:
            return [(st, self.raised('AttributeError'))]
        if (base, name) in st.ov:
            return [(st, st.ov[(base, name)])]
        if kind == 'mod':
            return [(st, self.binding_value(self.prog.resolve_in_module(base[1], name), st))]
        if kind == 'x':
            return [(st, ('x', f'{base[1]}.{name}'))]
        if kind == 'super':
            return self.super_attr(base, name, st, fr, node)
        if kind == 'k':
            return self.class_attr(base, name, st, fr, node)
        if name == '__class__':
            return [(st, self.class_of(base, st))]
        if kind == 'o':
            obj = st.heap[base[1]]
            if name in obj.attrs:
                return [(st, obj.attrs[name])]
        if name == '__dict__':
            return [(st, ('a', st.freeze(base), name))]
        t = strip_opt(self.typeof(base, st))
        if t is not None and t[0] == 'cls' and t[1] in self.prog.classes:
            cls = t[1]
            info = self.prog.find_method(cls, name)
            if info is not None:
                if info.kind == 'property':
                    if info.qual in self.atoms or info.qual in self.pure_atoms:
                        self.met.add(self.rename.get(info.qual, info.qual))
                    if info.qual in self.atoms or info.qual in self.pure_atoms or not self.can_follow(info, cls, base):
                        return [(st, ('a', st.freeze(base), name))]
                    return self.call_function(info, base, [], [], st, fr, node)
                if info.kind == 'classmethod':
                    return [(st, ('f', info.qual, self.class_of(base, st)))]
                if info.kind == 'staticmethod':
                    return [(st, ('f', info.qual, None))]
                return [(st, ('f', info.qual, base))]
            got = self.ctor_attr(base, name, st)
            if got is not None and got[0] in ('L', 'D', 'S'):
                # the container of this object: what is added later is added to this one only
                own = ('a', st.freeze(base), name)
                st.ov.setdefault((own, '#content'), got)
                return [(st, own)]
            if got is not None:
                return [(st, got)]
            found = self.prog.find_class_attr(cls, name)
            if found is not None and kind in ('o', 's') and not self.assigned_on_self(cls, name):
                owner, expr = found
                const = self.literal(expr)
                ref = self.prog.resolve_expr(owner.module, expr) if not const else None
                if const is not None and (kind == 'o' or base == fr.selfval):
                    return [(st, const)]
                if ref is not None and ref[0] in ('class', 'func') and (kind == 'o' or base == fr.selfval):
                    return [(st, self.binding_value(ref, st))]
            if self.prog.attr_type(cls, name) is not None or found is not None:
                return [(st, ('a', st.freeze(base), name))]
        if kind in ('D', 'L', 'T', 'S', 'c', 'cat', 'split', 'join', 'sl') or \
                t is not None and t[0] in ('b', 'dict', 'list', 'set', 'tuple', 'iter'):
            return [(st, ('m', base, name))]
        if kind == 'o':
            return [(st, ('m', base, name))]
        v = ('a', st.freeze(base), name)
        specific = {'never': True, 'AttributeError': (('hasattr', v[1], name), False)}
        return self.fallible(st, v, fr, v, specific, effectful=False)

    def ctor_attr(self, base, name, st):
        """attribute of a newly constructed object which the constructor takes over from a parameter"""
        if not (base[0] == 'call' and isinstance(base[1], str) and base[1] in self.prog.classes):
            return None
        init = self.prog.find_method(base[1], '__init__')
        if init is None:
            return None
        params = [a.arg for a in init.node.args.args[1:] + init.node.args.kwonlyargs]
        writes = []
        for q in self.prog.mro(base[1]):
            writes += self.prog.attr_writes(q).get(name, [])
        if len(writes) != 1 or writes[0][0] is not init:
            return None
        for n in init.node.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and n.targets[0] is writes[0][1] \
                    and isinstance(n.value, ast.Name) and n.value.id in params:
                i = params.index(n.value.id)
                if any(isinstance(x, ast.Name) and x.id == n.value.id and isinstance(x.ctx, ast.Store)
                       for x in ast.walk(init.node)):
                    return None
                named = dict(base[3])
                return named.get(n.value.id)
        return None

    def assigned_on_self(self, cls, name):
        for q in self.prog.mro(cls):
            if self.prog.attr_writes(q).get(name):
                return True
        return False

    def class_of(self, base, st):
        if base[0] == 'k':
            return ('x', 'type')
        if base[0] == 'o' and st.heap[base[1]].cls in self.prog.classes:
            return ('k', st.heap[base[1]].cls)
        if base == ('s', 'self'):
            t = self.typeof(base, st)
            if t is not None and t[0] == 'cls':
                return ('k', t[1])
        if base[0] == 'call' and isinstance(base[1], str) and base[1] in self.prog.classes:
            return ('k', base[1])
        return ('a', st.freeze(base), '__class__')

    def class_attr(self, base, name, st, fr, node):
        cls = base[1]
        if name in ('__name__', '__qualname__'):
            return [(st, C(cls.split('.')[-1]))]
        info = self.prog.find_method(cls, name)
        if info is not None:
            if info.kind == 'classmethod':
                return [(st, ('f', info.qual, base))]
            if info.kind == 'property':
                return [(st, ('a', base, name))]
            return [(st, ('f', info.qual, None))]
        found = self.prog.find_class_attr(cls, name)
        if found is not None:
            owner, expr = found
            enum = any('enum' in b.lower() for b in self.prog.external_bases(cls))
            const = self.literal(expr)
            if const is not None and not enum and not self.class_attr_written(name):
                return [(st, const)]
            ref = self.prog.resolve_expr(owner.module, expr)
            if ref is not None and ref[0] in ('class', 'func'):
                return [(st, self.binding_value(ref, st))]
        return [(st, ('a', base, name))]

    def class_attr_written(self, name):
        cache = self.prog.__dict__.get('_class_attr_writes')
        if cache is None:
            cache = set()
            for mod in self.prog.modules.values():
                for n in ast.walk(mod.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                            isinstance(n.value, ast.Name) and n.value.id == 'self'):
                        cache.add(n.attr)
            self.prog.__dict__['_class_attr_writes'] = cache
        return name in cache

    # ---- functions and comprehensions

    def x_Lambda(self, node, st, fr):
        return [(st, self.closure(node, st, fr))]

    def closure(self, node, st, fr):
        names = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name)})
        captured = tuple((n, st.env[n]) for n in names if n in st.env)
        clone = ast.parse(ast.unparse(node)).body[0]
        if isinstance(clone, ast.FunctionDef):
            clone.name = '_'
        key = ast.dump(clone)
        self.closures[key] = (node, fr)
        return ('lam', key, captured)

    def x_ListComp(self, node, st, fr):
        return self.comprehension(node, 'list', st, fr)

    def x_GeneratorExp(self, node, st, fr):
        return self.comprehension(node, 'list', st, fr)

    def x_SetComp(self, node, st, fr):
        return self.comprehension(node, 'set', st, fr)

    def x_DictComp(self, node, st, fr):
        return self.comprehension(node, 'dict', st, fr)

    def comprehension(self, node, cls, st, fr):
        """a comprehension is the loop which it abbreviates"""
        acc = self.alloc(st, HObj(cls))
        saved = st.env
        st.env = dict(saved)
        name = f'#acc{acc[1]}'
        st.env[name] = acc
        ref = ast.Name(id=name, ctx=ast.Load())
        if cls == 'dict':
            step = ast.Assign(targets=[ast.Subscript(value=ref, slice=node.key, ctx=ast.Store())], value=node.value)
        else:
            method = 'append' if cls == 'list' else 'add'
            step = ast.Expr(value=ast.Call(func=ast.Attribute(value=ref, attr=method, ctx=ast.Load()),
                                           args=[node.elt], keywords=[]))
        body = [step]
        for gen in reversed(node.generators):
            for cond in reversed(gen.ifs):
                body = [ast.If(test=cond, body=body, orelse=[])]
            body = [ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[])]
        tree = body[0]
        ast.copy_location(tree, node)
        for sub in ast.walk(tree):
            if 'lineno' in getattr(sub, '_attributes', ()) and not hasattr(sub, 'lineno'):
                sub.lineno, sub.col_offset = node.lineno, node.col_offset
        out = []
        for s, outcome in self.exec_block(body, st, fr):
            s.env = dict(saved)
            out.append((s, outcome[1] if outcome[0] == 'raise' else acc))
        return out

    def x_Starred(self, node, st, fr):
        return [(s, v if is_raised(v) else ('star', s.freeze(self.content(v, s)))) for s, v in
                self.eval(node.value, st, fr)]

    def x_NamedExpr(self, node, st, fr):
        out = []
        for s, v in self.eval(node.value, st, fr):
            if not is_raised(v):
                s.env = dict(s.env)
                s.env[node.target.id] = v
            out.append((s, v))
        return out

    def x_Yield(self, node, st, fr):
        value_node = node.value if node.value is not None else ast.Constant(value=None)

        def then(s, v):
            if fr.yield_k is not None:
                return fr.yield_k(s, v)
            s.ev.append(Ev('yield', 'yield', args=(('value', s.freeze(v)),), loc=self.loc(fr, node)))
            return [(s, ('u', 'sent'))]
        return self.each_state(self.eval(value_node, st, fr), then)

    def x_YieldFrom(self, node, st, fr):
        def then(s, v):
            s.ev.append(Ev('yield', 'yield', args=(('from', s.freeze(self.content(v, s))),), loc=self.loc(fr, node)))
            return [(s, ('u', 'sent'))]
        return self.each_state(self.eval(node.value, st, fr), then)

    def raised(self, name):
        from .interp import Raised
        return Raised(name)


def is_raised_list(v):
    return not isinstance(v, list)


def strip_str(v):
    if v[0] == 'call' and v[1] == 'str' and len(v[2]) == 1:
        return v[2][0]
    return v
