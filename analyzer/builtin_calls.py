"""Transfer functions of builtins, library functions and methods of containers and strings"""
import builtins

import ast

from .expr import is_raised, strip_str
from .facts import strip_opt
from .state import *
from .values import *

PURE_BUILTINS = {
    'isinstance', 'issubclass', 'callable', 'id', 'hash', 'repr', 'min', 'max', 'sum', 'abs', 'int', 'float', 'round',
    'ord', 'chr', 'frozenset', 'format', 'dir', 'vars', 'iter', 'range', 'enumerate', 'zip', 'reversed', 'sorted',
    'map', 'filter', 'object', 'type', 'property', 'globals', 'locals', 'bytes', 'slice', 'divmod', 'any', 'all',
}
PURE_PREFIXES = (
    'contextlib.nullcontext',
    'os.path.', 'os.getcwd', 'os.sep', 'os.environ.get', 'inspect.', 'copy.', 'functools.', 'itertools.', 'operator.',
    're.', 'difflib.', 'ast.', 'collections.', 'datetime.', 'string.', 'pathlib.', 'types.', 'textwrap.', 'typing.',
    'uuid.', 'time.time', 'traceback.format', 'pandas.', 'astor.', 'enum.', 'sys.modules.get', 'keyword.',
    'importlib.util.find_spec', 'typing_extensions.', 'sys.exc_info', 'dataclasses.', 'os.fspath', 'sys.getrefcount',
    'os.listdir', 'os.walk', 'glob.', 'sys._getframe', 'traceback.extract',
)
IMPURE = {'ast.fix_missing_locations', 'ast.increment_lineno', 'ast.copy_location'}    # they change their argument
NO_RAISE = {'functools.partial', 'traceback.format_exc', 'os.path.join', 'os.path.exists', 'os.path.abspath',
            'os.path.basename', 'os.path.dirname', 'inspect.isclass'}
PURE_METHODS = {
    'split', 'rsplit', 'join', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'format',
    'replace', 'count', 'index', 'find', 'title', 'partition', 'rpartition', 'isidentifier', 'splitlines', 'encode',
    'decode', 'isdigit', 'isupper', 'capitalize', 'zfill', 'union', 'intersection', 'difference', 'issubset',
    'issuperset', 'symmetric_difference', 'keys', 'values', 'items', 'get', 'copy', 'equals', 'most_common', 'group',
    '__contains__', '__getitem__', '__len__', 'isspace', 'removeprefix', 'removesuffix', '__eq__', '__hash__',
}
MUTATORS = {
    'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem',
    'add', 'discard', '__setitem__', '__delitem__', 'intersection_update', 'difference_update',
}


def is_text(v):
    return v[0] == 'c' and isinstance(v[2], str) and v[2] != ''


class BuiltinCallsMixin:

    # ---- functions outside the package

    def call_external(self, name, pos, kw, st, fr, node):
        if name.startswith('builtins.'):
            name = name[len('builtins.'):]
        if name == 'io.open':
            name = 'open'
        if name == 'open' and (len(pos) == 2 and pos[1] in (C('r'), C('rt'))
                               or len(pos) == 1 and dict(kw).get('mode') in (C('r'), C('rt'))):
            pos, kw = pos[:1], [(n, v) for n, v in kw if n != 'mode']     # as it is by default
        elif name == 'open' and len(pos) == 1 and dict(kw).get('mode'):
            pos, kw = pos + [dict(kw)['mode']], [(n, v) for n, v in kw if n != 'mode']
        exc = getattr(builtins, name, None)
        if isinstance(exc, type) and issubclass(exc, BaseException):
            return [(st, ('exc', name))]
        method = getattr(self, 'b_' + name.replace('.', '_'), None)
        if method is not None and not any(v[0] == 'star' for v in pos):
            try:
                got = method(pos, kw, st, fr, node)
            except IndexError:
                if pos or kw:
                    raise
                return [(st, self.raised('TypeError'))]    # without any argument
            if got is not None:
                return got
        if name in PURE_BUILTINS or name not in IMPURE and any(name.startswith(p) for p in PURE_PREFIXES):
            pos = [st.freeze(self.content(v, st)) if v[0] == 'o' else st.freeze(v) for v in pos]
            value = ('call', name, tuple(pos), tuple(sorted(((n, st.freeze(v)) for n, v in kw), key=repr)))
            return self.fallible(st, value, fr, value, {}, effectful=name not in PURE_BUILTINS
                                 and name not in NO_RAISE)
        out = self.opaque(name, None, self.plain_args(pos, kw, st), st, fr, node)
        if name in ('quit', 'exit', 'sys.exit'):
            return [(s, v if is_raised(v) else self.raised('SystemExit')) for s, v in out]
        return out

    def b_isinstance(self, pos, kw, st, fr, node):
        if len(pos) != 2:
            return None
        v, cls = pos
        if cls[0] == 'T':
            results = [(st, FALSE)]
            for c in cls[1]:
                nxt = []
                for s, r in results:
                    if r == FALSE:
                        nxt.extend((s2, C(t)) for s2, t in self.branch(('isinst', v, c), s))
                    else:
                        nxt.append((s, r))
                results = nxt
            return results
        if cls == ('x', 'type'):
            return self.call_external('inspect.isclass', [v], [], st, fr, node)
        got = self.decide(('isinst', v, cls), st)
        if got is not None:
            return [(st, C(got))]
        return [(st, ('b', ('isinst', st.freeze(v), cls), True))]

    def b_issubclass(self, pos, kw, st, fr, node):
        if len(pos) == 2 and pos[0][0] == 'k' and pos[1][0] == 'k':
            return [(st, C(self.prog.is_subclass(pos[0][1], pos[1][1])))]
        return None

    def b_bool(self, pos, kw, st, fr, node):
        if len(pos) != 1:
            return [(st, FALSE)]
        v = pos[0]
        if v[0] == 'b':
            return [(st, v)]
        if v[0] == 'o':
            return [(s, C(t)) for s, t in self.truth_obj(v, st, fr)]
        v = self.content(v, st)
        atom = nonempty(v)
        got = self.decide(atom, st)
        return [(st, C(got) if got is not None else ('b', atom, True))]

    def b_next(self, pos, kw, st, fr, node):
        gen = pos[0]
        if len(pos) == 1 and gen[0] == 'call' and gen[1] == 'os.walk' and isinstance(node, ast.Call) and node.args \
                and isinstance(node.args[0], ast.Call):
            # the content of one folder, read by a generator which nothing else has
            value = ('call', 'next', (gen,), ())
            return self.fallible(st, value, fr, value, {}, effectful=True)
        return None

    def b_len(self, pos, kw, st, fr, node):
        t = strip_opt(self.typeof(pos[0], st))
        info = self.prog.find_method(t[1], '__len__') if t is not None and t[0] == 'cls' and pos[0][0] != 'k' else None
        if info is not None:
            held = self.held_size(info)
            if held is None:
                return self.call_function(info, pos[0], [], [], st, fr, node)
            out = []
            for s, v in self.load_attr(pos[0], held, st, fr, node):
                out.extend([(s, v)] if is_raised(v) else self.b_len([v], kw, s, fr, node))
            return out
        c = self.content(pos[0], st)
        if c[0] in ('L', 'T', 'D') and not any(e[0] in ('star', 'each', 'prev', 'del') for e in c[1]):
            return [(st, C(len(c[1])))]
        if c[0] == 'c' and isinstance(c[2], str):
            return [(st, C(len(c[2])))]
        if c[0] == 'L' and len(c[1]) == 1 and c[1][0][0] == 'each' and not c[1][0][2] and c[1][0][3][0] != 'star':
            c = c[1][0][1]
        if c[0] in ('L', 'T') and len(c[1]) == 1 and c[1][0][0] == 'star':
            c = c[1][0][1]
        return [(st, ('call', 'len', (st.freeze(c),), ()))]

    @staticmethod
    def held_size(info):
        """the attribute whose size a __len__ returns"""
        body = [x for x in info.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Call):
            call = body[0].value
            if isinstance(call.func, ast.Name) and call.func.id == 'len' and len(call.args) == 1 and isinstance(
                    call.args[0], ast.Attribute) and isinstance(call.args[0].value, ast.Name) \
                    and call.args[0].value.id == info.node.args.args[0].arg:
                return call.args[0].attr
        return None

    def b_str(self, pos, kw, st, fr, node):
        if not pos:
            return [(st, EMPTY_STR)]
        v = pos[0]
        if self.is_str(v, st):
            return [(st, v)]
        if v[0] == 'c':
            return [(st, C(str(v[2])))]
        return [(st, ('call', 'str', (st.freeze(v),), ()))]

    def b_list(self, pos, kw, st, fr, node):
        return self.copy_container('list', pos, kw, st)

    def b_tuple(self, pos, kw, st, fr, node):
        if not pos:
            return [(st, ('T', ()))]
        c = self.content(pos[0], st)
        return [(st, mk_tuple(c[1] if c[0] in ('L', 'T') else (('star', c),)))]

    def b_set(self, pos, kw, st, fr, node):
        return self.copy_container('set', pos, kw, st)

    def b_dict(self, pos, kw, st, fr, node):
        return self.copy_container('dict', pos, kw, st)

    b_collections_OrderedDict = b_dict

    def b_collections_defaultdict(self, pos, kw, st, fr, node):
        got = self.copy_container('dict', pos[1:], kw, st)
        if pos and pos[0] != NONE:
            for s, v in got:
                s.heap[v[1]] = s.heap[v[1]].with_attr('#default', pos[0])
                made = [(s2, x) for s2, x in self.call_value(pos[0], [], [], s.fork(), fr, node) if not is_raised(x)]
                if len(made) == 1:
                    s.heap[v[1]] = s.heap[v[1]].with_attr('#made', made[0][0].freeze(made[0][1]))
        return got

    def copy_container(self, cls, pos, kw, st):
        entries = []
        if pos:
            c = self.content(self.iterated(pos[0], st) if cls != 'dict' else pos[0], st)
            if cls == 'dict' and c[0] == 'D' or cls != 'dict' and c[0] in ('L', 'T', 'S'):
                entries.extend(c[1])
            elif cls == 'dict' and c[0] == 'L' and len(c[1]) == 1 and c[1][0][0] == 'each' and \
                    c[1][0][3][0] == 'T' and len(c[1][0][3][1]) == 2:
                # dict of a sequence of pairs
                _, it, conds, pair = c[1][0]
                entries.append(('each', it, conds, ('kv', pair[1][0], pair[1][1])))
            else:
                entries.append(('star', c))
        for n, v in kw:
            entries.append(('star', v) if n is None else ('kv', C(n), v))
        return [(st, self.alloc(st, HObj(cls, tuple(entries))))]

    def b_copy_deepcopy(self, pos, kw, st, fr, node):
        v = pos[0]
        if v[0] == 'c':
            return [(st, v)]
        if v[0] == 'o' and st.heap[v[1]].cls in ('dict', 'list', 'set'):
            obj = st.heap[v[1]]
            return [(st, self.alloc(st, HObj(obj.cls, (('star', ('call', 'copy.deepcopy', (st.freeze(v),), ())),))))]
        c = st.freeze(self.content(v, st))
        value = ('call', 'copy.deepcopy', (c,), ())
        t = self.typeof(v, st)
        if t is not None and t[0] in ('dict', 'list', 'set'):
            return [(st, self.alloc(st, HObj(t[0], (('star', value),))))]
        return [(st, value)]

    def b_copy_copy(self, pos, kw, st, fr, node):
        v = pos[0]
        t = self.typeof(v, st)
        if t is not None and t[0] in ('dict', 'list', 'set'):
            return self.copy_container(t[0], [v], [], st)
        return None

    def b_typing_cast(self, pos, kw, st, fr, node):
        return [(st, pos[1])]

    def b_type(self, pos, kw, st, fr, node):
        if len(pos) == 1:
            return [(st, self.class_of(pos[0], st))]
        return None

    def b_getattr(self, pos, kw, st, fr, node):
        obj, name = pos[0], pos[1]
        if name[0] != 'c':
            value = ('call', 'getattr', tuple(st.freeze(v) for v in pos[:2]), ())
            if len(pos) == 3:
                return [(s, value if truth else pos[2])
                        for s, truth in self.branch(('hasattr', st.freeze(obj), st.freeze(name)), st)]
            return self.fallible(st, value, fr, value, {'never': True, 'AttributeError': (
                ('hasattr', st.freeze(obj), st.freeze(name)), False)}, effectful=False)
        if len(pos) == 2:
            return self.load_attr(obj, name[2], st, fr, node)
        out = []
        for s, truth in self.branch(('hasattr', st.freeze(obj), name[2]), st):
            out.extend(self.load_attr(obj, name[2], s, fr, node) if truth else [(s, pos[2])])
        return out

    def b_hasattr(self, pos, kw, st, fr, node):
        name = pos[1][2] if pos[1][0] == 'c' else st.freeze(pos[1])
        atom = ('hasattr', pos[0], name)
        got = self.decide(atom, st)
        if got is not None:
            return [(st, C(got))]
        return [(st, ('b', ('hasattr', st.freeze(pos[0]), name), True))]

    def b_setattr(self, pos, kw, st, fr, node):
        obj, name, value = pos
        if name[0] == 'c':
            return [(s, NONE if r is None else r) for s, r in self.store_attr(obj, name[2], value, st, fr, node)]
        recv = st.freeze(obj)
        st.ev.append(Ev('set', st.freeze(name), recv, (('value', value),), self.loc(fr, node)))
        return [(st, NONE)]

    def b_any(self, pos, kw, st, fr, node):
        return self.quantifier(pos[0], st, fr, any_=True)

    def b_all(self, pos, kw, st, fr, node):
        return self.quantifier(pos[0], st, fr, any_=False)

    def quantifier(self, v, st, fr, any_):
        c = self.content(v, st)
        if c[0] not in ('L', 'T', 'S'):
            return None
        if len(c[1]) > 8 or any(e[0] in ('star', 'prev') for e in c[1]):
            return None
        if len(c[1]) == 1 and c[1][0][0] == 'each':
            fact = self.quantified(c[1][0], any_)
            return [(st, fact if fact[0] == 'c' else atom_value(fact, any_))]
        results = [(st, None)]
        for e in c[1]:
            nxt = []
            for s, r in results:
                if r is not None:
                    nxt.append((s, r))
                    continue
                if e[0] == 'each':
                    fact = self.quantified(e, any_)
                    if fact[0] == 'c':
                        cases = [(s, fact[2])]
                    else:
                        cases = [(s2, got if any_ else not got) for s2, got in self.branch(fact, s)]
                else:
                    cases = self.truth(e, s)
                nxt.extend((s2, C(any_) if t is any_ else None) for s2, t in cases)
            results = nxt
        return [(s, r if r is not None else C(not any_)) for s, r in results]

    def quantified(self, each, any_):
        """the condition that an element decides any() or all(); a constant if that is known"""
        _, it, conds, entry = each
        if entry == TRUE or entry == FALSE:
            if (entry == TRUE) is not any_:
                return C(not any_)
            fact = ()
        elif entry[0] == 'b':
            fact = ((entry[1], entry[2] if any_ else not entry[2]),)
        else:
            fact = ((('truthy', entry), any_),)
        return ('exists', it, tuple(sorted(set(conds + fact), key=repr)))

    # ---- methods

    def call_method(self, recv, name, pos, kw, st, fr, node):
        if recv == NONE:
            return [(st, self.raised('AttributeError'))]
        t = strip_opt(self.typeof(recv, st))
        cont = self.content(recv, st)
        local = recv[0] == 'o'
        if local and st.heap[recv[1]].cls not in ('dict', 'list', 'set'):
            local = False
            if 'dict' in self.prog.mro(st.heap[recv[1]].cls):
                local = True
        if t is not None and t[0] == 'cls' and 'dict' not in self.prog.mro(t[1]) and not local:
            # attribute of an object of the package which holds a function, or inherited from outside of it
            if name == '_try_getattr_else_call_func' and len(pos) == 2:
                return [(st, ('call', 'lazy', (st.freeze(recv), st.freeze(pos[0]), st.freeze(pos[1])), ()))]
            return self.opaque(name, recv, self.plain_args(pos, kw, st), st, fr, node)
        if name in PURE_METHODS and not (name == 'get' and (kw or not 1 <= len(pos) <= 2)):
            got = self.pure_method(recv, cont, name, pos, kw, st, fr, node)
            if got is not None:
                return got
            c = st.freeze(cont)
            value = ('call', ('m', c, name), tuple(st.freeze(self.content(v, st)) for v in pos),
                     tuple(sorted(((n, st.freeze(v)) for n, v in kw), key=repr)))
            specific = {'ValueError': (('raises', value, 'ValueError'), True)} if name == 'index' else {}
            return self.fallible(st, value, fr, value, specific, effectful=False)
        if name in MUTATORS and (local or t is None or t[0] in ('dict', 'list', 'set', 'cls')):
            return self.mutate(recv, name, pos, kw, st, fr, node)
        return self.opaque(name, recv, self.plain_args(pos, kw, st), st, fr, node)

    def pure_method(self, recv, cont, name, pos, kw, st, fr, node):
        if name in ('union', 'difference') and len(pos) == 1 and not kw and (cont[0] == 'S' or (
                strip_opt(self.typeof(recv, st)) or (None,))[0] == 'set'):
            other = self.content(pos[0], st)
            if other[0] != 'S':
                other = ('S', (('star', other),))
            if name == 'difference':
                return [(st, ('bin', 'Sub', st.freeze(cont), st.freeze(other)))]
            entries = (cont[1] if cont[0] == 'S' else (('star', cont),)) + other[1]
            return [(st, self.alloc(st, HObj('set', entries)))]
        if name == 'join' and len(pos) == 1:
            return [(st, join(cont, st.freeze(self.content(pos[0], st))))]
        if name == 'split' and len(pos) == 1 and not kw:
            parts = split(st.freeze(cont), pos[0])
            if self.lenient and parts[0] == 'split' and is_text(pos[0]):
                return [(s, self.alloc(s, HObj('list', (('star', parts),) if there else (parts[1],))))
                        for s, there in self.branch(('in', pos[0], parts[1]), st)]
            return [(st, self.alloc(st, HObj('list', (('star', parts),) if parts[0] == 'split' else parts[1])))]
        if not kw and pos and is_text(pos[0]) and (name in ('partition', 'rpartition') and len(pos) == 1 or name in (
                'split', 'rsplit') and len(pos) == 2 and pos[1] == C(1)):
            # what is before and after the first or last separator
            whole, sep = st.freeze(cont), pos[0]
            parts = split(whole, sep)
            if parts[0] == 'split':
                out = []
                for s, there in self.branch(('in', sep, whole), st):
                    if not there:
                        out.append((s, self.alloc(s, HObj('list', (whole,))) if name.endswith('split') else mk_tuple(
                            (whole, EMPTY_STR, EMPTY_STR) if name == 'partition' else (EMPTY_STR, EMPTY_STR, whole))))
                        continue
                    ends = (('i', parts, C(0)), join(sep, ('L', (('star', ('sl', parts, C(1), NONE)),)))) \
                        if not name.startswith('r') else \
                        (join(sep, ('L', (('star', ('sl', parts, NONE, C(-1))),))), ('i', parts, C(-1)))
                    out.append((s, self.alloc(s, HObj('list', ends)) if name.endswith('split') else mk_tuple(
                        (ends[0], sep, ends[1]))))
                return out
        if cont[0] == 'c' and isinstance(cont[2], str) and all(p[0] == 'c' for p in pos) and not kw \
                and name not in ('get', 'keys', 'items', 'values'):
            try:
                res = getattr(cont[2], name)(*[p[2] for p in pos])
            except Exception:
                return None
            if isinstance(res, (str, bool, int)):
                return [(st, C(res))]
        template = cont[2].replace('{{', '\0').replace('}}', '\1') if name == 'format' and cont[0] == 'c' and isinstance(
            cont[2], str) else None
        if template is not None and not kw and template.count('{}') == len(pos) and not set('{}') & set(
                template.replace('{}', '')):
            bits = [x.replace('\0', '{').replace('\1', '}') for x in template.split('{}')]
            parts = [C(bits[0])]
            for b, p in zip(bits[1:], pos):
                parts += [strip_str(st.freeze(p)), C(b)]
            return [(st, cat(parts))]
        if name == 'items' and not pos:
            return [(st, ('items', st.freeze(cont)))]
        if name == 'keys' and not pos:
            return [(st, ('keys', st.freeze(cont)))]
        if name == 'values' and not pos:
            return [(st, ('vals', st.freeze(cont)))]
        if name == 'copy' and not pos:
            t = self.typeof(recv, st)
            cls = {'D': 'dict', 'L': 'list', 'S': 'set'}.get(cont[0]) or (t[0] if t and t[0] in (
                'dict', 'list', 'set') else None)
            if cls:
                return [(st, self.alloc(st, HObj(cls, cont[1] if cont[0] in 'DLS' else (('star', cont),))))]
            return None
        if name == 'get':
            key = as_key(st.freeze(pos[0]))
            default = pos[1] if len(pos) > 1 else NONE
            out = []
            for s, truth in self.branch(('in', key, self.narrow(cont, key)), st):
                out.append((s, self.item(recv, key, s) if truth else default))
            return out
        if name in ('startswith', 'endswith'):
            texts = st.freeze(self.content(pos[0], st))
            if texts[0] == 'T' and len(pos) == 1 and not any(e[0] in ('star', 'each', 'prev') for e in texts[1]):
                # one of several texts
                results = [(st, FALSE)]
                for text in texts[1]:
                    nxt = []
                    for s, r in results:
                        if r == FALSE:
                            nxt.extend((s2, C(t)) for s2, t in self.branch((name, s.freeze(cont), text), s))
                        else:
                            nxt.append((s, r))
                    results = nxt
                return results
            return [(st, ('b', (name, st.freeze(cont), st.freeze(pos[0])), True))]
        return None

    # ---- mutation of containers

    def mutate(self, recv, name, pos, kw, st, fr, node):
        cont = self.content(recv, st)
        t = strip_opt(self.typeof(recv, st))
        kind = {'dict': 'dict', 'list': 'list', 'set': 'set'}.get(t[0]) if t else None
        if t is not None and t[0] == 'cls':
            kind = 'dict'
        if name == 'update':
            entries = []
            if kind == 'set':
                for v in pos:
                    c = self.content(v, st)
                    entries.extend(c[1] if c[0] in ('L', 'T', 'S') else [('star', c)])
                return self.grow(recv, 'sadd', entries, st, fr, node)
            for v in pos:
                c = self.content(v, st)
                entries.extend(c[1] if c[0] == 'D' else [('star', c)])
            for n, v in kw:
                c = self.content(v, st)
                if n is None:
                    entries.extend(c[1] if c[0] == 'D' else [('star', c)])
                else:
                    entries.append(('kv', C(n), v))
            return self.grow(recv, 'dset', entries, st, fr, node)
        if name == '__setitem__':
            return self.grow(recv, 'dset', [('kv', st.freeze(pos[0]), pos[1])], st, fr, node)
        if name == 'append':
            return self.grow(recv, 'lext', [pos[0]], st, fr, node)
        if name == 'extend':
            c = self.content(pos[0], st)
            return self.grow(recv, 'lext', c[1] if c[0] in ('L', 'T') else [('star', c)], st, fr, node)
        if name == 'add':
            return self.grow(recv, 'sadd', [pos[0]], st, fr, node)
        if name == 'setdefault':
            key = as_key(st.freeze(pos[0]))
            default = pos[1] if len(pos) > 1 else NONE
            out = []
            for s, truth in self.branch(('in', key, self.narrow(cont, key)), st):
                if truth:
                    out.append((s, self.item(recv, key, s)))
                else:
                    out.extend((s2, default) for s2, _ in self.grow(recv, 'dset', [('kv', key, default)], s, fr, node))
            return out
        if name == 'pop' and pos and kind != 'list':
            key = st.freeze(pos[0])
            atom = ('in', key, self.narrow(cont, key))
            out = []
            if len(pos) > 1:
                for s, truth in self.branch(atom, st):
                    if truth:
                        v = self.item(recv, key, s)
                        out.extend((s2, v) for s2, _ in self.grow(recv, 'ddel', [('del', key)], s, fr, node))
                    else:
                        out.append((s, pos[1]))
                return out
            v = self.item(recv, key, st)
            for s, r in self.may_raise(st, v, fr, {'never': True, 'KeyError': (atom, False)}, False):
                if r is not None:
                    out.append((s, r))
                else:
                    out.extend((s2, v) for s2, _ in self.grow(recv, 'ddel', [('del', key)], s, fr, node))
            return out
        if name == '__delitem__':
            return self.delete_item(recv, pos[0], st, fr, node)
        # other mutations: an effect of their own kind
        args = self.plain_args(pos, kw, st)
        frozen = st.freeze(cont)
        value = ('call', ('m', frozen, name), tuple(v for n, v in args), ())
        if recv[0] == 'o':
            obj = st.heap[recv[1]]
            if name == 'clear':
                st.heap[recv[1]] = obj.with_entries(())
            elif name == 'insert' and obj.cls == 'list' and len(pos) == 2 and pos[0][0] == 'c' and isinstance(
                    pos[0][2], int) and 0 <= pos[0][2] <= len(obj.entries) and not any(
                    e[0] in ('star', 'each', 'prev') for e in obj.entries[:pos[0][2]]):
                k = pos[0][2]
                st.heap[recv[1]] = obj.with_entries(obj.entries[:k] + (pos[1],) + obj.entries[k:])
                return [(st, NONE)]
            elif name == 'reverse' and obj.cls == 'list' and not any(
                    e[0] in ('star', 'each', 'prev') for e in obj.entries):
                st.heap[recv[1]] = obj.with_entries(tuple(reversed(obj.entries)))
                return [(st, NONE)]
            elif name == 'pop' and obj.cls == 'list' and not any(
                    e[0] in ('star', 'each', 'prev') for e in obj.entries) and obj.entries and (
                    not pos or pos[0] in (C(0), C(-1))):
                i = pos[0][2] if pos else -1
                entries = list(obj.entries)
                value = entries.pop(i)
                st.heap[recv[1]] = obj.with_entries(entries)
                return [(st, value)]
            else:
                st.heap[recv[1]] = obj.with_entries((('star', ('after', name, frozen, args)),))
        else:
            st.ev.append(Ev('mut', name, st.freeze(recv), args, self.loc(fr, node)))
            st.ov[(recv, '#content')] = ('after', name, frozen, args)
        return self.fallible(st, value, fr, value, {}, effectful=False)

    def delete_item(self, recv, key, st, fr, node):
        key = st.freeze(key)
        cont = self.content(recv, st)
        out = []
        atom = ('in', key, self.narrow(cont, key))
        for s, r in self.may_raise(st, self.item(recv, key, st), fr, {'never': True, 'KeyError': (atom, False)}, False):
            if r is not None:
                out.append((s, r))
            else:
                out.extend(self.grow(recv, 'ddel', [('del', key)], s, fr, node))
        return out

    def grow(self, recv, op, entries, st, fr, node):
        """adds entries to a container"""
        entries = tuple(entries)
        if not entries:
            return [(st, NONE)]
        if recv[0] == 'o':
            obj = st.heap[recv[1]]
            if op == 'ddel':
                key = entries[0][1]
                if all(e[0] == 'kv' and (e[1] == key or e[1][0] == 'c' and key[0] == 'c') for e in obj.entries):
                    st.heap[recv[1]] = obj.with_entries(tuple(e for e in obj.entries if e[1] != key))
                    return [(st, NONE)]
            st.heap[recv[1]] = obj.add(*entries)
            return [(st, NONE)]
        base = st.freeze(recv)
        raw = tuple(('kv', e[1], e[2]) if e[0] == 'kv' else e for e in entries)
        make = {'dset': mk_dict, 'ddel': mk_dict, 'lext': mk_list, 'sadd': mk_set}[op]
        last = st.ev[-1] if st.ev else None
        if recv[0] in 'LDS' and op != 'ddel' and last is not None and last.kind == 'mut' and last.name == 'dset' and len(
                last.args) == 1 and last.args[0][1][0] == 'D' and last.args[0][1][1]:
            # what has just been put into a dictionary, as [] in d[k] = []; d[k].append(x)
            given = last.args[0][1][1]
            whole = [(owner, got) for (owner, name), got in st.ov.items() if name == '#content' and st.freeze(
                owner) == last.recv and got[0] == 'D' and got[1] and got[1][-1] == given[-1]]
            if given[-1][0] == 'kv' and given[-1][2] == recv and len(whole) == 1:
                owner, got = whole[0]
                more = ('kv', given[-1][1], make(recv[1] + st.freeze(make(raw))[1]))
                st.ev[-1] = Ev('mut', 'dset', last.recv, (('entries', mk_dict(given[:-1] + (more,))),), last.loc)
                st.ov[(owner, '#content')] = mk_dict(got[1][:-1] + (more,))
                return [(st, NONE)]
        frozen = st.freeze(make(raw))
        st.ev.append(Ev('mut', op, base, (('entries', frozen),), self.loc(fr, node)))
        cont = self.content(recv, st)
        if op == 'ddel' and entries[0][1] in (C(0), C(-1)) and cont[0] != 'D' and (
                strip_opt(self.typeof(cont, st)) or (None,))[0] != 'dict':
            # (places are what sequences have)
            ends = (C(1), NONE) if entries[0][1] == C(0) else (NONE, C(-1))
            st.ov[(recv, '#content')] = ('sl', st.freeze(cont), *ends)
            return [(st, NONE)]
        old = cont[1] if cont[0] in ('D', 'L', 'S') else (('star', cont),)
        st.ov[(recv, '#content')] = make(old + st.freeze(make(raw))[1])
        return [(st, NONE)]
