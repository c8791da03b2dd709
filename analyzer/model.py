"""
Program model of the analysed package: modules, name resolution, classes and their linearised bases,
functions, and the types which annotations and constructor assignments declare.

Only the source text is used, nothing of the package is imported or run.
"""
import ast
import builtins
import os

from .desugar import desugar

PKG = 'pyfileconf'


class AnalysisBroken(Exception):
    """An anchor the analysis needs does not exist (any more), so no verdict is possible"""


class FuncInfo:
    def __init__(self, qual, node, module, cls=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name
        self.kind = 'function'
        self.is_setter = False
        self.is_contextmanager = False
        self.decorators = []
        for dec in node.decorator_list:
            text = ast.unparse(dec)
            self.decorators.append(text)
            if text == 'property' or text.endswith('cached_property'):
                self.kind = 'property'
            elif text == 'classmethod':
                self.kind = 'classmethod'
            elif text == 'staticmethod':
                self.kind = 'staticmethod'
            elif text.endswith('.setter'):
                self.kind = 'setter'
            elif text.split('.')[-1] == 'contextmanager':
                self.is_contextmanager = True
        self.is_generator = _contains_yield(node)

    @property
    def loc(self):
        return f'{self.module.relpath}:{self.node.lineno}'


def _contains_yield(node):
    for child in walk_same_scope(node):
        if isinstance(child, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_same_scope(node):
    """walks the nodes of a function body without going into nested functions or classes"""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        child = stack.pop()
        yield child
        if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(child))


class ClassInfo:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.name = node.name
        self.base_exprs = node.bases
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.annotations = {}
        self.inst_types = None
        self._mro = None


class ModuleInfo:
    def __init__(self, name, path, relpath, tree, source):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.source = source
        self.is_package = os.path.basename(path) == '__init__.py'
        self.bindings = {}      # name -> ('import', module, attr or None) | ('func', qual) | ('class', qual) | ('var', expr)
        self.var_annotations = {}
        self.toplevel_imports = []   # (lineno, module, attr, asname) executed at import time


class Program:
    def __init__(self, root, overrides=None):
        self.root = root
        self.overrides = overrides or {}    # relative path -> source to analyse instead (development only)
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self._subclasses = None
        self._mentions = None
        self._load()

    # ---- loading

    def _load(self):
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisBroken(f'package directory {base} does not exist')
        for folder, dirs, files in os.walk(base):
            dirs.sort()
            for file in sorted(files):
                if not file.endswith('.py'):
                    continue
                path = os.path.join(folder, file)
                rel = os.path.relpath(path, self.root)
                parts = rel[:-3].split(os.sep)
                if parts[-1] == '__init__':
                    parts = parts[:-1]
                name = '.'.join(parts)
                if rel in self.overrides:
                    source = self.overrides[rel]
                else:
                    with open(path, encoding='utf8') as f:
                        source = f.read()
                self.add_module(name, path, rel, source)

    def mentions(self, name):
        """the functions of the package which mention an attribute or a name"""
        if self._mentions is None:
            self._mentions = {}
            for q, f in self.funcs.items():
                if not q.startswith(PKG + '.'):
                    continue
                for n in ast.walk(f.node):
                    word = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                    if word:
                        self._mentions.setdefault(word, set()).add(q)
        return self._mentions.get(name, set())

    def add_module(self, name, path, rel, source):
        try:
            tree = desugar(ast.parse(source, filename=path))
        except SyntaxError as e:
            raise AnalysisBroken(f'{rel} does not parse: {e}')
        mod = ModuleInfo(name, path, rel, tree, source)
        self.modules[name] = mod
        self._bind_block(mod, tree.body, top=True)
        return mod

    def _bind_block(self, mod, stmts, top):
        for node in stmts:
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                qual = f'{mod.name}.{node.name}'
                self.funcs[qual] = FuncInfo(qual, node, mod)
                mod.bindings[node.name] = ('func', qual)
            elif isinstance(node, ast.ClassDef):
                self._bind_class(mod, node)
            elif isinstance(node, (ast.Import, ast.ImportFrom)):
                for name, target in self.import_bindings(mod, node):
                    mod.bindings[name] = target
                    if top:
                        mod.toplevel_imports.append((node, name, target))
            elif isinstance(node, ast.Assign):
                for target in node.targets:
                    if isinstance(target, ast.Name):
                        mod.bindings[target.id] = ('var', node.value)
            elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
                mod.bindings[node.target.id] = ('var', node.value)
                mod.var_annotations[node.target.id] = node.annotation
            elif isinstance(node, ast.If):
                type_checking = 'TYPE_CHECKING' in ast.unparse(node.test)
                self._bind_block(mod, node.body, top=top and not type_checking)
                self._bind_block(mod, node.orelse, top=top)
            elif isinstance(node, ast.Try):
                self._bind_block(mod, node.body, top=top)
                for handler in node.handlers:
                    self._bind_block(mod, handler.body, top=top)

    def import_bindings(self, mod, node):
        out = []
        if isinstance(node, ast.Import):
            for alias in node.names:
                if alias.asname:
                    out.append((alias.asname, ('import', alias.name, None)))
                else:
                    out.append((alias.name.split('.')[0], ('import', alias.name.split('.')[0], None)))
        else:
            module = node.module or ''
            if node.level:
                parts = mod.name.split('.')
                if not mod.is_package:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (node.level - 1)]
                module = '.'.join(parts + ([module] if module else []))
            for alias in node.names:
                out.append((alias.asname or alias.name, ('import', module, alias.name)))
        return out

    def _bind_class(self, mod, node):
        qual = f'{mod.name}.{node.name}'
        cls = ClassInfo(qual, node, mod)
        self.classes[qual] = cls
        mod.bindings[node.name] = ('class', qual)
        for item in node.body:
            if isinstance(item, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fqual = f'{qual}.{item.name}'
                info = FuncInfo(fqual, item, mod, cls)
                if info.kind == 'setter':
                    cls.setters[item.name] = info
                    self.funcs[fqual + ':setter'] = info
                    info.qual = fqual + ':setter'
                else:
                    cls.methods[item.name] = info
                    self.funcs[fqual] = info
            elif isinstance(item, ast.Assign):
                for target in item.targets:
                    if isinstance(target, ast.Name):
                        cls.attrs[target.id] = item.value
            elif isinstance(item, ast.AnnAssign) and isinstance(item.target, ast.Name):
                cls.annotations[item.target.id] = item.annotation
                if item.value is not None:
                    cls.attrs[item.target.id] = item.value

    # ---- resolution

    def resolve_binding(self, binding, seen=()):
        kind = binding[0]
        if kind in ('func', 'class'):
            return binding
        if kind == 'import':
            _, module, attr = binding
            if attr is None:
                return ('module', module) if module in self.modules else ('ext', module)
            return self.resolve_in_module(module, attr, seen)
        return binding

    def resolve_in_module(self, modname, attr, seen=()):
        """returns ('func'|'class', qual), ('module', name), ('global', mod, name), or ('ext', dotted)"""
        if (modname, attr) in seen:
            return ('ext', f'{modname}.{attr}')
        seen = (*seen, (modname, attr))
        mod = self.modules.get(modname)
        if mod is None:
            return ('ext', f'{modname}.{attr}')
        if attr in mod.bindings:
            binding = mod.bindings[attr]
            if binding[0] == 'var':
                # alias of something else?
                value = binding[1]
                if isinstance(value, ast.Name) and value.id in mod.bindings:
                    target = self.resolve_in_module(modname, value.id, seen)
                    if target[0] in ('func', 'class'):
                        return target
                return ('global', modname, attr)
            if binding[0] == 'import' and f'{modname}.{attr}' in self.modules and binding[2] is None:
                return ('module', f'{modname}.{attr}')
            return self.resolve_binding(binding, seen)
        if f'{modname}.{attr}' in self.modules:
            return ('module', f'{modname}.{attr}')
        return ('ext', f'{modname}.{attr}')

    def resolve_name(self, mod, name):
        if name in mod.bindings:
            return self.resolve_in_module(mod.name, name)
        if hasattr(builtins, name):
            return ('ext', name)
        return None

    def resolve_expr(self, mod, expr, local_bindings=None):
        """resolves a (dotted) name expression statically"""
        if isinstance(expr, ast.Name):
            if local_bindings and expr.id in local_bindings:
                return local_bindings[expr.id]
            return self.resolve_name(mod, expr.id)
        if isinstance(expr, ast.Attribute):
            base = self.resolve_expr(mod, expr.value, local_bindings)
            if base is None:
                return None
            if base[0] == 'module':
                return self.resolve_in_module(base[1], expr.attr)
            if base[0] == 'ext':
                return ('ext', f'{base[1]}.{expr.attr}')
        return None

    # ---- classes

    def mro(self, qual):
        cls = self.classes.get(qual)
        if cls is None:
            return [qual]
        if cls._mro is not None:
            return cls._mro
        cls._mro = [qual]  # guards against recursion
        bases = []
        for expr in cls.base_exprs:
            target = self.resolve_expr(cls.module, expr)
            if target is None:
                bases.append(ast.unparse(expr))
            elif target[0] == 'class':
                bases.append(target[1])
            elif target[0] == 'ext':
                bases.append(target[1])
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        out = [qual]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                head = s[0]
                if not any(head in other[1:] for other in seqs):
                    break
            else:
                head = seqs[0][0]
            out.append(head)
            for s in seqs:
                if s and s[0] == head:
                    s.pop(0)
        cls._mro = out
        return out

    def is_subclass(self, qual, base):
        return base in self.mro(qual)

    def subclasses(self, qual):
        return [q for q in self.classes if qual in self.mro(q)]

    def find_method(self, clsqual, name, after=None):
        """looks up along the linearised bases, optionally only after a class in it (super)"""
        mro = self.mro(clsqual)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for q in mro:
            cls = self.classes.get(q)
            if cls is not None and name in cls.methods:
                return cls.methods[name]
        return None

    def find_setter(self, clsqual, name):
        for q in self.mro(clsqual):
            cls = self.classes.get(q)
            if cls is not None and name in cls.setters:
                return cls.setters[name]
        return None

    def find_class_attr(self, clsqual, name):
        for q in self.mro(clsqual):
            cls = self.classes.get(q)
            if cls is not None and name in cls.attrs:
                return cls, cls.attrs[name]
        return None

    def external_bases(self, clsqual):
        return [q for q in self.mro(clsqual) if q not in self.classes]

    # ---- types

    def parse_type(self, mod, ann, local_bindings=None):
        """
        A declared type as ('cls', qual), ('b', builtin name), ('list', elem), ('dict', key, value),
        ('opt', type), ('type', t), or None when nothing usable is declared
        """
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.parse_type(mod, ast.parse(ann.value, mode='eval').body, local_bindings)
                except SyntaxError:
                    return None
            if ann.value is None:
                return ('b', 'NoneType')
            return None
        if isinstance(ann, (ast.Name, ast.Attribute)):
            name = ann.id if isinstance(ann, ast.Name) else ann.attr
            target = self.resolve_expr(mod, ann, local_bindings)
            if target is not None and target[0] == 'class':
                return ('cls', target[1])
            if target is not None and target[0] == 'global':
                owner = self.modules[target[1]]
                binding = owner.bindings.get(target[2])
                if binding and binding[0] == 'var' and binding[1] is not None:
                    if isinstance(binding[1], ast.Subscript):
                        return self.parse_type(owner, binding[1])
                return None
            low = name.lower()
            if isinstance(ann, ast.Attribute) and not (target is not None and target[0] == 'ext' and
                                                       target[1].split('.')[0] in ('typing', 'builtins')):
                return None
            if name in ('str', 'int', 'bool', 'float', 'bytes'):
                return ('b', name)
            if name in ('type', 'Type'):
                return ('type', None)
            if low == 'dict':
                return ('dict', None, None)
            if low in ('list',):
                return ('list', None)
            if low in ('set', 'tuple'):
                return (low, None)
            return None
        if isinstance(ann, ast.Subscript):
            outer = ann.value.id if isinstance(ann.value, ast.Name) else getattr(ann.value, 'attr', '')
            inner = ann.slice
            elts = inner.elts if isinstance(inner, ast.Tuple) else [inner]
            if outer == 'Optional':
                t = self.parse_type(mod, elts[0], local_bindings)
                return ('opt', t) if t else None
            if outer == 'Union':
                parts = [self.parse_type(mod, e, local_bindings) for e in elts]
                non_none = [p for p in parts if p != ('b', 'NoneType')]
                if len(non_none) == 1 and non_none[0] is not None:
                    return ('opt', non_none[0])
                return None
            if outer in ('List', 'list'):
                return ('list', self.parse_type(mod, elts[0], local_bindings))
            if outer in ('Sequence', 'Iterable', 'Iterator', 'Collection'):
                return ('iter', self.parse_type(mod, elts[0], local_bindings))
            if outer in ('Set', 'set', 'FrozenSet'):
                return ('set', self.parse_type(mod, elts[0], local_bindings))
            if outer in ('Dict', 'dict', 'DefaultDict'):
                if len(elts) == 2:
                    return ('dict', self.parse_type(mod, elts[0], local_bindings),
                            self.parse_type(mod, elts[1], local_bindings))
                return ('dict', None, None)
            if outer in ('Tuple', 'tuple'):
                return ('tuple', tuple(self.parse_type(mod, e, local_bindings) for e in elts))
            if outer in ('Type', 'type'):
                return ('type', None)
        return None

    def no_common_subclass(self, a, b):
        """whether nothing is a kind of both"""
        if not isinstance(a, str) or not isinstance(b, str):
            return False
        def ext(c):
            if c.startswith('ast.'):
                return getattr(ast, c[4:], None)
            return getattr(builtins, c, None)
        ours = [x for x in (a, b) if x in self.classes]
        if not ours:
            x, y = ext(a), ext(b)
            return a.startswith('ast.') and b.startswith('ast.') and isinstance(x, type) and isinstance(y, type) \
                and not issubclass(x, y) and not issubclass(y, x)
        if len(ours) == 1:
            other = next(x for x in (a, b) if x not in self.classes)
            return ext(other) is not None and not any(other in self.mro(c) for c in self.subclasses(ours[0]))
        return not any(self.is_subclass(c, a) and self.is_subclass(c, b) for c in self.classes)

    def returns_fresh(self, qual, seen=()):
        """'dict', 'list' or 'set' if every result of the function is a container it has just created"""
        cache = self.__dict__.setdefault('_fresh', {})
        if qual in cache:
            return cache[qual]
        info = self.funcs.get(qual)
        if info is None or info.is_generator or qual in seen:
            return None
        assigned = {}
        returns = []
        for n in ast.walk(info.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            assigned.setdefault(x.id, []).append(n.value if t is x else None)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                assigned.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension, ast.withitem, ast.NamedExpr)):
                target = getattr(n, 'target', None) or getattr(n, 'optional_vars', None)
                for x in ast.walk(target) if target is not None else ():
                    if isinstance(x, ast.Name):
                        assigned.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.Return):
                returns.append(n.value)

        def kind(e):
            if isinstance(e, (ast.Dict, ast.DictComp)):
                return 'dict'
            if isinstance(e, (ast.List, ast.ListComp)):
                return 'list'
            if isinstance(e, (ast.Set, ast.SetComp)):
                return 'set'
            if isinstance(e, ast.Name) and e.id in assigned and all(v is not None for v in assigned[e.id]):
                kinds = {kind(v) for v in assigned[e.id] if not (isinstance(v, ast.Name) and v.id == e.id)}
                return kinds.pop() if len(kinds) == 1 else None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
                target = self.resolve_expr(info.module, e.func, self.local_imports(info))
                if target is not None and target[0] == 'func':
                    return self.returns_fresh(target[1], seen + (qual,))
                if e.func.id in ('dict', 'list', 'set') and e.func.id not in assigned:
                    return e.func.id
            return None
        kinds = {kind(e) if e is not None else None for e in returns}
        cache[qual] = kinds.pop() if len(kinds) == 1 else None
        return cache[qual]

    def dynamic_attr_type(self, clsqual):
        """class of the attributes which a class sets on itself by names which are computed"""
        cache = self.__dict__.setdefault('_dynamic', {})
        if clsqual not in cache:
            cache[clsqual] = None
            found = set()
            cls = self.classes.get(clsqual)
            for item in cls.node.body if cls is not None else ():
                if not isinstance(item, ast.FunctionDef) or not item.args.args:
                    continue
                made = {}
                for n in ast.walk(item):
                    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                        made[n.targets[0].id] = n.value
                for n in ast.walk(item):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' \
                            and len(n.args) == 3 and isinstance(n.args[0], ast.Name) \
                            and n.args[0].id == item.args.args[0].arg:
                        value = n.args[2]
                        if isinstance(value, ast.Name):
                            value = made.get(value.id)
                        target = self.resolve_expr(cls.module, value.func, {}) if isinstance(value, ast.Call) else None
                        found.add(target[1] if target is not None and target[0] == 'class' else None)
            if len(found) == 1 and None not in found:
                cache[clsqual] = ('cls', found.pop())
        return cache[clsqual]

    def inst_attr_types(self, clsqual):
        """types of instance attributes as declared in the class body or assigned from typed values in methods"""
        cls = self.classes.get(clsqual)
        if cls is None:
            return {}
        if cls.inst_types is not None:
            return cls.inst_types
        cls.inst_types = out = {}
        for name, ann in cls.annotations.items():
            t = self.parse_type(cls.module, ann)
            if t:
                out[name] = t
        methods = list(cls.methods.values())
        methods.sort(key=lambda f: f.name != '__init__')
        for info in methods:
            local = self.local_imports(info)
            params = {}
            for arg in all_args(info.node):
                t = self.parse_type(info.module, arg.annotation, local)
                if t:
                    params[arg.arg] = t
            # parameters with a default of None which are replaced when they are None
            for node in walk_same_scope(info.node):
                target = value = ann = None
                if isinstance(node, ast.Assign) and len(node.targets) == 1:
                    target, value = node.targets[0], node.value
                elif isinstance(node, ast.AnnAssign):
                    target, value, ann = node.target, node.value, node.annotation
                if not (isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name)
                        and target.value.id == 'self'):
                    continue
                if target.attr in out:
                    continue
                t = self.parse_type(info.module, ann, local) if ann is not None else None
                if t is None and isinstance(value, ast.Name):
                    t = params.get(value.id)
                    if t is not None and t[0] == 'opt':
                        t = t[1]
                if t is None and isinstance(value, ast.Call):
                    ref = self.resolve_expr(info.module, value.func, local)
                    if ref is not None and ref[0] == 'class':
                        t = ('cls', ref[1])
                    elif ref is not None and ref[0] == 'func' and ref[1] in self.funcs:
                        t = self.return_type(self.funcs[ref[1]])
                        if t is not None and t[0] == 'opt':
                            t = None
                if t is None and isinstance(value, (ast.Dict, ast.DictComp)):
                    t = ('dict', None, None)
                if t is None and isinstance(value, (ast.List, ast.ListComp)):
                    t = ('list', None)
                if t:
                    out[target.attr] = t
        return out

    def attr_type(self, clsqual, name):
        for q in self.mro(clsqual):
            if q in self.classes:
                t = self.inst_attr_types(q).get(name)
                if t:
                    return t
                info = self.classes[q].methods.get(name)
                if info is not None and info.kind == 'property':
                    return self.parse_type(info.module, info.node.returns, self.local_imports(info))
        return None

    def global_type(self, modname, name):
        mod = self.modules.get(modname)
        if mod is None:
            return None
        if name in mod.var_annotations:
            t = self.parse_type(mod, mod.var_annotations[name])
            if t:
                return t
        binding = mod.bindings.get(name)
        if binding and binding[0] == 'var' and isinstance(binding[1], ast.Call):
            ref = self.resolve_expr(mod, binding[1].func)
            if ref is not None and ref[0] == 'class':
                return ('cls', ref[1])
        return None

    def local_imports(self, info):
        out = info.__dict__.get('_local_imports')
        if out is not None:
            return out
        info._local_imports = out = {}
        for node in walk_same_scope(info.node):
            if isinstance(node, (ast.Import, ast.ImportFrom)):
                for name, target in self.import_bindings(info.module, node):
                    out[name] = self.resolve_binding(target)
        return out

    def attr_writes(self, clsqual):
        """{attribute name: [(method, node)]} of stores to attributes in the methods of a class itself"""
        cls = self.classes.get(clsqual)
        if cls is None:
            return {}
        out = cls.__dict__.get('_attr_writes')
        if out is None:
            cls._attr_writes = out = {}
            for m in list(cls.methods.values()) + list(cls.setters.values()):
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        out.setdefault(n.attr, []).append((m, n))
        return out

    def finds_nothing_missing(self, qual, depth=0):
        """whether a call of the function or class cannot raise KeyError or IndexError: nothing in it is looked up"""
        cache = self.__dict__.setdefault('_finds', {})
        if qual in cache:
            return cache[qual]
        cache[qual] = False
        cls = self.classes.get(qual)
        if cls is not None:
            if self.find_method(qual, '__new__') is not None:
                return False
            info = self.find_method(qual, '__init__')
        else:
            info = self.funcs.get(qual)
        if info is None or depth > 4:
            return False
        local = self.local_imports(info)
        plain = {'len', 'isinstance', 'str', 'list', 'tuple', 'set', 'dict', 'hasattr', 'super', 'bool'}
        texts = {'split', 'join', 'strip', 'lower', 'upper', 'endswith', 'startswith', 'format', 'replace'}
        annotations = {id(n) for s in info.node.body for a in ast.walk(s) if isinstance(a, ast.AnnAssign)
                       for n in ast.walk(a.annotation)}
        for node in (n for s in info.node.body for n in ast.walk(s) if id(n) not in annotations):
            if isinstance(node, (ast.Subscript, ast.Raise, ast.Delete, ast.With, ast.For, ast.While, ast.Await, ast.BinOp)):
                return False
            if isinstance(node, ast.Attribute) and not (
                    isinstance(node.value, ast.Name) and node.value.id == 'self' and isinstance(node.ctx, ast.Store)
                    or node.attr in texts):
                return False
            if isinstance(node, ast.Call):
                if isinstance(node.func, ast.Name) and node.func.id in plain:
                    continue
                if isinstance(node.func, ast.Attribute) and node.func.attr in texts:
                    continue
                ref = self.resolve_expr(info.module, node.func, local)
                if ref is None or ref[0] not in ('func', 'class') or not self.finds_nothing_missing(ref[1], depth + 1):
                    return False
        cache[qual] = True
        return True

    def return_type(self, info):
        """declared type of the result, else the class itself for a class method which ends with calls of cls"""
        if '_return_type' in info.__dict__:
            return info._return_type
        info._return_type = None
        t = self.parse_type(info.module, info.node.returns, self.local_imports(info))
        if t is None and info.node.returns is None and info.cls is not None and info.kind == 'classmethod':
            first = info.node.args.args[0].arg if info.node.args.args else None
            names = {first, info.cls.name}

            def is_instance(v, depth=0):
                if isinstance(v, ast.Call):
                    if isinstance(v.func, ast.Name):
                        return v.func.id in names
                    if isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) \
                            and v.func.value.id in names:
                        other = self.find_method(info.cls.qual, v.func.attr)
                        return other is not None and (other is info or self.return_type(other) == ('cls', info.cls.qual))
                if isinstance(v, ast.Name) and depth == 0:
                    values = [n.value for n in walk_same_scope(info.node) if isinstance(n, ast.Assign) and any(
                        isinstance(x, ast.Name) and x.id == v.id for x in n.targets)]
                    values = [x for x in values if not (isinstance(x, ast.Constant) and x.value is None)]
                    return bool(values) and any(is_instance(x, 1) for x in values) and all(
                        isinstance(x, ast.Name) or is_instance(x, 1) for x in values)
                return False
            rets = [n.value for n in walk_same_scope(info.node) if isinstance(n, ast.Return)]
            if rets and all(is_instance(v) for v in rets):
                t = ('cls', info.cls.qual)
        info._return_type = t
        return t

    def never_none(self, clsqual, name):
        """
        whether an attribute always holds a value other than None: its only write is in the constructor, which takes
        it over from a parameter which is declared not to be None
        """
        cache = self.__dict__.setdefault('_never_none', {})
        key = (clsqual, name)
        if key in cache:
            return cache[key]
        cache[key] = False
        writes = []
        for q in self.mro(clsqual):
            if q in self.classes:
                if name in self.classes[q].methods:
                    return False
                writes += self.attr_writes(q).get(name, [])
        if len(writes) != 1 or writes[0][0].name != '__init__':
            return False
        info, node = writes[0]
        a = info.node.args
        params = list(a.posonlyargs) + list(a.args)
        defaults = dict(zip([p.arg for p in params[len(params) - len(a.defaults):]], a.defaults))
        for n in info.node.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and n.targets[0] is node \
                    and isinstance(n.value, ast.Name):
                arg = next((p for p in params if p.arg == n.value.id), None)
                if arg is None or arg.annotation is None:
                    return False
                default = defaults.get(arg.arg)
                if isinstance(default, ast.Constant) and default.value is None:
                    return False
                t = self.parse_type(info.module, arg.annotation, self.local_imports(info))
                stored = any(isinstance(x, ast.Name) and x.id == arg.arg and isinstance(x.ctx, ast.Store)
                             for x in ast.walk(info.node))
                cache[key] = t is not None and t[0] in ('b', 'cls', 'list', 'dict', 'set', 'tuple') \
                    and t != ('b', 'NoneType') and not stored
        return cache[key]

    # ---- anchors

    def locate(self, qual):
        """finds a function which was moved to another module or to a base class"""
        if qual in self.funcs or '.' not in qual:
            return
        parent, name = qual.rsplit('.', 1)
        if parent in self.modules:
            target = self.resolve_in_module(parent, name)
            if target is not None and target[0] == 'func' and target[1] in self.funcs:
                info = self.funcs[target[1]]
                info.qual = qual
                self.funcs[qual] = info
        elif parent in self.classes:
            plain, setter = name.removesuffix(':setter'), name.endswith(':setter')
            info = self.find_setter(parent, plain) if setter else self.find_method(parent, plain)
            if info is not None:
                self.funcs[qual] = info

    def exists_elsewhere(self, qual):
        last = qual.split('.')[-1]
        return any(q.split('.')[-1] == last and q.startswith('pyfileconf.') for q in self.funcs)

    def method_removed(self, qual):
        """whether a class which still exists lost a public method"""
        parent, name = qual.rsplit('.', 1)
        plain = name.removesuffix(':setter')
        if plain.startswith('_') and not plain.endswith('__') or parent not in self.classes:
            return False
        for q in self.mro(parent):
            if q not in self.classes:
                continue
            if plain in self.classes[q].attrs or plain in self.classes[q].annotations:
                return False
            for n in self.classes[q].node.body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and plain in ast.unparse(n).split('=')[0]:
                    return False
        return True

    def need_func(self, qual):
        if qual in self.funcs:
            return self.funcs[qual]
        raise AnalysisBroken(f'anchor {qual} does not exist in the analysed tree')

    def need_class(self, qual):
        if qual in self.classes:
            return self.classes[qual]
        raise AnalysisBroken(f'anchor {qual} does not exist in the analysed tree')


def all_args(node):
    a = node.args
    out = list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs)
    if a.vararg:
        out.append(a.vararg)
    if a.kwarg:
        out.append(a.kwarg)
    return out
