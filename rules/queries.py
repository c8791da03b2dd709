"""Rules over the whole package which are not about a single function"""
import ast

from analyzer.conform import Result, Violation
from analyzer.interp import Interp
from analyzer.model import AnalysisBroken
from analyzer.ownership import Ownership

from analyzer.state import Undecided
from analyzer.values import contains

from .lib import CONFIG_BASE, CONFIG_MANAGER, PIPELINE_MANAGER, RUNNER, P

HOOKSPECS = P + 'plugin.hookspecs'
# what plugins are written against: the hooks and the arguments they may ask for
HOOKS = {
    'pyfileconf_iter_get_cases': {'config_updates', 'runner'},
    'pyfileconf_iter_modify_cases': {'cases', 'runner'},
    'pyfileconf_iter_update_for_case': {'case', 'runner'},
    'pyfileconf_pre_run': {'section_path_str_or_list', 'pm'},
    'pyfileconf_post_run': {'results', 'runner'},
    'pyfileconf_pre_update': {'pm', 'd_', 'section_path_str', 'kwargs'},
    'pyfileconf_post_update': {'pm', 'd_', 'section_path_str', 'kwargs'},
    'pyfileconf_pre_update_batch': {'pm', 'updates'},
    'pyfileconf_post_update_batch': {'pm', 'updates'},
    'pyfileconf_pre_config_changed': {'manager', 'orig_config', 'updates', 'section_path_str'},
    'pyfileconf_post_config_changed': {'manager', 'new_config', 'updates', 'section_path_str'},
}

# the arguments which plugins are told to modify in place
IN_PLACE = {
    'pyfileconf_iter_modify_cases': ['cases'],
    'pyfileconf_pre_run': ['section_path_str_or_list'],
    'pyfileconf_post_run': ['results'],
    'pyfileconf_pre_update': ['d_', 'kwargs'],
}
# expressions which always give a new object
NEW_OBJECT = (ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.BinOp)
NEW_BY_CALL = {'list', 'tuple', 'dict', 'set', 'sorted', 'reversed', 'copy', 'deepcopy', 'frozenset'}


def where(module, node):
    return f'{module.relpath}:{node.lineno}'


def package_functions(prog):
    found = {id(i.node): i for q, i in prog.funcs.items() if q.startswith(P)}
    return list(found.values())


def decorated(node, marker):
    """the decorator of that name and the keywords given to it"""
    for d in node.decorator_list:
        call = d if isinstance(d, ast.Call) else None
        name = call.func if call else d
        if (name.id if isinstance(name, ast.Name) else name.attr if isinstance(name, ast.Attribute) else '') == marker:
            return {k.arg: k.value for k in call.keywords} if call else {}
    return None


def true_constant(e):
    return not (isinstance(e, ast.Constant) and not e.value)


def hook_contract(prog):
    """plugins can implement each of the hooks, with any of its arguments, and each implementation is called"""
    r = Result()
    mod = prog.modules.get(HOOKSPECS)
    if mod is None:
        raise AnalysisBroken(f'there is no module {HOOKSPECS}')
    specs = {n.name: n for n in mod.tree.body if isinstance(n, ast.FunctionDef) and decorated(n, 'hookspec') is not None}

    def violation(rule, at, construct, message):
        r.violations.append(Violation(rule, at, construct, message))

    for name, expected in HOOKS.items():
        r.obligations += 1
        node = specs.get(name)
        if node is None:
            violation('hook-specified', mod.relpath + ':1', f'plugin.hookspecs.{name}',
                      f'{name} is not specified as a hook any more: plugins which implement it are not called')
            continue
        a = node.args
        given = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
        missing = expected - given
        options = decorated(node, 'hookspec')
        if missing:
            violation('hook-arguments', where(mod, node), f'plugin.hookspecs.{name}',
                      f'{name} does not have the argument {", ".join(sorted(missing))} which plugins may ask for')
        elif any(true_constant(v) for k, v in options.items() if k in ('firstresult', 'historic')):
            violation('hook-results', where(mod, node), f'plugin.hookspecs.{name}',
                      f'{name} does not give the results of all plugins as a list any more')
        else:
            r.analysed.append(f'{name}: specified with {", ".join(sorted(expected))}')
        r.functions.add(f'{HOOKSPECS}.{name}')
    called = {}
    for m in prog.modules.values():
        if not m.name.startswith('pyfileconf') or m.name.startswith('pyfileconf_reference'):
            continue
        for n in ast.walk(m.tree):
            # (the hooks may be called through a shorter name, or looked up by their name)
            used = n.attr if isinstance(n, ast.Attribute) else n.value if isinstance(n, ast.Constant) else None
            if isinstance(used, str) and used in specs and not m.name.startswith(P + 'plugin.'):
                called[used] = True
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                continue
            direct = isinstance(n.func.value, ast.Attribute) and n.func.value.attr == 'hook'
            if not direct and not (isinstance(n.func.value, ast.Name) and n.func.attr in specs
                                   and not m.name.startswith(P + 'plugin.')):
                continue
            r.obligations += 1
            r.call_sites += 1
            name = n.func.attr
            called[name] = True
            spec = specs.get(name)
            if spec is None:
                violation('hook-call', where(m, n), f'call of {name}', f'{name} is called, but is not specified as a hook')
                continue
            params = {p.arg for p in spec.args.posonlyargs + spec.args.args + spec.args.kwonlyargs}
            if any(k.arg is None for k in n.keywords):
                r.undecided.append(f'{where(m, n)}: {name} is called with arguments which are not written out')
                continue
            given = {k.arg for k in n.keywords}
            if n.args:
                violation('hook-call', where(m, n), f'call of {name}', f'{name} is called with positional arguments, '
                          f'which the plugin system does not accept')
            elif given != params:
                what = [f'without {x}' for x in sorted(params - given)] + [
                    f'with {x}, which it does not have' for x in sorted(given - params)]
                violation('hook-call', where(m, n), f'call of {name}', f'{name} is called ' + ' and '.join(what))
            else:
                r.analysed.append(f'{where(m, n)}: call of {name} gives each argument')
        for n in ast.walk(m.tree):
            # a name bound to the plugin manager stays with the old one after the plugins were reset
            if isinstance(n, ast.ImportFrom) and n in m.tree.body and m.name != 'pyfileconf.plugin.manager' and any(
                    x.name == 'plm' for x in n.names) and (n.module or '').endswith('plugin.manager'):
                r.obligations += 1
                violation('hook-manager', where(m, n), f'{m.name} import of plm',
                          'the plugin manager is bound when the module is imported: resetting plugins has no effect on it')
    for name in HOOKS:
        if name in specs and name not in called:
            r.obligations += 1
            violation('hook-called', where(mod, specs[name]), f'plugin.hookspecs.{name}',
                      f'{name} is never called: plugins which implement it have no effect')
    for info in package_functions(prog):
        options = decorated(info.node, 'hookimpl')
        if options is None:
            continue
        r.obligations += 1
        r.functions.add(info.qual)
        spec = specs.get(info.name)
        if spec is None:
            violation('hook-implementation', info.loc(), info.qual.replace(P, ''),
                      f'{info.name} is marked as the implementation of a hook, but there is no such hook')
            continue
        params = {p.arg for p in spec.args.posonlyargs + spec.args.args + spec.args.kwonlyargs}
        own = [p.arg for p in info.node.args.posonlyargs + info.node.args.args]
        surplus = set(own) - params - ({own[0]} if info.cls is not None and own else set())
        if surplus:
            violation('hook-implementation', info.loc(), info.qual.replace(P, ''),
                      f'{info.name} asks for {", ".join(sorted(surplus))}, which the hook does not have')
        else:
            r.analysed.append(f'{info.qual.replace(P, "")}: takes arguments of the hook')
    defaults = [i for i in package_functions(prog) if i.module.name == P + 'plugin.default_hooks'
                and i.name in HOOKS and decorated(i.node, 'hookimpl') is None and i.cls is None]
    for info in defaults:
        r.obligations += 1
        violation('hook-implementation', info.loc(), info.qual.replace(P, ''),
                  f'{info.name} is not marked as the implementation of the hook, and so is never called')
    return r


def hook_modifications(prog):
    """what plugins do to the arguments which they may modify in place is what is worked with afterwards"""
    r = Result()
    infos = package_functions(prog)

    def after(info, call, name):
        """whether the object the name stands for at the call is used later in the function"""
        end = (call.end_lineno, call.end_col_offset)
        parents = {c: p for p in ast.walk(info.node) for c in ast.iter_child_nodes(p)}
        bound = [(n.lineno, n.col_offset) for n in ast.walk(info.node)
                 if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]
        last = max((b for b in bound if b < end), default=(0, 0))
        names = {name}
        for n in ast.walk(info.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names \
                    and (n.lineno, n.col_offset) >= last:
                names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Name) and n.value.id in names:
                targets = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in targets):
                    return True
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) and (
                    n.lineno, n.col_offset) <= last and isinstance(n.value, (ast.Attribute, ast.Subscript, ast.Name)) \
                    and not any(b < (n.lineno, n.col_offset) for b in bound):
                if isinstance(n.value, ast.Name):
                    names.add(n.value.id)
                else:
                    return True
        loop = call
        while loop is not None and not isinstance(loop, (ast.For, ast.While, ast.AsyncFor)):
            loop = parents.get(loop)
        for n in ast.walk(info.node):
            if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load):
                if (n.lineno, n.col_offset) <= end and (loop is None or n.lineno < loop.lineno or inside(n, call)):
                    continue
                up, shown = n, False
                while up is not None:
                    if isinstance(up, ast.Call) and ast.unparse(up.func).split('.')[0] in ('logger', 'logging', 'print', 'repr'):
                        shown = True
                    up = parents.get(up)
                if not shown:
                    return True
        return False

    def inside(n, call):
        return any(x is n for x in ast.walk(call))

    def check(info, call, expr, hook, arg, depth, seen):
        """None: it is the object worked with, otherwise (where, what is wrong)"""
        while isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id == 'cast' and len(expr.args) == 2:
            expr = expr.args[1]
        if isinstance(expr, (ast.IfExp, ast.BoolOp)):
            for part in [expr.body, expr.orelse] if isinstance(expr, ast.IfExp) else expr.values:
                wrong = check(info, call, part, hook, arg, depth, seen)
                if wrong is not None and not isinstance(part, NEW_OBJECT):
                    return wrong
            return None
        if isinstance(expr, ast.Call):
            name = expr.func.attr if isinstance(expr.func, ast.Attribute) else getattr(expr.func, 'id', '')
            if name in NEW_BY_CALL:
                return info, expr, f'{hook} is given a copy as {arg}'
            return None
        if isinstance(expr, NEW_OBJECT) or isinstance(expr, ast.Subscript) and isinstance(expr.slice, ast.Slice):
            return info, expr, f'{hook} is given a new object as {arg}'
        if not isinstance(expr, ast.Name) or after(info, call, expr.id):
            return None
        a = info.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        if expr.id in params + [p.arg for p in a.kwonlyargs] and depth:
            calls = list(calls_of(info))
            skip = 1 if info.cls is not None and info.kind != 'static' else 0
            for caller, c in calls:
                given = next((k.value for k in c.keywords if k.arg == expr.id), None)
                if given is None and expr.id in params:
                    i = params.index(expr.id) - skip
                    given = c.args[i] if 0 <= i < len(c.args) else None
                if given is not None and (caller.qual, c.lineno) not in seen:
                    wrong = check(caller, c, given, hook, arg, depth - 1, seen | {(caller.qual, c.lineno)})
                    if wrong is None:
                        return None
                    if caller.qual:
                        return wrong
        return info, expr, f'what plugins change in {arg} of {hook} is not used afterwards'

    def calls_of(info):
        for other in infos:
            for n in ast.walk(other.node):
                if isinstance(n, ast.Call) and (
                        isinstance(n.func, ast.Attribute) and n.func.attr == info.name
                        or isinstance(n.func, ast.Name) and n.func.id == info.name):
                    yield other, n

    for info in infos:
        for n in ast.walk(info.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute)
                    and n.func.value.attr == 'hook' and n.func.attr in IN_PLACE):
                continue
            r.functions.add(info.qual)
            r.call_sites += 1
            for k in n.keywords:
                if k.arg not in IN_PLACE[n.func.attr]:
                    continue
                r.obligations += 1
                wrong = check(info, n, k.value, n.func.attr, k.arg, 3, set())
                if wrong:
                    r.violations.append(Violation('hook-modifications', where(wrong[0].module, wrong[1]),
                                                  info.qual.replace(P, ''), wrong[2]))
                else:
                    r.analysed.append(f'{where(info.module, n)}: {k.arg} of {n.func.attr} is what is worked with afterwards')
    return r


PUBLIC = ('main.PipelineManager', 'iterate.IterativeRunner', 'batch.BatchUpdater', 'opts.PyfileconfOptionsManager',
          'selector.models.selector.Selector', 'sectionpath.sectionpath.SectionPath')


def ownership(prog):
    """nothing which belongs to the caller, to all calls of a function or to all objects of a class is modified"""
    entries = {}
    for c in PUBLIC:
        cls = prog.classes.get(P + c)
        if cls is None:
            continue
        for name, info in cls.methods.items():
            if (not name.startswith('_') or name in ('__init__', '__call__')) and info.kind != 'property':
                entries[info.qual] = f'{cls.name}.{name}'
    if not any(q.startswith(P + 'main.PipelineManager.') for q in entries):
        raise AnalysisBroken('there is no class PipelineManager')
    o = Ownership(prog, entries).run()
    r = Result()
    r.functions = {q for q in o.functions}
    r.call_sites = o.sites
    r.obligations = len(o.functions)
    bad = set()
    for (qual, line), (info, _, origin, text) in sorted(o.found.items(), key=lambda x: x[0]):
        bad.add(qual)
        r.violations.append(Violation('modifies-what-it-does-not-own', f'{info.module.relpath}:{line}',
                                      qual.replace(P, ''), f'`{text}` modifies {origin}'))
    r.analysed.append(f'{len(entries)} public functions: what they are given is followed through {len(o.functions)} '
                      f'functions to {o.sites} modifications of containers')
    r.obligations = len(r.analysed) + len(bad)
    return r


ASCII_WRITES = ('write', 'writelines')


def files(prog):
    """files are opened as UTF-8 in a with statement, unless only ASCII constants are written"""
    r = Result()
    for m in prog.modules.values():
        if not m.name.startswith('pyfileconf') or m.name.startswith('pyfileconf_reference'):
            continue
        parents = {c: p for p in ast.walk(m.tree) for c in ast.iter_child_nodes(p)}
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and (
                    isinstance(n.func, ast.Name) and n.func.id == 'open'
                    or isinstance(n.func, ast.Attribute) and n.func.attr == 'open'
                    and ast.unparse(n.func) in ('io.open', 'codecs.open'))):
                continue
            r.obligations += 1
            r.call_sites += 1
            at, construct = where(m, n), f'{m.name.replace(P, "")}: {ast.unparse(n)}'
            up = parents.get(n)
            while isinstance(up, ast.Call) and ast.unparse(up.func).endswith('enter_context'):
                up = None
            if up is not None and not isinstance(up, ast.withitem):
                name = up.targets[0].id if isinstance(up, ast.Assign) and isinstance(up.targets[0], ast.Name) else None
                scope = up
                while scope is not None and not isinstance(scope, (ast.FunctionDef, ast.Module)):
                    scope = parents.get(scope)
                closed = name is not None and (
                    any(isinstance(t, ast.Try) and any(f'{name}.close(' in ast.unparse(f) for f in t.finalbody)
                        for t in ast.walk(scope))
                    or any(isinstance(w, ast.withitem) and name in {x.id for x in ast.walk(w.context_expr)
                                                                   if isinstance(x, ast.Name)}
                           for w in ast.walk(scope)))
                if not closed:
                    if isinstance(up, ast.Return):
                        r.undecided.append(f'{at}: the opened file is returned')
                        continue
                    r.violations.append(Violation('file-closed', at, construct,
                                                  'the file is not closed when an exception is raised'))
                    continue
            mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
            if mode is not None and not isinstance(mode, ast.Constant) or any(k.arg is None for k in n.keywords):
                r.undecided.append(f'{at}: how the file is opened is not written out')
                continue
            if mode is not None and 'b' in str(mode.value):
                r.analysed.append(f'{at}: binary')
                continue
            encoding = n.args[3] if len(n.args) > 3 else next((k.value for k in n.keywords if k.arg == 'encoding'), None)
            if encoding is None:
                if constant_writes(up, parents, prog, m) or mode is not None and mode.value == 'a':
                    r.analysed.append(f'{at}: only constants are written')
                    continue
                r.violations.append(Violation('file-encoding', at, construct, 'the encoding of the file depends on the '
                                              'locale, although Python reads source files as UTF-8'))
            elif isinstance(encoding, ast.Constant) and str(encoding.value).lower().replace('-', '').replace(
                    '_', '') not in ('utf8',):
                r.violations.append(Violation('file-encoding', at, construct,
                                              f'the encoding is {encoding.value!r}, but Python reads source files as UTF-8'))
            else:
                r.analysed.append(f'{at}: closed on every way, UTF-8')
    return r


def constant_writes(item, parents, prog, module):
    w = parents.get(item)
    if not isinstance(w, ast.With) or not isinstance(item.optional_vars, ast.Name):
        return False
    name = item.optional_vars.id
    calls = [c for s in w.body for c in ast.walk(s) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute)
             and isinstance(c.func.value, ast.Name) and c.func.value.id == name]
    uses = [x for s in w.body for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == name]
    scope = w
    while scope is not None and not isinstance(scope, (ast.FunctionDef, ast.Module)):
        scope = parents.get(scope)
    return bool(calls) and len(uses) == len(calls) and all(
        c.func.attr in ASCII_WRITES and all(ConstantText(prog, module).text(a, scope) for a in c.args) for c in calls)


class ConstantText:
    """whether an expression certainly is a text of ASCII characters written in the program, following assignments, loops
    over literals, and parameters to the calls of the function"""

    def __init__(self, prog, module):
        self.prog, self.module, self.seen = prog, module, set()

    def text(self, e, scope):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, str) and e.value.isascii()
        if isinstance(e, ast.JoinedStr):
            return all(isinstance(v, ast.Constant) and v.value.isascii() for v in e.values)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult)):
            return self.text(e.left, scope) and (isinstance(e.op, ast.Mult) or self.text(e.right, scope))
        if isinstance(e, ast.IfExp):
            return self.text(e.body, scope) and self.text(e.orelse, scope)
        if isinstance(e, ast.Name):
            return self.name(e.id, scope)
        return False

    def name(self, name, scope):
        if (name, scope) in self.seen:
            return False
        self.seen.add((name, scope))
        bound = False
        for n in ast.walk(scope):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) or isinstance(
                    n, (ast.AnnAssign, ast.AugAssign)) and isinstance(n.target, ast.Name) and n.target.id == name:
                if n.value is None or not self.text(n.value, scope):
                    return False
                bound = True
            elif isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and not any(
                    n in ast.walk(x.target) for x in ast.walk(scope) if isinstance(x, (ast.For, ast.AnnAssign, ast.AugAssign))) \
                    and not any(n in x.targets for x in ast.walk(scope) if isinstance(x, ast.Assign)):
                return False
            elif isinstance(n, ast.For) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                if not self.element(n, name, scope):
                    return False
                bound = True
        if isinstance(scope, ast.FunctionDef):
            a = scope.args
            params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            if name in params:
                return self.argument(name, scope)
        elif not bound:
            return False
        if not bound and scope is not self.module.tree:
            return self.name(name, self.module.tree)
        return bound

    def argument(self, name, fn):
        a = fn.args
        params = [x.arg for x in a.posonlyargs + a.args]
        found = False
        for m in self.prog.modules.values():
            if m.name.split('.')[0] != 'pyfileconf':
                continue
            for scope in [m.tree] + [x for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef)]:
                for c in own_nodes(scope):
                    if not isinstance(c, ast.Call) or (c.func.id if isinstance(c.func, ast.Name) else getattr(
                            c.func, 'attr', None)) != fn.name:
                        continue
                    found = True
                    if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
                        return False
                    given = next((k.value for k in c.keywords if k.arg == name), None)
                    if given is None and name in params:
                        i = params.index(name) - (1 if params[0] in ('self', 'cls') else 0)
                        given = c.args[i] if i < len(c.args) else None
                    if given is None:
                        i = len(a.args) - len(a.defaults)
                        at = [x.arg for x in a.args].index(name) if name in [x.arg for x in a.args] else -1
                        given = a.defaults[at - i] if at >= i else None
                    if given is None or not ConstantText(self.prog, m).text(given, scope):
                        return False
        return found

    def element(self, loop, name, scope):
        """what a loop over a literal, or over a dictionary filled in this function, gives to the name"""
        it, target, part = loop.iter, loop.target, None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'values'):
            part, it = it.func.attr, it.func.value
        at = None
        if isinstance(target, ast.Tuple):
            at = [i for i, t in enumerate(target.elts) if isinstance(t, ast.Name) and t.id == name]
            if len(at) != 1:
                return False
            at = at[0]
        values = []
        sources = [it]
        if isinstance(it, ast.Name):
            sources = []
            for n in ast.walk(scope):
                if isinstance(n, ast.Name) and n.id == it.id and isinstance(n.ctx, ast.Store):
                    a = next((x for x in ast.walk(scope) if isinstance(x, ast.Assign) and x.targets == [n]), None)
                    if a is None:
                        return False
                    sources.append(a.value)
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(
                        n.targets[0].value, ast.Name) and n.targets[0].value.id == it.id:
                    values.append((n.targets[0].slice, n.value))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
                        n.func.value, ast.Name) and n.func.value.id == it.id and n.func.attr not in ('items', 'values', 'keys'):
                    if n.func.attr != 'append' or part is not None:
                        return False
                    values.append(n.args[0])
        for src in sources:
            if isinstance(src, ast.Dict) and part is not None:
                values += list(zip(src.keys, src.values))
            elif isinstance(src, (ast.List, ast.Tuple)) and part is None:
                values += src.elts
            elif isinstance(src, ast.DictComp) and part is not None:
                values.append((src.key, src.value))
            elif isinstance(src, (ast.ListComp, ast.GeneratorExp)) and part is None:
                values.append(src.elt)
            else:
                return False
        for v in values:
            if isinstance(v, tuple):
                v = v[1] if part == 'values' or at == 1 else v[0]
            elif at is not None:
                if not isinstance(v, ast.Tuple):
                    return False
                v = v.elts[at]
            if v is None or not self.text(v, scope):
                return False
        return bool(values)


def own_nodes(scope):
    todo = list(ast.iter_child_nodes(scope))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, ast.FunctionDef):
            todo.extend(ast.iter_child_nodes(n))


SYNTACTIC = ('io.file.load.lazy.', 'io.file.load.parsers.', 'io.file.write.', 'io.func.load.', 'assignments.',
             'config.logic.load', 'imports.models.statements.rename', 'dictfiles.')
EXECUTES = {'exec_module', 'import_module', '__import__', 'exec', 'eval', 'execfile', 'run_path', 'run_module', 'load_module'}


def syntactic(prog):
    """what reads files as syntax trees neither executes nor imports them, in any function it calls"""
    r = Result()

    def targets(info):
        local = prog.local_imports(info)
        for n in ast.walk(info.node):
            if isinstance(n, ast.Attribute) and info.cls is not None and isinstance(n.value, ast.Name) and info.node.args.args \
                    and n.value.id == info.node.args.args[0].arg:
                for q in [info.cls.qual, *prog.subclasses(info.cls.qual)]:
                    m = prog.find_method(q, n.attr)
                    if m is not None and m.qual.startswith(P):
                        yield n, m
            if not isinstance(n, ast.Call):
                continue
            r.call_sites += 1
            f = n.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                    and f.value.func.id == 'super' and info.cls is not None:
                m = prog.find_method(info.cls.qual, f.attr, after=info.cls.qual)
                if m is not None and m.qual.startswith(P):
                    yield n, m
                continue
            got = prog.resolve_expr(info.module, f, local)
            if got is None:
                continue
            if got[0] == 'func' and got[1] in prog.funcs:
                yield n, prog.funcs[got[1]]
            elif got[0] == 'class':
                m = prog.find_method(got[1], '__init__')
                if m is not None:
                    yield n, m

    def executes(info):
        for n in ast.walk(info.node):
            if isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                if name in EXECUTES and not (name in ('exec', 'eval') and isinstance(n.func, ast.Attribute)):
                    yield n

    roots = [i for i in package_functions(prog) if i.qual[len(P):].startswith(SYNTACTIC)]
    if not roots:
        raise AnalysisBroken('nothing which reads files as syntax trees was found')
    reached, todo = {id(i): (i, ()) for i in roots}, list(roots)
    while todo:
        info = todo.pop()
        path = reached[id(info)][1]
        for n, target in targets(info):
            if id(target) not in reached:
                reached[id(target)] = (target, path + (f'{info.module.relpath}:{n.lineno}',))
                todo.append(target)
    for info, path in reached.values():
        r.functions.add(info.qual)
        r.obligations += 1
        found = list(executes(info))
        for n in found:
            r.violations.append(Violation('syntactic-reading', where(info.module, n), info.qual.replace(P, ''),
                                          f'`{ast.unparse(n)[:80]}` executes a file of the user'
                                          + (f', reached by {" -> ".join(path)}' if path else '')))
    r.analysed.append(f'{len(reached)} functions reached from {len(roots)} which read and write files as syntax trees')
    r.obligations = 1 + len(r.violations)
    return r


# keywords which methods of these are given are entries of configs
WITH_ENTRIES = {PIPELINE_MANAGER, RUNNER, CONFIG_MANAGER, CONFIG_BASE, P + 'config.models.section.ConfigSection',
                P + 'data.models.config.SpecificClassConfig', P + 'config.models.file.ActiveFunctionConfig',
                P + 'pipelines.models.config.FunctionConfig'}


def entry_names(prog):
    """entries of configs, which the user names, are not passed as keywords where names of parameters could match"""
    r = Result()

    def config_class(t):
        return t is not None and t[0] == 'cls' and CONFIG_BASE in prog.mro(t[1])

    def parameters(info):
        a = info.node.args
        names = [p.arg for p in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs)]
        return set(names[1:] if info.cls is not None and info.kind != 'staticmethod' else names) - {
            p.arg for p in a.posonlyargs}

    for info in package_functions(prog):
        spreading = [c for c in ast.walk(info.node) if isinstance(c, ast.Call) and any(k.arg is None for k in c.keywords)]
        if not spreading:
            continue
        r.functions.add(info.qual)
        r.call_sites += len(spreading)
        r.obligations += 1
        name = info.qual.removeprefix(P)
        interp = Interp(prog, inline_only=lambda other: False)
        interp.spreads = []
        try:
            interp.run_info(info)
        except Undecided as e:
            r.undecided.append(f'names of entries: {info.qual}: {e}')
            continue
        except Exception as e:
            r.undecided.append(f'names of entries: {info.qual}: not analysable ({type(e).__name__}: {e})')
            continue
        bad = False
        for callee, value, types, call in interp.spreads:
            if callee.name == '__init__' and callee.cls is not None and not callee.node.args.kwarg:
                continue
            # only where keywords are changes of configs
            own = contains(value, lambda x: x == ('s', '**kwargs')) and any(
                i.cls is not None and i.cls.qual in WITH_ENTRIES for i in (info, callee))
            entries = any(config_class(t) for t in types) or contains(
                value, lambda x: x[0] == 'a' and x[-1] == '_applied_updates')
            if not own and not entries:
                continue
            names = parameters(callee)
            if own and not entries:
                names -= parameters(info)
            if names:
                bad = True
                r.violations.append(Violation(
                    'names of entries', where(info.module, call), name,
                    f'passes entries of a config as keywords to {callee.qual.removeprefix(P)}, where an entry called '
                    f'{" or ".join(sorted(names))} is taken for a parameter'))
        if not bad:
            r.analysed.append(f'{name}: {len(spreading)} calls with entries as keywords, none of which a name can break')
    return r
