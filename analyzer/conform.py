"""
Comparison of the effects of a function of the package with the effects which a property demands of it.

What is demanded is given as a reference definition, which the same dataflow analysis summarises. The summaries are
compared: for every pair of paths whose conditions can hold together, the effects the rule looks at have to be the
same, in the order the rule demands, and so has the outcome. How either is written does not matter.

Three results: the property holds, it is violated, or the code uses a form the analysis can not summarise (undecided,
which is reported in the evidence and is not an alarm).
"""
import ast
import builtins
import os
import time
from collections import Counter
from contextlib import contextmanager

from .facts import strip_opt
from .interp import Interp, Path, merge_events
from .model import AnalysisBroken, FuncInfo, ModuleInfo
from .state import *
from .values import *

UNKNOWN_KINDS = {'u', 'lv', 'fold', 'after', 'last'}


class Violation:
    def __init__(self, rule, where, construct, message):
        self.rule, self.where, self.construct, self.message = rule, where, construct, message
        self.related = []

    def key(self):
        return f'{self.rule}|{self.construct}'

    def __repr__(self):
        return f'{self.where}: {self.construct}: {self.message}'


class Result:
    def __init__(self):
        self.violations = []
        self.undecided = []
        self.analysed = []      # descriptions of the obligations which were discharged
        self.functions = set()
        self.call_sites = 0
        self.paths = 0
        self.obligations = 0
        self.kept = 0           # effects of the references which the comparison was about

    def add(self, other):
        self.violations += other.violations
        self.undecided += other.undecided
        self.analysed += other.analysed
        self.functions |= other.functions
        self.call_sites += other.call_sites
        self.paths += other.paths
        self.obligations += other.obligations
        self.kept += other.kept


# variables of loops which develop in the same way in the function and in the reference: as good as any other value
KNOWN_VARIABLES = set()
ACCUMULATING = set()    # variables of loops which each round builds on


def unknown(v):
    return contains(v, lambda x: x[0] in UNKNOWN_KINDS and x not in KNOWN_VARIABLES or x == ('while', 'loop'))


def effect_name(e):
    """what an effect is for certain, apart from its arguments"""
    if e.kind in ('hook', 'yield'):
        return (e.kind, e.name if isinstance(e.name, str) else None)
    if e.kind == 'call' and isinstance(e.name, str) and e.name.startswith('pyfileconf.'):
        return ('call', e.name)
    return None


def effect_names(events):
    """what all effects are for certain, with None among them if something may be called which is not known"""
    out = set()
    for e in events:
        if e.kind == 'loop':
            for _, evs, _ in e.bodies:
                out |= effect_names(evs)
        elif e.kind == 'call' and not isinstance(e.name, str) or unknown(e.name):
            out.add(None)
        elif effect_name(e) is not None or e.kind == 'call':
            out.add(effect_name(e))
    return out


def spec_module(prog, source, name):
    """parses reference definitions as a module which sees the package (it is never imported or run)"""
    modname = f'pyfileconf_reference.{name}'
    old = prog.modules.pop(modname, None)
    if old is not None:
        for q in [q for q in prog.funcs if q.startswith(modname + '.')]:
            del prog.funcs[q]
    return prog.add_module(modname, modname, f'reference:{name}', source)


LISTING = ('readlines', 'splitlines')


class Attempt:
    """both sides and how they compare"""

    def __init__(self):
        self.want, self.got = [], []
        self.ispec = self.icode = self.problem = self.hints = None
        self.failed = False

    def fail(self, message):
        self.problem = ('undecided', None, message)
        self.failed = True
        return self


# lists of statements with a name, which can be filled when they are made or afterwards
CONTAINERS = {'pyfileconf.imports.models.statements.container.ImportStatementContainer',
              'pyfileconf.assignments.models.container.AssignmentStatementContainer'}


class Conform:
    """One obligation"""

    def __init__(self, prog, rule, entry, spec_info, self_cls=None, keep=None, order=(), returns=True, atoms=(),
                 pure=(), what='', exceptions=True, exc_mode=False, types=None, facts=None, inline_classes=CONTAINERS,
                 check_defaults=True, depth=None, rename=None, redirect=None,
                 kwargs=None):
        self.prog, self.rule, self.entry, self.spec_info = prog, rule, entry, spec_info
        self.self_cls, self.keep, self.order, self.returns = self_cls, keep, order, returns
        self.atoms, self.pure, self.what, self.exceptions = atoms, pure, what, exceptions
        self.exc_mode, self.types, self.facts, self.inline_classes = exc_mode, types, facts, inline_classes
        self.check_defaults = check_defaults
        self.depth = depth
        self.strict = False
        self.rename = rename or {}
        self.redirect = redirect or {}
        self.cut = set()
        self.kwargs = kwargs or {}
        self.own = {}
        self.result = Result()

    # CPU seconds for one obligation and for all of them
    BUDGET, TOTAL = 40, 400

    def interp(self):
        i = Interp(self.prog, atoms=self.atoms, pure_atoms=self.pure, exc_mode=self.exc_mode,
                   inline_classes=self.inline_classes, **self.kwargs)
        if self.depth:
            i.MAX_DEPTH = self.depth
        i.deadline = self.deadline
        i.rename = {self.spec_info.qual: self.entry}
        for short, qual in self.rename.items():
            i.rename[self.spec_info.qual.rsplit('.', 1)[0] + '.' + short] = qual
        return i

    def run(self):
        res = self.result
        res.obligations += 1
        self.deadline = min(time.process_time() + self.BUDGET, self.TOTAL)
        for q in {self.entry} | set(self.atoms) | set(self.pure):
            if q.startswith('pyfileconf.'):
                self.prog.locate(q)
        if self.entry not in self.prog.funcs:
            if self.prog.method_removed(self.entry):
                owner = self.prog.classes[self.entry.rsplit('.', 1)[0]]
                res.violations.append(Violation(
                    self.rule, f'{owner.module.path}:{owner.node.lineno}', self.entry.replace('pyfileconf.', ''),
                    'is no longer defined'))
            else:
                res.undecided.append(f'{self.rule}: {self.entry} no longer exists')
            return res
        info = self.prog.need_func(self.entry)
        spec = self.spec_info
        spec.cls = info.cls
        if info.cls is not None:
            spec.kind = info.kind
        names = [a.arg for a in spec.node.args.posonlyargs + spec.node.args.args]
        self.constructor = sym(names[0]) if names and info.name in ('__init__', '__new__') else None
        missing = self.missing_names()
        if self.check_defaults:
            self.compare_defaults(info, spec)
        types = self.param_types(info, names)
        types.update(self.types or {})
        tried = self.attempt(info, spec, names, types, missing, None)
        if tried.problem is not None and (tried.hints or not tried.failed):
            # with what only one of the sides knows about the values which both use, and with what is declared
            again = self.attempt(info, spec, names, types, missing, tried.hints, lenient=True)
            if again.problem is None or tried.problem[0] == 'violation' and again.problem[0] == 'undecided' \
                    and not again.failed:
                tried = again
        if tried.problem is not None and tried.problem[0] == 'violation' and self.keep is None:
            again = self.attempt_following(info, spec, names, types, missing, tried)
            if again is not None and again.problem is None:
                tried = again
        if tried.icode is not None:
            self.cut = tried.icode.cut - tried.ispec.cut
            res.functions |= {q for q in tried.icode.visited}
            res.call_sites += tried.icode.call_sites
            res.paths += len(tried.got)
            res.kept += sum(len(self.kept(p.events)) for p in tried.want)
        if tried.problem is not None:
            kind, where, message = tried.problem
            if kind == 'undecided':
                res.undecided.append(f'{self.rule}: {self.entry}: {message}')
            else:
                res.violations.append(Violation(self.rule, where or info.loc, self.entry.replace('pyfileconf.', ''),
                                                message))
        else:
            got = tried.got
            res.analysed.append(f'{self.entry.replace("pyfileconf.", "")}: {len(got)} paths '
                                f'({sum(1 for p in got for _ in p.all_events())} effects) agree with {self.what or self.rule}')
        return res

    def attempt_following(self, info, spec, names, types, missing, tried):
        """operations which only one of the sides calls are followed, so that it is about what they do"""
        atoms, pure = self.atoms, self.pure
        try:
            for _ in range(2):
                one_side = {q for q in tried.icode.met ^ tried.ispec.met if self.does_something(q)}
                if not one_side:
                    return None
                prefix = self.spec_info.qual.rsplit('.', 1)[0] + '.'
                one_side |= {prefix + short for short, qual in self.rename.items() if qual in one_side}
                self.atoms, self.pure = set(self.atoms) - one_side, set(self.pure) - one_side
                tried = self.attempt(info, spec, names, types, missing, None)
                if tried.problem is not None and tried.icode is not None:
                    tried = self.attempt(info, spec, names, types, missing, tried.hints, lenient=True)
                if tried.problem is None or tried.icode is None:
                    return tried
        finally:
            self.atoms, self.pure = atoms, pure

    def does_something(self, qual):
        info = self.prog.funcs.get(qual)
        return info is not None and not all(
            isinstance(x, (ast.Pass, ast.Raise)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
            for x in info.node.body)

    def attempt(self, info, spec, names, types, missing, hints, lenient=False):
        out = Attempt()
        try:
            ispec = self.interp()
            ispec.hints, ispec.lenient = hints or {}, lenient
            ispec.no_follow = {self.entry}
            ispec.redirect = self.redirect
            with self.provided():
                out.want = ispec.run_info(spec, self_cls=self.self_cls, types=dict(types), facts=self.facts, names=names)
        except Undecided as e:
            return out.fail(f'the reference is not analysable with this tree: {e}')
        except Exception as e:
            if os.environ.get('ANALYZER_DEBUG'):
                raise
            return out.fail(f'the reference is not analysable with this tree ({type(e).__name__}: {e})')
        try:
            icode = self.interp()
            icode.hints, icode.lenient = hints or {}, lenient
            out.got = icode.run_info(info, self_cls=self.self_cls, types=dict(types), facts=self.facts, names=names)
        except Undecided as e:
            return out.fail(str(e))
        except RecursionError:
            return out.fail('nested too deeply')
        except Exception as e:
            if os.environ.get('ANALYZER_DEBUG'):
                raise
            return out.fail(f'not analysable ({type(e).__name__}: {e})')
        out.ispec, out.icode = ispec, icode
        if icode.known != ispec.known:
            out.hints = {**icode.known, **ispec.known}
        KNOWN_VARIABLES.clear()
        same = {lv for lv in ispec.developments if ispec.developments[lv] == icode.developments.get(lv)}
        KNOWN_VARIABLES.update(same)
        ACCUMULATING.clear()
        ACCUMULATING.update(lv for i in (ispec, icode) for lv, found in i.developments.items()
                            if len(found) == 1 and accumulates(lv, *found))
        self.other_development = {}
        for lv, wanted in ispec.developments.items():
            found = icode.developments.get(lv, ())
            if lv not in same and len(wanted) == len(found) == 1:
                (a,), (b,) = found, wanted
                KNOWN_VARIABLES.add(lv)
                if certain_difference(a, b):
                    self.other_development[lv] = (a, b)
                KNOWN_VARIABLES.discard(lv)
        try:
            out.problem = self.compare_paths(ispec, out.want, out.got, top=True)
        except Undecided as e:
            return out.fail(str(e))
        except Exception as e:
            if os.environ.get('ANALYZER_DEBUG'):
                raise
            return out.fail(f'not comparable ({type(e).__name__}: {e})')
        if out.problem is not None and missing:
            out.problem = ('undecided', None, f'{", ".join(missing)} no longer exists ({out.problem[2]})')
        return out

    @contextmanager
    def provided(self):
        """methods which the package no longer has, as the reference uses them"""
        added = []
        for entry, ref in self.redirect.items():
            owner, _, name = entry.rpartition('.')
            cls = self.prog.classes.get(owner)
            if cls is None or entry in self.prog.funcs or ':' in name or self.prog.find_method(owner, name):
                continue
            target = self.prog.funcs[ref]
            target.cls = cls
            cls.methods[name] = target
            added.append((cls, name))
        try:
            yield
        finally:
            for cls, name in added:
                del cls.methods[name]

    def missing_names(self):
        """functions and attributes which the reference speaks about and which the package no longer has"""
        out = [a for a in self.atoms | self.pure if a.startswith('pyfileconf.') and a not in self.prog.funcs
               and a not in self.prog.classes]
        known = self.prog.__dict__.get('_attribute_names')
        if known is None:
            known = set()
            for mod in self.prog.modules.values():
                if mod.name.startswith('pyfileconf_reference'):
                    continue
                for n in ast.walk(mod.tree):
                    if isinstance(n, ast.Attribute):
                        known.add(n.attr)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        known.add(n.name)
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        known.add(n.id)
            self.prog.__dict__['_attribute_names'] = known
        mod = self.prog.modules[self.spec_info.module.name]
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and n.attr.startswith('_') and not n.attr.startswith('__') \
                    and n.attr not in known:
                out.append('attribute ' + n.attr)
        return out

    def param_types(self, info, names):
        out = {}
        a = info.node.args
        params = list(a.posonlyargs) + list(a.args)
        defaults = [None] * (len(params) - len(a.defaults)) + list(a.defaults)
        for i, (arg, default) in enumerate(zip(params, defaults)):
            t = self.prog.parse_type(info.module, arg.annotation, self.prog.local_imports(info))
            if t is not None and i < len(names):
                if isinstance(default, ast.Constant) and default.value is None and t[0] != 'opt':
                    t = ('opt', t)
                out[sym(names[i])] = t
        return out

    def compare_defaults(self, info, spec):
        def table(i):
            a = i.node.args
            params = list(a.posonlyargs) + list(a.args)
            d = [None] * (len(params) - len(a.defaults)) + list(a.defaults)
            return [ast.dump(x) if isinstance(x, ast.Constant) else None for x in d], \
                {p.arg: ast.dump(x) if isinstance(x, ast.Constant) else None for p, x in zip(a.kwonlyargs, a.kw_defaults)}
        (d1, k1), (d2, k2) = table(spec), table(info)
        a = info.node.args
        params = [p.arg for p in list(a.posonlyargs) + list(a.args)]
        for i, want in enumerate(d1):
            if i < len(d2) and want is not None and d2[i] != want:
                self.result.violations.append(Violation(
                    self.rule, info.loc, f'{self.entry.replace("pyfileconf.", "")}({params[i]})',
                    f'the default of {params[i]} is not what is documented and relied on'))

    # ---- comparison

    def kept(self, events):
        out = []
        for e in events:
            if e.kind == 'loop':
                bodies = tuple((facts, tuple(self.kept(evs)), o) for facts, evs, o in e.bodies)
                if any(evs for f, evs, o in bodies):
                    out.append(Ev('loop', 'loop', e.recv, (), e.loc, bodies, e.partial))
            else:
                got = True if self.keep is None else self.keep(e)
                if got:
                    out.append(e if got is True else got)
        return self.last_stores(merge_events(out))

    def last_stores(self, events):
        """of several assignments to an attribute with nothing between them the last counts, unless other functions read
        the attribute"""
        out = []
        for e in events:
            if out and e.kind == 'set' and out[-1].kind == 'set' and out[-1].name == e.name and out[-1].recv == e.recv \
                    and self.own_attribute(e.name):
                out.pop()
            out.append(e)
        return out

    def own_attribute(self, name):
        if not isinstance(name, str) or name not in self.own:
            inside = set(ast.walk(self.prog.funcs[self.entry].node)) if self.entry in self.prog.funcs else set()
            self.own[name] = not any(
                isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Load) and x not in inside
                for n, m in self.prog.modules.items() if n.split('.')[0] == self.entry.split('.')[0]
                for x in ast.walk(m.tree))
        return self.own[name]

    def compatible(self, interp, p, q):
        """a state in which the conditions of both paths hold, or None"""
        st = State()
        st.heap = p.state.heap
        st.types = dict(p.types)
        for t, v in q.types.items():
            st.types.setdefault(t, v)
        ours, theirs = p.facts, q.facts
        empty = {a[1] for facts in (ours, theirs) for a, pol in facts.items()
                 if a[0] == 'truthy' and not pol or a[0] == 'isnone' and pol}
        if empty:
            ours, theirs = without_entries(ours, empty), without_entries(theirs, empty)
            if ours is None or theirs is None:
                return None
        st.facts = dict(ours)
        return self.extend(interp, st, theirs.items())

    def extend(self, interp, st, facts):
        interp.check_budget()
        for atom, pol in facts:
            try:
                got = interp.decide(atom, st)
            except Exception:
                got = st.facts.get(atom)
            if got is not None and got is not pol:
                return None
            if got is None:
                st.facts[atom] = pol
                if atom[0] == 'isinst' and pol:
                    interp.assume(atom, pol, st)
        # each condition of the other side has to be possible given all of them
        for atom, pol in list(st.facts.items()):
            del st.facts[atom]
            try:
                got = interp.decide(atom, st)
            except Exception:
                got = None
            st.facts[atom] = pol
            if got is not None and got is not pol:
                return None
        return st

    def compare_paths(self, interp, want, got, top=False):
        """None, or ('violation' | 'undecided', where, message)"""
        undecided = None
        reached = set()
        for q in got:
            matched = False
            for i, p in enumerate(want):
                st = self.compatible(interp, p, q)
                if st is None:
                    continue
                matched = True
                reached.add(i)
                problem = self.compare_pair(interp, st, p, q)
                if problem is not None:
                    if problem[0] == 'violation':
                        facts = dict(p.facts)
                        facts.update(q.facts)
                        when = ' and '.join(show_fact(f) for f in facts.items()) or 'always'
                        return ('violation', problem[1], f'{problem[2]} (on paths where: {when})')
                    undecided = undecided or problem
            if top and not matched and self.repeats(q):
                return ('violation', None, 'ends to repeat where it has to go on, when '
                        + ' and '.join(show_fact(f) for f in q.facts.items())[:1000])
        for i, p in enumerate(want):
            if top and i not in reached and self.repeats(p) and not undecided:
                return ('violation', None, 'goes on to repeat where it has to end, when '
                        + ' and '.join(show_fact(f) for f in p.facts.items())[:1000])
        return undecided

    @staticmethod
    def repeats(path):
        return any(e.kind == 'loop' and e.recv == ('while', 'loop') for e in path.events)

    def compare_pair(self, interp, st, p, q):
        if self.exceptions or p.outcome == q.outcome:
            if p.outcome != q.outcome:
                if p.outcome == 'raise':
                    return self.verdict(q, None, f'{p.value} has to be raised, but the function returns')
                return self.verdict(q, None, f'raises {q.value}, but has to return')
        problem = self.compare_events(interp, st, self.kept(p.events), self.kept(q.events))
        if problem is not None:
            return problem
        if p.outcome == q.outcome == 'raise':
            if self.exceptions and not self.kind_of(q.value, p.value):
                return self.verdict(q, None, f'raises {q.value} instead of {p.value}')
            return None
        if self.returns and p.outcome == 'return' and q.outcome == 'return' and not self.same(st, p.value, q.value):
            if (unknown(q.value) or unknown(p.value)) and not certain_difference(
                    self.under(st, q.value), self.under(st, p.value)):
                a, b = difference(self.under(st, q.value), self.under(st, p.value))
                return ('undecided', None, f'value {show(a)[-700:]} is not understood (instead of {show(b)[-700:]})')
            a, b = difference(self.under(st, q.value), self.under(st, p.value))
            return ('violation', None, f'the result is {show(q.value)[:1500]} instead of {show(p.value)[:1500]}'
                    + (f' (difference: {show(a)[:300]} instead of {show(b)[:300]})' if a != q.value else ''))
        if self.other_development:
            # everything else agrees: the variable is used in the same way
            parts = [x.value if x.outcome != 'raise' else None for x in (p, q)]
            for lv, (a, b) in self.other_development.items():
                if all(x is not None and mentions(x, lv) or any(mentions(e.recv, lv) or mentions(e.args, lv)
                                                                for e in y.all_events())
                       for x, y in zip(parts, (p, q))):
                    a, b = difference(a, b)
                    return ('violation', None, f'what starts as {show(lv[1])[:200]} goes on differently in each round '
                                               f'({show_any(a)[:400]} instead of {show_any(b)[:400]})')
        return None

    def kind_of(self, name, wanted):
        """whether handlers of an exception handle another as well (Exception: not known which)"""
        if name == wanted or not isinstance(name, str) or not isinstance(wanted, str) or 'Exception' in (name, wanted):
            return True
        if name in self.prog.classes:
            return wanted in self.prog.mro(name) or any(
                b.split('.')[-1] != 'Exception' and self.kind_of(b.split('.')[-1], wanted)
                for b in self.prog.external_bases(name))
        a, b = getattr(builtins, name, None), getattr(builtins, wanted, None)
        if not isinstance(a, type) or not isinstance(b, type):
            return b is None and a is None and wanted not in self.prog.classes
        return issubclass(a, b)

    def same(self, st, a, b):
        if a == b:
            return True
        return self.under(st, a) == self.under(st, b)

    def under(self, st, v):
        """value with the conditions which are known on the path replaced"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'b':
            got = st.facts.get(v[1])
            if got is not None:
                return C(got == v[2])
            if v[1][0] == 'in' and v[1][2][0] in ('L', 'T', 'S') and all(e[0] == 'c' for e in v[1][2][1]):
                # it is known which of the constants it is, or that it is none of them
                one = [st.facts.get(('eq', *key_sort(v[1][1], e))) for e in v[1][2][1]]
                if True in one or one and all(x is False for x in one):
                    return C((True in one) == v[2])
                left = [e for e, x in zip(v[1][2][1], one) if x is None]
                if len(left) == 1:
                    return self.under(st, ('b', ('eq', *key_sort(v[1][1], left[0])), v[2]))
        if v[0] == 'c':
            return v
        if v[0] in MAKE and any(e[0] in ('star', 'each') for e in v[1]):
            # entries which come from what is known to be empty
            if v[0] == 'L' and len(v[1]) == 1 and v[1][0][0] == 'star' and v[1][0][1][0] == 'call' \
                    and v[1][0][1][1] in LISTING:
                return self.under(st, v[1][0][1])     # a copy of a list which nothing else has
            v = MAKE[v[0]](tuple(e for e in v[1] if e[0] not in ('star', 'each') or not (
                st.facts.get(('truthy', e[1])) is False or st.facts.get(('isnone', e[1])))))
            if v[0] in MAKE and any(e[0] == 'each' and e[2] for e in v[1]):
                entries = []
                for e in v[1]:
                    if e[0] == 'each' and e[2]:
                        conds = [(self.known_for_all(st, a, e[1]), a, pol) for a, pol in e[2]]
                        if any(got is not None and got is not pol for got, a, pol in conds):
                            continue
                        e = (*e[:2], tuple((a, pol) for got, a, pol in conds if got is None), *e[3:])
                    entries.append(e)
                if tuple(entries) != v[1]:
                    v = MAKE[v[0]](tuple(entries))
        for (k, *rest), pol in st.facts.items():
            if k == 'isnone' and pol and rest[0] == v:
                return NONE
            if k == 'eq' and pol and rest[0][0] == 'c' and rest[1] == v:
                return rest[0]
            if k == 'eq' and pol and rest[1][0] == 'c' and rest[0] == v:
                return rest[1]
        return tuple(self.under(st, x) if isinstance(x, tuple) else x for x in v)

    @staticmethod
    def known_for_all(st, atom, it):
        """whether a condition is true or false for all entries of what is iterated over (None: not known)"""
        if atom[0] == 'in' and st.facts.get(('truthy', atom[2])) is False:
            return False
        if contains(atom, lambda x: len(x) > 1 and x[0] in ('el', 'key', 'val', 'idx') and x[1] == it):
            return None
        return st.facts.get(atom)

    def verdict(self, q, where, message):
        if any(unknown(x) for f in q.facts for x in f if isinstance(x, tuple)):
            return ('undecided', where, message)
        return ('violation', where, message)

    def ev_key(self, st, e):
        return (e.kind, self.under(st, e.name) if isinstance(e.name, tuple) else e.name,
                self.under(st, e.recv) if e.recv is not None else None,
                tuple((n, self.under(st, v)) for n, v in e.args))

    def compare_events(self, interp, st, want, got):
        problem = self.compare_carried(st, [e for e in want if e.kind == 'carry'],
                                       [e for e in got if e.kind == 'carry'])
        if problem is not None:
            return problem
        def happens(e):
            # (a loop over what is known to be empty does nothing)
            return e.kind != 'carry' and not (e.kind == 'loop' and st.facts.get(('truthy', e.recv)) is False)
        want, got = [e for e in want if happens(e)], [e for e in got if happens(e)]
        plain_w = [e for e in want if e.kind != 'loop']
        plain_g = [e for e in got if e.kind != 'loop']
        kw, kg = [self.ev_key(st, e) for e in plain_w], [self.ev_key(st, e) for e in plain_g]
        missing = Counter(kw) - Counter(kg)
        extra = Counter(kg) - Counter(kw)
        if missing or extra:
            miss = [e for e, k in zip(plain_w, kw) if k in missing]
            ext = [e for e, k in zip(plain_g, kg) if k in extra]
            cut = [e for e in miss + ext if e.kind == 'call' and e.name in self.cut]
            if cut:
                return ('undecided', cut[0].loc, f'recursion through {cut[0].name}')
            odd = any(unknown(k) for k in extra) or any(unknown(k) for k in missing) and not self.strict
            if odd and len(miss) == len(ext) == 1:
                a, b = self.ev_key(st, ext[0]), self.ev_key(st, miss[0])
                odd = a[:2] != b[:2] or not certain_difference(a, b)
            odd = odd or self.unresolved_call(miss, ext)
            if odd and not miss:
                # whatever it is given, the reference has no such effect at all
                names = {effect_name(e) for e in plain_w}
                ext = [e for e in ext if effect_name(e) is not None and effect_name(e) not in names] or ext
                odd = effect_name(ext[0]) is None or effect_name(ext[0]) in names
            if odd and miss and not self.unresolved_call(miss, ext):
                # whatever else is done, what has to be done is not done with anything
                names = effect_names(got)
                lost = [] if None in names else [
                    e for e in miss if effect_name(e) not in (None, *names) and not unknown(self.ev_key(st, e))]
                if lost:
                    return ('violation', None, f'does not {lost[0].show()}')
            if odd:
                return ('undecided', (ext or miss)[0].loc, f'effect {(ext or miss)[0].show()[:300]} is not understood')
            loops = [e for e in got if e.kind == 'loop' and any(unknown(e.recv) for _ in (1,))]
            if miss and loops:
                return ('undecided', None, 'the effects of a loop are not understood')
            text = []
            if miss:
                text.append('does not ' + '; '.join(e.show() for e in miss[:3]))
            if ext:
                text.append(('instead ' if miss else '') + 'does ' + '; '.join(e.show() for e in ext[:3])
                            + ('' if miss else ', which it must not'))
            return ('violation', ext[0].loc if ext else None, ', '.join(text))
        # loops
        partner = {}
        loops_w = [e for e in want if e.kind == 'loop']
        loops_g = [e for e in got if e.kind == 'loop']
        rest = list(loops_g)
        for lw in loops_w:
            best = None
            for lg in rest:
                if self.under(st, lw.recv) == self.under(st, lg.recv):
                    problem = self.compare_bodies(interp, st, lw, lg)
                    if problem is None:
                        best = lg
                        break
                    best_problem = problem
                    best = best or ('bad', problem)
            if isinstance(best, tuple):
                return best[1]
            if best is None:
                if rest:
                    odd = [e for e in rest if unknown(e.recv)]
                    if odd:
                        return ('undecided', odd[0].loc, f'loop over {show(odd[0].recv)} is not understood')
                    return ('violation', rest[0].loc, f'acts on each of {show(rest[0].recv)} instead of each of '
                                                      f'{show(lw.recv)}')
                return ('violation', None, f'does not {lw.show()}')
            rest.remove(best)
            partner[id(best)] = lw
        if rest:
            if unknown(rest[0].recv):
                return ('undecided', rest[0].loc, f'loop over {show(rest[0].recv)} is not understood')
            return ('violation', rest[0].loc, f'does {rest[0].show()}, which it must not')
        if self.order:
            return self.compare_order(st, want, got, partner)
        return None

    def compare_carried(self, st, want, got):
        """what the rounds of a loop hand on"""
        a, b = ({self.under(st, e.recv): self.under(st, e.args[0][1]) for e in events} for events in (want, got))
        for start in a:
            if start in b and not self.same(st, a[start], b[start]):
                odd = any(contains(v, lambda x: x[0] in UNKNOWN_KINDS - {'lv'}) for v in (a[start], b[start]))
                message = f'goes on with {show(b[start])[:500]} instead of {show(a[start])[:500]}'
                if len(a) == len(want) and len(b) == len(got):
                    return ('undecided' if odd else 'violation', got[0].loc, message)
        if set(a) != set(b):
            return ('undecided', (got or want)[0].loc, 'what the rounds of a loop hand on is not understood')
        return None

    def compare_order(self, st, want, got, partner):
        """effects which depend on each other have to come in the same order"""
        def keys(events, of):
            return [('loop', id(of(e))) if e.kind == 'loop' else self.ev_key(st, e) for e in events]
        kw, kg = keys(want, lambda e: e), keys(got, lambda e: partner[id(e)])
        if kw == kg:
            return None
        example = {}
        for k, e in zip(kw + kg, list(want) + list(got)):
            example.setdefault(k, e)
        distinct = list(example)
        for i, a in enumerate(distinct):
            for b in distinct[i + 1:]:
                sw = [k for k in kw if k == a or k == b]
                sg = [k for k in kg if k == a or k == b]
                if sw != sg and self.dependent(example[a], example[b]):
                    n = next(n for n, (x, y) in enumerate(zip(sw, sg)) if x != y)
                    first, second = example[sw[n]], example[sg[n]]
                    return ('violation', second.loc,
                            f'does {second.show()} before {first.show()}, which has to come first')
        return None

    def dependent(self, a, b):
        """whether it matters in which order two effects happen"""
        for e, f in ((a, b), (b, a)):
            if e.kind == 'loop':
                return any(self.dependent(x, f) for facts, evs, o in e.bodies for x in evs)
        for e, f in ((a, b), (b, a)):
            if e.kind not in ('set', 'mut', 'gset'):
                continue
            if f.kind in ('set', 'gset'):
                # the values are those at the time of the effect, so only the places matter
                if e.kind == f.kind == 'set' and e.recv != f.recv and (mentions(e.recv, f.recv) or mentions(f.recv, e.recv)):
                    return False
                return e.name == f.name if e.kind == f.kind else e.kind == 'mut' and mentions(e.recv, f.name)
            if f.kind == 'mut':
                if e.kind == 'mut':
                    return e.recv == f.recv
                return mentions(f.recv, e.name)
            # an object which is being initialised is known nowhere else
            if e.kind == 'set' and self.constructor and e.recv == self.constructor and not mentions(
                    (f.name, f.recv, f.args), self.constructor):
                return False
        return True

    def unresolved_call(self, miss, ext):
        """one side calls a method of an object whose class the analysis does not know"""
        def short(e):
            return e.name.replace(':setter', '').rsplit('.', 1)[-1]
        plain = [e for e in miss + ext if e.kind in ('call', 'set') and isinstance(e.name, str)]
        for a in plain:
            if a.recv is not None and '.' not in a.name and any(
                    b is not a and '.' in b.name and short(b) == a.name and b.recv == a.recv for b in plain):
                return True
        return False

    def loop_in(self, e, group):
        return any(group(x) if x.kind != 'loop' else self.loop_in(x, group) for f, evs, o in e.bodies for x in evs)

    def compare_bodies(self, interp, st, lw, lg):
        if lw.partial != lg.partial:
            return ('violation', lg.loc, f'the loop over {show(lg.recv)} ends early' if lg.partial else
                    f'the loop over {show(lw.recv)} does not end when it has to')
        undecided = None
        # what is known after the loop says nothing about the same thing in one of its rounds
        known = {f: v for f, v in st.facts.items() if not contains(
            f, lambda x: len(x) > 1 and (x[0] == 'lv' and x[-1] == lw.recv or x[0] in ('el', 'key', 'val', 'idx')
                                         and x[1] == lw.recv))}
        for gfacts, gevs, gout in lg.bodies:
            for wfacts, wevs, wout in lw.bodies:
                s = State()
                s.types, s.facts = dict(st.types), dict(known)
                s = self.extend(interp, s, wfacts)
                if s is None:
                    continue
                s = self.extend(interp, s, gfacts)
                if s is None:
                    continue
                problem = self.compare_events(interp, s, list(wevs), list(gevs))
                if problem is not None:
                    if problem[0] == 'violation':
                        facts = dict(wfacts)
                        facts.update(dict(gfacts))
                        when = ' and '.join(show_fact(f) for f in facts.items())
                        return ('violation', problem[1] or lg.loc, f'for each of {show(lg.recv)}'
                                + (f' where {when}' if when else '') + f': {problem[2]}')
                    undecided = problem
        return undecided


MAKE = {'D': mk_dict, 'L': mk_list, 'S': mk_set, 'T': mk_tuple}


def without_entries(facts, empty):
    """conditions in which containers have no entries from what is empty; None if they contradict each other"""
    def nothing(e):
        return e[0] in ('star', 'each') and e[1] in empty

    if not any(contains(a, lambda x: x[0] in MAKE and any(nothing(e) for e in x[1])) for a in facts):
        return facts

    def drop(v):
        if not isinstance(v, tuple) or not v or v[0] == 'c':
            return v
        if v[0] in MAKE and any(nothing(e) for e in v[1]):
            v = MAKE[v[0]](tuple(e for e in v[1] if not nothing(e)))
        return tuple(drop(x) if isinstance(x, tuple) else x for x in v)
    out = {}
    for atom, pol in facts.items():
        if out.setdefault(drop(atom), pol) is not pol:
            return None
    return out


def show_any(v):
    try:
        return show(v)
    except Exception:
        return repr(v)


def mentions(term, x):
    """whether a value contains a part (a value or the name of an attribute)"""
    if term == x:
        return True
    return isinstance(term, tuple) and any(mentions(y, x) for y in term)


def differences(a, b, within=None):
    """the innermost parts in which two values of the same shape differ"""
    if a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and isinstance(a[0], tuple) == \
            isinstance(b[0], tuple) and (isinstance(a[0], tuple) or a[0] == b[0]) and a[0] != 'c':
        return [d for x, y in zip(a, b) for d in differences(x, y, a[0])]
    if isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(x, tuple) for x in a + b):
        if len(a) != len(b):
            long, short = (a, b) if len(a) > len(b) else (b, a)
            rest = iter(long)
            if all(any(x == y for y in rest) for x in short):
                left = Counter(long) - Counter(short)
                if within in ('L', 'T', 'D') or not any(unknown(x) and not (within == 'cat' and x[0] == 'lv') for x in left):
                    return [(('c', 'str', 'less'), ('c', 'str', 'more'))]
    return [(a, b)]


CERTAIN = {'c': 'constant', 'L': 'list', 'T': 'tuple', 'D': 'dict', 'cat': 'str', 'k': 'class'}


def certain_difference(a, b):
    """
    whether two values differ only in parts which are understood: what is not understood (the values variables have in
    some round of a loop) is the same in both
    """
    def certain(x, y):
        if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] in CERTAIN and y[0] in CERTAIN \
                and CERTAIN[x[0]] != CERTAIN[y[0]] and not (x[0] == 'c' and x[1] == 'str' and y[0] == 'cat'):
            return True
        return not any(isinstance(v, tuple) and unknown(v) for v in (x, y))
    def built_up(x, y):
        """one is made of all entries so far, and the other of the present one"""
        def heads(v):
            return {t[1] for t in subterms(v) if t[0] == 'call'}

        def is_plain(v):
            return not unknown(v) and not contains(v, lambda t: t[0] in ('idx', 'sl', 'nest', 'zip'))
        for one, other in ((x, y), (y, x)):
            if isinstance(one, tuple) and isinstance(other, tuple) and is_plain(other):
                kinds = [t for t in subterms(one) if t[0] in UNKNOWN_KINDS and t not in KNOWN_VARIABLES]
                if kinds and all(t in ACCUMULATING for t in kinds) and heads(other) <= heads(one):
                    return True
        return False
    def of_last(x, y):
        """one is about the last entry only, and the other about each of them"""
        for one, other in ((x, y), (y, x)):
            if isinstance(one, tuple) and isinstance(other, tuple) and not unknown(other):
                kinds = [t for t in subterms(one) if t[0] in UNKNOWN_KINDS and t not in KNOWN_VARIABLES]
                if kinds and all(t[0] == 'last' for t in kinds) and all(contains(
                        other, lambda v: v[0] in ('each', 'nest') and v[1] == t[1]) for t in kinds):
                    return True
        return False
    found = differences(a, b)
    return of_last(a, b) or bool(found) and all(certain(x, y) or built_up(x, y) for x, y in found)


def subterms(v):
    if isinstance(v, tuple) and v:
        if isinstance(v[0], str):
            yield v
        for x in v:
            if isinstance(x, tuple):
                yield from subterms(x)


def accumulates(lv, development):
    """whether each round of a loop makes a new value of a variable from its old one and the present entry"""
    if len(development) != 1:
        return False
    value, facts = development[0]
    return facts in ((), ((),)) and contains(value, lambda t: t == lv) and contains(
        value, lambda t: t[0] == 'el' and t[1] == lv[2])


def difference(a, b):
    """the innermost parts in which two values differ"""
    while isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        diff = [(x, y) for x, y in zip(a, b) if x != y]
        if len(diff) != 1 or not isinstance(diff[0][0], tuple) or not isinstance(diff[0][1], tuple):
            break
        a, b = diff[0]
    return a, b
