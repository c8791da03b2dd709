"""
Abstract interpreter: forward, path-sensitive dataflow over the resolved syntax tree of the package, with calls
between functions of the package followed (unless a rule declares them atomic), loops summarised by one generic
iteration, and conditions tracked as facts over value numbers. There is no solver and nothing is executed.
"""
import ast
import time

from .facts import FactsMixin, strip_opt
from .model import all_args, walk_same_scope
from .state import *
from .values import *
from .expr import ExprMixin
from .calls import CallsMixin
from .stmts import StmtsMixin


class Raised:
    """an exception leaving an expression or statement"""
    __slots__ = ('name', 'value', 'origin')

    def __init__(self, name, value=None, origin=''):
        self.name, self.value, self.origin = name, value, origin

    def __repr__(self):
        return f'Raised({self.name})'


class Frame:
    """static information about the function which is being interpreted"""
    __slots__ = ('info', 'module', 'cls', 'depth', 'local_imports', 'qual', 'selfval', 'globals', 'yield_k')

    def __init__(self, info, module, cls, depth, qual, selfval=None):
        self.info, self.module, self.cls, self.depth, self.qual = info, module, cls, depth, qual
        self.selfval = selfval
        self.local_imports = {}
        self.globals = set()
        self.yield_k = None


class Path:
    """one abstract path through an entry point"""

    def __init__(self, st, outcome, value):
        self.facts = dict(st.facts)
        self.events = merge_events([settle(st, e) for e in st.ev])
        self.outcome = outcome          # 'return' or 'raise'
        self.value = value              # returned value (frozen) or name of exception class
        self.types = st.types
        self.state = st
        made = [k[1] for k, n in st.cnt.items() if k[0] == 'made' and n > 1]
        if made:
            self.number_made(made)

    def number_made(self, made):
        """objects which are made in the same way are numbered in the order of their use, not of their creation"""
        order = {}
        walk = lambda v: note_made(v, made, order)
        walk(self.value)
        for e in flat_events(self.events):
            walk(e.recv)
            walk(e.args)
        mapping = {}
        for base in made:
            used = [v for v in order if v[:4] == base]
            for i, v in enumerate(used):
                mapping[v] = base + (i,) if i else base
        if any(k != v for k, v in mapping.items()):
            swap = lambda v: replace_values(v, mapping)
            self.value = swap(self.value)
            self.facts = {swap(k): v for k, v in self.facts.items()}
            self.events = [replace_in_event(e, swap) for e in self.events]

    def all_events(self, kinds=None, into_loops=True):
        yield from flat_events(self.events, kinds, into_loops)

    def __repr__(self):
        facts = ' and '.join(show_fact(f) for f in self.facts.items()) or 'always'
        evs = '\n      '.join(e.show() for e in self.events)
        out = f'{self.outcome} {show(self.value) if isinstance(self.value, tuple) else self.value}'
        return f'  when {facts}:\n      {evs}\n    -> {out}'


def note_made(v, made, order):
    if isinstance(v, tuple):
        if v and v[0] == 'call' and v[:4] in made:
            order.setdefault(v, len(order))
        for x in v:
            note_made(x, made, order)


def replace_values(v, mapping):
    if not isinstance(v, tuple):
        return v
    if v in mapping:
        return mapping[v]
    return tuple(replace_values(x, mapping) for x in v)


def replace_in_event(e, swap):
    bodies = tuple((tuple((swap(k), pol) for k, pol in facts), tuple(replace_in_event(x, swap) for x in evs), out)
                   for facts, evs, out in e.bodies)
    return Ev(e.kind, e.name, swap(e.recv), swap(e.args), e.loc, bodies, e.partial, swap(e.result))


def settle(st, ev):
    """event with the final content of objects which were stored"""
    if ev.kind in ('set', 'gset') and any(contains(v, lambda x: x[0] == 'o') for n, v in ev.args):
        return Ev(ev.kind, ev.name, ev.recv, tuple((n, st.freeze(v)) for n, v in ev.args), ev.loc)
    return ev


def merge_events(events):
    """adjacent additions to the same container are one"""
    out = []
    make = {'dset': mk_dict, 'lext': mk_list, 'sadd': mk_set}
    for e in events:
        if e.kind == 'mut' and e.name in make and out and out[-1].kind == 'mut' and out[-1].name == e.name \
                and out[-1].recv == e.recv:
            prev = out[-1]
            entries = make[e.name](prev.args[0][1][1] + e.args[0][1][1])
            out[-1] = Ev('mut', e.name, e.recv, (('entries', entries),), prev.loc)
        else:
            out.append(e)
    return out


def flat_events(events, kinds=None, into_loops=True):
    for e in events:
        if e.kind == 'loop':
            if kinds is None or 'loop' in kinds:
                yield e
            if into_loops:
                for facts, evs, out in e.bodies:
                    yield from flat_events(evs, kinds, into_loops)
        elif kinds is None or e.kind in kinds:
            yield e


class Interp(FactsMixin, ExprMixin, CallsMixin, StmtsMixin):
    MAX_PATHS = 600
    MAX_FORKS = 4000
    MAX_DEPTH = 14
    MERGED = {}             # functions for which a dictionary and keywords are the same: name of the dictionary

    def __init__(self, prog, atoms=(), pure_atoms=(), exc_mode=False, keep_log=False, inline_only=None,
                 inline_classes=(), pure_constructors=True):
        self.prog = prog
        # declared types are taken at their word, and keys written differently are different
        self.lenient = False
        self.hints = {}                     # types of values which the other side knows
        self.known = {}                     # types known from annotations and from how values are used
        self.spreads = None                 # dictionaries passed as keywords, where they are asked for
        self.developments = {}              # of variables of loops: how each round changes them
        self.atoms = set(atoms)             # package functions / classes which are effects, not followed
        self.pure_atoms = set(pure_atoms)   # the same, but known to have no effect of interest
        self.exc_mode = exc_mode            # every effectful call may raise
        self.keep_log = keep_log
        self.inline_only = inline_only
        self.forks = 0
        self.next_id = 0
        self.no_follow = set()
        self.redirect = {}                  # functions of the package -> reference definitions to follow instead
        self.handlers = []                  # dynamic stack of (frame depth, handler names)
        self.stack = []                     # quals being interpreted
        self.visited = set()                # functions which were followed
        self.call_sites = 0
        self.closures = {}
        self.cms = {}                       # values of context manager functions -> how they were called
        self.inline_classes = set(inline_classes)
        self.pure_constructors = pure_constructors
        self.rename = {}                    # reference definitions which stand for functions of the package
        self.cut = set()
        self.met = set()                # operations which were called and not followed                    # functions which were not followed because of recursion or depth

    deadline = None

    def check_budget(self):
        if self.deadline is not None and time.process_time() > self.deadline:
            raise Undecided('the analysis takes too long')

    def count_fork(self):
        self.check_budget()
        self.forks += 1
        if self.forks > self.MAX_FORKS:
            raise Undecided('too many paths')

    def alloc(self, st, obj):
        self.next_id += 1
        st.heap[self.next_id] = obj
        return ('o', self.next_id)

    # ---- entry points

    def run(self, qual, self_cls=None, bind=None, types=None, facts=None, names=None):
        info = self.prog.need_func(qual)
        return self.run_info(info, self_cls=self_cls, bind=bind, types=types, facts=facts, names=names)

    def run_info(self, info, self_cls=None, bind=None, types=None, facts=None, names=None):
        """
        names: names of the symbols which stand for the parameters, by position, so that two functions are compared
        by what they do with the n-th parameter
        """
        st = State()
        st.types.update(types or {})
        a = info.node.args
        local = self.prog.local_imports(info)
        env = {}
        params = list(a.posonlyargs) + list(a.args)
        defaults = [None] * (len(params) - len(a.defaults)) + list(a.defaults)
        kwdefaults = list(a.kw_defaults)
        selfval = None
        for i, (arg, default) in enumerate(list(zip(params, defaults)) + list(zip(a.kwonlyargs, kwdefaults))):
            name = arg.arg
            if names is not None and i < len(params) and i < len(names):
                name = names[i]
            v = sym(name)
            if i == 0 and info.cls is not None and info.kind not in ('staticmethod',):
                if info.kind == 'classmethod':
                    v = ('k', self_cls or info.cls.qual)
                else:
                    v = sym('self')
                    st.types[v] = ('cls', self_cls or info.cls.qual)
                selfval = v
            else:
                t = self.prog.parse_type(info.module, arg.annotation, local)
                if t is not None and v not in st.types:
                    if isinstance(default, ast.Constant) and default.value is None and t[0] != 'opt':
                        t = ('opt', t)
                    st.types[v] = t
            env[arg.arg] = v
        if a.vararg:
            env[a.vararg.arg] = sym('*args')
            st.types[env[a.vararg.arg]] = ('tuple', None)
        if a.kwarg:
            env[a.kwarg.arg] = sym('**kwargs')
            st.types[env[a.kwarg.arg]] = ('dict', None, None)
        env.update(bind or {})
        st.env = env
        for atom, pol in (facts or {}).items():
            self.assume(atom, pol, st)
        fr = Frame(info, info.module, info.cls, 0, info.qual, selfval)
        self.stack.append(info.qual)
        self.visited.add(info.qual)
        try:
            outs = self.exec_block(info.node.body, st, fr)
        finally:
            self.stack.pop()
        paths = []
        for s, out in outs:
            if out[0] == 'return':
                paths.append(Path(s, 'return', self.with_known_truth(s.freeze(out[1]), s)))
            elif out[0] == 'raise':
                paths.append(Path(s, 'raise', out[1].name))
            else:
                paths.append(Path(s, 'return', NONE))
        if len(paths) > self.MAX_PATHS:
            raise Undecided(f'{len(paths)} paths')
        return dedupe_paths(paths)

    def with_known_truth(self, v, st):
        """the result, with bools whose truth the path determines as constants"""
        if self.lenient and v[0] == 'T' and len(v[1]) > 1 and all(
                e[0] == 'i' and e[1] == v[1][0][1] and e[2] == C(i) for i, e in enumerate(v[1])):
            # a call unpacked into as many variables as there are
            return v[1][0][1]
        if v[0] == 'T':
            return ('T', tuple(self.with_known_truth(e, st) if e[0] in ('call', 'a', 'i') else e for e in v[1]))
        if v[0] in ('call', 'a', 'i') and self.typeof(v, st) == ('b', 'bool'):
            truth = self.decide(('truthy', v), st)
            if truth is not None:
                return C(truth)
        return v

    def loc(self, fr, node):
        return f'{fr.module.relpath}:{getattr(node, "lineno", 0)}'

    # ---- exceptions

    def handler_names(self, generic_frame_depth=None):
        """exception names which enclosing try statements would catch"""
        return list(self.handlers)

    def may_raise(self, st, value, fr, specific, effectful):
        """
        [(state, Raised or None)]: forks a path per kind of exception which an enclosing handler looks for.
        specific maps names of exceptions this operation is known to raise to the atom (with polarity) which
        says so; effectful operations may raise anything
        """
        out = []
        done = set()
        for depth, name in self.handler_names():
            if name in done:
                continue
            generic = name in ('Exception', 'BaseException')
            if name in ('KeyError', 'IndexError') and name not in specific and value[0] == 'call' and isinstance(value[1], str) \
                    and self.prog.finds_nothing_missing(value[1]):
                continue
            if name in specific:
                atom, pol = specific[name]
            elif generic and specific is not None and not (
                    specific.get('never')):
                atom, pol = ('raises', value, name), True
            elif effectful and not generic:
                atom, pol = ('raises', value, name), True
            else:
                continue
            done.add(name)
            nxt = None
            for s, truth in self.branch(atom, st):
                if truth == pol:
                    out.append((s, Raised(name, origin=show(value))))
                else:
                    nxt = s
            if nxt is None:
                return out
            st = nxt
        if self.exc_mode and effectful:
            for name in ('Exception', 'KeyboardInterrupt'):
                if name in done:
                    continue
                atom = ('raises', value, name)
                nxt = None
                for s, truth in self.branch(atom, st):
                    if truth:
                        out.append((s, Raised(name, origin=show(value))))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                st = nxt
        out.append((st, None))
        return out


def dedupe_paths(paths):
    seen, out = set(), []
    for p in paths:
        key = (tuple(sorted(p.facts.items(), key=repr)), tuple(e.key() for e in p.events), p.outcome, p.value)
        if key not in seen:
            seen.add(key)
            out.append(p)
    return out
