"""Declaring obligations"""
import os

from analyzer.interp import Interp
from analyzer.conform import Conform, Result, Violation, spec_module
from analyzer.model import AnalysisBroken, Program
from analyzer.state import Undecided
from analyzer import facts

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(os.path.dirname(HERE), 'specs')

P = 'pyfileconf.'

# a view of an item is not itself a path
facts.EXCLUSIVE[P + 'selector.models.itemview.is_item_view'] = {P + 'sectionpath.sectionpath.SectionPath', 'str'}
CONFIG_MANAGER = P + 'config.models.manager.ConfigManager'
RUNNER = P + 'runner.models.runner.Runner'
PIPELINE_MANAGER = P + 'main.PipelineManager'
CONFIG_BASE = P + 'basemodels.config.ConfigBase'
SECTION_PATH = P + 'sectionpath.sectionpath.SectionPath'
CONTEXT = P + 'pmcontext.main.PyFileConfContext'
FRAME = P + 'pmcontext.stack.PyfileconfFrame'
STACK = P + 'pmcontext.stack.PyfileconfStack'
STACK_TRACKER = P + 'pmcontext.tracing.StackTracker'

# Functions which use a dictionary and their keywords as one (shown for each of them by an obligation of its own)
Interp.MERGED = {CONFIG_BASE + '.update': 'E', CONFIG_BASE + '.would_update': 'E', CONFIG_MANAGER + '.update': 'd_',
                 CONFIG_MANAGER + '.track_post_update': 'd', RUNNER + '.update': 'd_',
                 P + 'config.models.section.ConfigSection.update': 'd'}


def ev_name(e):
    """how rules refer to an effect: hook:<name>, set:<attribute>, mut, user (a callable of the user), loop,
    or the (last part of the) qualified name of what is called"""
    if e.kind == 'call':
        if isinstance(e.name, tuple):
            return 'user'
        return e.name
    if e.kind in ('hook', 'set', 'mut', 'gset', 'delattr'):
        return f'{e.kind}:{e.name if isinstance(e.name, str) else "?"}'
    return e.kind


def match(*patterns):
    """predicate on effects: names with a trailing * as prefix, or suffixes of qualified names"""
    exact = {p for p in patterns if not p.endswith('*')}
    prefixes = tuple(p[:-1] for p in patterns if p.endswith('*'))

    def predicate(e):
        name = ev_name(e)
        return name in exact or name.startswith(prefixes) if prefixes else name in exact or any(
            name.endswith('.' + x) for x in exact)

    def full(e):
        name = ev_name(e)
        return predicate(e) or any(name.endswith('.' + x) for x in exact)
    return full


class Specs:
    """lazily parsed reference definitions"""

    def __init__(self, prog):
        self.prog = prog
        self.loaded = {}

    def get(self, ref):
        name, func = ref.split(':')
        if name not in self.loaded:
            with open(os.path.join(SPECS, name + '.py')) as f:
                self.loaded[name] = spec_module(self.prog, f.read(), name)
        qual = f'pyfileconf_reference.{name}.{func}'
        if qual not in self.prog.funcs:
            raise AnalysisBroken(f'no reference definition {ref}')
        return self.prog.funcs[qual]


def conform(specs, rule, entry, ref, **kwargs):
    for k in ('atoms', 'pure'):
        kwargs[k] = set(kwargs.get(k, ()))
    return Conform(specs.prog, rule, entry, specs.get(ref), **kwargs).run()


class Pair:
    """a function of the package and the reference definition it is compared with"""

    def __init__(self, entry, ref, pure=False, follow=False, **options):
        self.follow = follow is True
        if follow and follow is not True:
            options['follow'] = follow     # only this obligation follows the calls of these
        self.entry, self.ref, self.pure, self.options = entry, ref, pure, options
        last = entry.split('.')[-1]
        self.public = not last.startswith('_') or last.endswith('__') or options.pop('public', False)
        options.pop('public', None)


class Group:
    """
    Obligations about functions which call each other. They are compared one by one, with the calls between them
    taken as agreed. A private function which does not agree by itself (it may have been given another contract) is
    followed in its callers instead, and only the public functions decide.
    """

    def __init__(self, rule, *pairs, modular=True, **defaults):
        self.modular = modular
        self.rule, self.pairs, self.defaults = rule, pairs, defaults

    def run(self, specs, only=None, project=None):
        """
        :param only: functions whose obligations are asked for (the others are compared as well, because a change of
            the contract between two of them is no violation)
        :param project: options of the comparison, by function or for all of them (None)
        """
        prog = specs.prog
        self.project = project or {}
        if only is not None:
            unknown = set(only) - {p.entry for p in self.pairs}
            if unknown:
                raise AnalysisBroken(f'no obligations for {unknown}')
            only = set(only)
        dissolved = {p.entry for p in self.pairs if not p.public and p.entry not in prog.funcs}
        first = {}
        while True:
            results = {}
            for p in self.pairs:
                if p.entry in dissolved:
                    continue
                results[p.entry] = self.one(specs, p, dissolved)
            for p in self.pairs:
                if p.entry in results:
                    first.setdefault(p.entry, results[p.entry])
            bad = {p.entry for p in self.pairs if not p.public and p.entry in results
                   and results[p.entry].violations and self.contract_changed(specs, p, dissolved)}
            if not bad or os.environ.get('GROUP_NO_DISSOLVE'):
                break
            dissolved |= bad
        total = Result()
        for p in self.pairs:
            if p.entry in results:
                r = results[p.entry]
                for v in r.violations:
                    v.entries = {p.entry}
                if only is None or p.entry in only:
                    total.add(r)
                else:
                    total.violations += r.violations
        if not total.violations:
            for e in dissolved:
                got = first.get(e)
                if got is None:
                    continue
                callers = [r for q, r in results.items() if r.undecided and not first[q].undecided]
                if callers or not self.absorbed(prog, e, results):
                    # the callers can not be decided with the function followed, or there are others
                    for v in got.violations:
                        v.entries = {e}
                    total.violations += got.violations
        elif dissolved:
            details = [v for e in dissolved if e in first for v in first[e].violations]
            for v in total.violations:
                v.related = details
                v.entries |= {e for e in dissolved if e in first and first[e].violations}
        if only is not None:
            total.violations = [v for v in total.violations if v.entries & only]
        return total

    @staticmethod
    def absorbed(prog, entry, results):
        """
        whether all functions which mention a private function were compared with it followed: each of them as such, or
        as a part of all functions which mention it in turn
        """
        visited = set()
        for r in results.values():
            visited |= r.functions
        if entry not in prog.funcs:
            return True
        seen = set()

        def covered(f):
            if f in results or f in seen:
                return True
            seen.add(f)
            if f not in visited:
                return False
            name = f.split('.')[-1].split(':')[0]
            by = prog.mentions(f.split('.')[-2] if name == '__init__' else name) - {f}
            return bool(by) and all(covered(g) for g in by)
        return covered(entry)

    def contract_changed(self, specs, p, dissolved):
        """a private function which only differs in what happens when something raises is no new contract"""
        if not p.options.get('exc_mode'):
            return True
        return bool(self.one(specs, p, dissolved, exc_mode=False).violations)

    def one(self, specs, p, dissolved, **more):
        opts = dict(self.defaults)
        opts.update(p.options)
        opts.update(self.project.get(None, {}))
        opts.update(self.project.get(p.entry, {}))
        opts.update(more)
        atoms, pure = set(opts.pop('atoms', ())), set(opts.pop('pure', ()))
        drop = set(opts.pop('follow', ()))
        rename, redirect = {}, {}
        for q in self.pairs:
            if q.entry in dissolved or q.entry in drop or q.follow or not self.modular:
                if q.entry != p.entry:
                    redirect[q.entry] = specs.get(q.ref).qual
                continue
            if q.entry != p.entry:
                (pure if q.pure else atoms).add(q.entry)
            module, func = q.ref.split(':')
            rename[func] = q.entry
            if q.entry != p.entry:
                (pure if q.pure else atoms).add(f'pyfileconf_reference.{module}.{func}')
        atoms -= drop | {p.entry}
        pure -= drop | {p.entry}
        also = opts.pop('also', ())
        result = None
        for ref in [p.ref, *(p.ref.split(':')[0] + ':' + name for name in also)]:
            # where a property leaves something open, there are several reference definitions
            got = Conform(specs.prog, self.rule, p.entry, specs.get(ref), atoms=atoms, pure=pure, rename=rename,
                          redirect=redirect, **opts).run()
            if result is None or not got.violations and not got.undecided:
                result = got
            if not result.violations:
                break
        return result
