"""State of the dataflow analysis: environment, heap of locally created objects, condition facts, effect events"""
from .values import *


class Undecided(Exception):
    """The analysed code uses a form for which this analysis has no transfer function, or it exceeds a bound"""


class HObj:
    __slots__ = ('cls', 'entries', 'attrs')

    def __init__(self, cls, entries=(), attrs=None):
        self.cls = cls            # 'dict', 'list', 'set' or qualified name of a class of the package
        self.entries = entries    # container entries
        self.attrs = attrs or {}

    def add(self, *entries):
        return HObj(self.cls, self.entries + tuple(entries), self.attrs)

    def with_entries(self, entries):
        return HObj(self.cls, tuple(entries), self.attrs)

    def with_attr(self, name, value):
        attrs = dict(self.attrs)
        attrs[name] = value
        return HObj(self.cls, self.entries, attrs)

    def same(self, other):
        return self.cls == other.cls and self.entries == other.entries and self.attrs == other.attrs


class Ev:
    """One effect: kind is call, hook, set, mut, loop, yield, gset, delattr, raise"""
    __slots__ = ('kind', 'name', 'recv', 'args', 'loc', 'bodies', 'partial', 'result')

    def __init__(self, kind, name, recv=None, args=(), loc='', bodies=(), partial=False, result=None):
        self.kind, self.name, self.recv, self.args = kind, name, recv, args
        self.loc, self.bodies, self.partial, self.result = loc, bodies, partial, result

    def arg(self, name, default=None):
        for n, v in self.args:
            if n == name:
                return v
        return default

    def key(self):
        if self.kind == 'loop':
            return ('loop', self.recv, self.partial,
                    tuple(sorted(((facts, tuple(e.key() for e in evs), outcome)
                                  for facts, evs, outcome in self.bodies), key=repr)))
        return (self.kind, self.name, self.recv, self.args)

    def show(self):
        if self.kind == 'loop':
            inner = ' | '.join('; '.join(e.show() for e in evs) + (f' -> {out}' if out != 'next' else '')
                               for facts, evs, out in self.bodies if evs or out != 'next')
            return f'for each of {show(self.recv)}: <{inner}>'
        args = ', '.join((f'{n}=' if n and not n.isdigit() else '') + show(v) for n, v in self.args
                         if v != NONE or self.kind != 'call')
        name = self.name if isinstance(self.name, str) else show(self.name)
        recv = show(self.recv) + ' ' if self.recv is not None else ''
        short = short_name(name)
        return f'{self.kind} {recv}{short}({args})'

    __repr__ = show


class State:
    __slots__ = ('env', 'heap', 'ov', 'facts', 'types', 'ev', 'cnt')

    def __init__(self):
        self.env, self.heap, self.ov, self.facts, self.types, self.cnt = {}, {}, {}, {}, {}, {}
        self.ev = []

    def fork(self):
        s = State()
        s.env, s.heap, s.ov = dict(self.env), dict(self.heap), dict(self.ov)
        s.facts, s.types, s.cnt = dict(self.facts), dict(self.types), dict(self.cnt)
        s.ev = list(self.ev)
        return s

    def freeze(self, v, seen=()):
        """replaces references to local objects by the structure of their current content"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'o':
            if v[1] in seen:
                return ('u', 'cycle')
            obj = self.heap[v[1]]
            seen = seen + (v[1],)
            entries = tuple(self.freeze(e, seen) for e in obj.entries)
            if obj.cls == 'dict':
                if not entries and '#default' in obj.attrs:
                    return ('call', 'collections.defaultdict', (), (('0', obj.attrs.get('#made', ('u', 'default'))),))
                return mk_dict(entries)
            if obj.cls == 'list':
                return mk_list(entries)
            if obj.cls == 'set':
                return mk_set(entries)
            attrs = tuple(sorted((n, self.freeze(x, seen)) for n, x in obj.attrs.items()))
            if entries:
                attrs = (('*', mk_dict(entries)),) + attrs
            return ('inst', obj.cls, attrs)
        if v[0] == 'c':
            return v
        changed = False
        out = []
        for x in v:
            if isinstance(x, tuple):
                y = self.freeze(x, seen)
                changed = changed or y is not x
                out.append(y)
            else:
                out.append(x)
        if not changed:
            return v
        new = tuple(out)
        if new[0] == 'D':
            return mk_dict(new[1])
        if new[0] == 'L':
            return mk_list(new[1])
        if new[0] == 'T':
            return mk_tuple(new[1])
        return new
