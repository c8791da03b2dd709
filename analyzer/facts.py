"""Types of values and decisions on condition atoms"""
import builtins

from .state import Undecided
from .values import *

CONTAINER_TYPES = {'D': 'dict', 'L': 'list', 'T': 'tuple', 'S': 'set'}
NON_NONE_KINDS = {'D', 'L', 'T', 'S', 'cat', 'inst', 'f', 'k', 'lam', 'b', 'join', 'split', 'o', 'mod', 'exc', 'sl', 'pre', 'post',
                  'items', 'keys', 'vals', 'super', 'superm'}


# {function which recognises a kind of value: classes which such values are not instances of}
EXCLUSIVE = {}

# external values which are plain containers
EXTERNAL_TYPES = {'sys.modules': ('dict', ('b', 'str'), None)}


def alternatives_of(exists):
    """the sets of conditions any of which an element has to satisfy"""
    conds = exists[2]
    return [frozenset(a) for a in conds[1:]] if conds and conds[0] == 'or' else [frozenset(conds)]


class FactsMixin:

    def typeof(self, v, st):
        t = st.types.get(v)
        if t is not None:
            return t
        t = self.type_from_form(v, st)
        if t is None and v in self.hints:
            return self.hints[v]
        return t

    def type_from_form(self, v, st):
        k = v[0]
        if k == 'c':
            return ('b', v[1])
        if k == 'o':
            cls = st.heap[v[1]].cls
            if cls == 'dict':
                return ('dict', None, None)
            if cls in ('list', 'set'):
                return (cls, None)
            return ('cls', cls)
        if k in ('cat', 'join', 'pre', 'post'):
            return ('b', 'str')
        if k == 'split':
            return ('list', ('b', 'str'))
        if k == 'b':
            return ('b', 'bool')
        if k in CONTAINER_TYPES:
            name = CONTAINER_TYPES[k]
            if name == 'dict':
                return ('dict', None, None)
            if name in ('list', 'set') and v[1]:
                return (name, self.element_type(v[1], st))
            return (name, None)
        if k == 'inst':
            return ('cls', v[1])
        if k == 'a' and v[2] == '__dict__':
            return ('dict', ('b', 'str'), None)
        if k == 'a':
            base_t = self.typeof(v[1], st)
            base_t = strip_opt(base_t)
            if base_t and base_t[0] == 'cls':
                return self.prog.attr_type(base_t[1], v[2])
            return None
        if k == 'g':
            return self.prog.global_type(v[1], v[2])
        if k == 'x':
            return EXTERNAL_TYPES.get(v[1])
        if k in ('el', 'val', 'key'):
            t = strip_opt(self.typeof(v[1], st))
            if t is None:
                return None
            if k == 'el' and t[0] in ('list', 'iter', 'set'):
                return t[1]
            if k == 'el' and t == ('b', 'str'):
                return t
            if k == 'key' and t[0] == 'dict':
                return t[1]
            if k == 'val' and t[0] == 'dict':
                return t[2]
            return None
        if k == 'i':
            t = strip_opt(self.typeof(v[1], st))
            if t is None:
                return None
            if t[0] == 'dict':
                return t[2]
            if t[0] == 'list':
                return t[1]
            if t[0] == 'tuple' and isinstance(t[1], tuple) and v[2][0] == 'c' and isinstance(v[2][2], int) \
                    and v[2][2] < len(t[1]):
                return t[1][v[2][2]]
            return None
        if k == 'lv':
            t = self.typeof(v[1], st)
            return t if t is not None and t != ('b', 'NoneType') else None
        if k == 'fold':
            t = self.typeof(v[4], st) if len(v) > 4 else None
            return t if t == ('b', 'str') else None
        if k == 'sl':
            return strip_opt(self.typeof(v[1], st))
        if k == 'call':
            fn = v[1]
            if isinstance(fn, str):
                if fn in self.prog.classes:
                    return ('cls', fn)
                if fn == 'getattr' and len(v[2]) == 2:
                    t = strip_opt(self.typeof(v[2][0], st))
                    return self.prog.dynamic_attr_type(t[1]) if t is not None and t[0] == 'cls' else None
                info = self.prog.funcs.get(fn)
                if info is not None:
                    return self.prog.return_type(info)
                if fn in ('str', 'repr'):
                    return ('b', 'str')
                if fn in ('list', 'sorted'):
                    return ('list', None)
                if fn == 'len':
                    return ('b', 'int')
                if fn.startswith('os.path.') and fn.split('.')[-1] in ('join', 'abspath', 'basename', 'dirname',
                                                                       'relpath', 'realpath', 'normpath'):
                    return ('b', 'str')
            elif fn[0] == 'm' and fn[2] in ('split', 'readlines', 'splitlines'):
                return ('list', None)
            elif fn[0] == 'm' and fn[2] in ('strip', 'lower', 'upper', 'format', 'replace', 'join'):
                return ('b', 'str')
            elif fn[0] == 'm' and fn[2] == 'copy':
                return self.typeof(fn[1], st)
            return None
        return None

    def is_str(self, v, st):
        return strip_opt(self.typeof(v, st)) == ('b', 'str')

    def element_type(self, entries, st):
        types = set()
        for e in entries:
            if e[0] == 'star':
                t = strip_opt(self.typeof(e[1], st))
                types.add(t[1] if t is not None and t[0] in ('list', 'set', 'iter') else None)
            elif e[0] == 'each':
                types.add(self.typeof(e[3], st) if e[3][0] != 'star' else None)
            elif e[0] != 'prev':
                types.add(self.typeof(e, st))
        return types.pop() if len(types) == 1 else None

    # ---- atoms

    def type_test(self, t, cls):
        """whether a declared type is (True), can not be (False), or may be (None) an instance of a class value"""
        t2 = strip_opt(t)
        if t2 is None:
            return None
        maybe_none = t[0] == 'opt'
        res = None
        if cls[0] == 'k':
            if t2[0] == 'cls':
                if self.prog.is_subclass(t2[1], cls[1]):
                    res = True
                elif self.prog.is_subclass(cls[1], t2[1]):
                    res = None
                else:
                    # could still be a common subclass
                    common = set(self.prog.subclasses(t2[1])) & set(self.prog.subclasses(cls[1]))
                    res = None if common else False
            elif t2[0] == 'b':
                res = False
            elif t2[0] == 'dict':
                res = None if 'dict' in self.prog.mro(cls[1]) else False
            elif t2[0] in ('list', 'set', 'tuple'):
                res = False
        elif cls[0] == 'x':
            name = cls[1]
            if t2[0] == 'b':
                a, b = getattr(builtins, t2[1], None), getattr(builtins, name, None)
                if isinstance(a, type) and isinstance(b, type):
                    res = issubclass(a, b)
                elif a is not None:
                    res = False
            elif t2[0] in ('dict', 'list', 'set', 'tuple'):
                if name in ('dict', 'list', 'set', 'tuple', 'str', 'int', 'bool', 'float'):
                    res = name == t2[0]
            elif t2[0] == 'cls':
                if name in self.prog.mro(t2[1]):
                    res = True
                elif name in ('str', 'list', 'dict', 'tuple', 'set', 'int', 'bool', 'float'):
                    res = False
        if res is True and maybe_none:
            return None
        return res

    @staticmethod
    def attribute_read(v, st):
        """whether a decision of this path has looked at an attribute of the value, which None has not"""
        if v[0] in ('c', 'lv', 'fold'):
            return False

        def reads(x):
            if not isinstance(x, tuple) or not x:
                return False
            if x[0] in ('exists', 'raises', 'all', 'lam', 'fold'):
                return False
            if x[0] == 'a' and len(x) == 3 and x[1] == v and isinstance(x[2], str) and not x[2].startswith('__'):
                return True
            return any(reads(y) for y in x)
        return any(reads(fact) for fact in st.facts)

    def decide(self, atom, st):
        """True / False when the atom is decided by constants, types, or facts on this path, else None"""
        if atom is True or atom is False:
            return atom
        got = st.facts.get(atom)
        if got is not None:
            return got
        k = atom[0]
        if k in ('truthy', 'lt', 'eq'):
            got = self.by_size(atom, st)
            if got is not None:
                return got
        if k == 'exists':
            if st.facts.get(('truthy', atom[1])) is False:
                return False
            ours = alternatives_of(atom)
            for fact, pol in st.facts.items():
                if fact[0] == 'exists' and fact[1] == atom[1]:
                    theirs = alternatives_of(fact)
                    if pol and all(any(a <= b for a in ours) for b in theirs):
                        return True
                    if not pol and all(any(b <= a for b in theirs) for a in ours):
                        return False
            return None
        if k == 'isnone':
            v = atom[1]
            if v[0] == 'c':
                return v == NONE
            if v[0] in NON_NONE_KINDS:
                return False
            if v[0] == 'call' and isinstance(v[1], str) and v[1] in self.prog.classes:
                return False
            if st.facts.get(('truthy', v)):
                return False
            if self.attribute_read(v, st):
                return False
            if self.lenient and v[0] in ('i', 'val') and self.holds_objects(v[1]):
                return False
            t = self.typeof(v, st)
            if t is not None and t[0] in ('cls', 'b', 'list', 'dict', 'set', 'tuple') and v[0] in ('i', 'el', 'val') \
                    and t != ('b', 'NoneType'):
                return False if self.lenient else None
            for (fk, *rest), val in st.facts.items():
                if fk == 'isinst' and rest[0] == v and val and rest[1] != ('x', 'NoneType'):
                    return False
            if t is not None and t[0] in ('cls', 'b', 'dict', 'list', 'set') and v[0] == 's' \
                    and t != ('b', 'NoneType'):
                return False
            if v[0] == 'a':
                owner = strip_opt(self.typeof(v[1], st))
                if owner is not None and owner[0] == 'cls' and self.prog.never_none(owner[1], v[2]):
                    return False
        elif k == 'truthy':
            v = atom[1]
            if v[0] == 'c':
                return bool(v[2])
            if v[0] in ('L', 'T', 'S', 'D'):
                if not v[1]:
                    return False
                if any(e[0] not in ('star', 'each', 'del', 'prev') for e in v[1]):
                    return True
                if len(v[1]) == 1 and v[1][0][0] == 'star':
                    return self.decide(('truthy', v[1][0][1]), st)
                return None
            if v[0] == 'cat':
                if any(p[0] == 'c' for p in v[1]):
                    return True
                return None
            if v[0] in ('f', 'k', 'lam', 'mod', 'split', 'super', 'exc'):
                return True
            if self.lenient and self.decide(('isnone', v), st) is False:
                t = strip_opt(self.typeof(v, st))
                if t is not None and (t[0] == 'type' or t[0] == 'cls' and self.always_true(t[1])):
                    return True     # as it is declared
            if v[0] == 'inst':
                return True if self.always_true(v[1]) else None
            if st.facts.get(('isnone', v)):
                return False
        elif k == 'isinst':
            if any(pol and fact[0] == 'truthy' and fact[1][0] == 'call' and fact[1][1] in EXCLUSIVE
                   and any(x == atom[1] for x in fact[1][2] + tuple(x for _, x in fact[1][3]))
                   and atom[2][-1] in EXCLUSIVE[fact[1][1]] for fact, pol in st.facts.items()):
                return False
            _, v, cls = atom
            if v == NONE:
                return cls == ('x', 'NoneType')
            if st.facts.get(('isnone', v)):
                return False
            t = self.typeof(v, st)
            if t is not None:
                res = self.type_test(t, cls)
                if res is not None:
                    return res
            for (fk, *rest), val in st.facts.items():
                if fk != 'isinst' or rest[0] != v:
                    continue
                other = rest[1]
                if cls[0] == 'k' and other[0] == 'k':
                    if val and self.prog.is_subclass(other[1], cls[1]):
                        return True
                    if not val and self.prog.is_subclass(cls[1], other[1]):
                        return False
                if val and self.lenient and self.prog.no_common_subclass(cls[1], other[1]):
                    return False
                if val:
                    t2 = ('cls', other[1]) if other[0] == 'k' else _ext_type(other)
                    if t2 is not None:
                        res = self.type_test(t2, cls)
                        if res is not None:
                            return res
        elif k in ('eq', 'is'):
            a, b = atom[1], atom[2]
            if a == b:
                return True
            if k == 'is' and ('call', 'object', (), ()) in (a, b):
                return False    # a mark which nothing else has
            if a[0] == 'c' and b[0] == 'c':
                return a[2] == b[2] if k == 'eq' else a == b
            for x, y in ((a, b), (b, a)):
                if y[0] == 'c' and y[2] is None:
                    return self.decide(('isnone', x), st)
                if y[0] == 'c' and x[0] in ('k', 'f', 'lam', 'mod'):
                    return False
            # equality with another constant is already known
            for x, y in ((a, b), (b, a)):
                if y[0] == 'c':
                    for (fk, *rest), val in st.facts.items():
                        if fk == k and val and x in rest:
                            other = rest[0] if rest[1] == x else rest[1]
                            if other[0] == 'c' and other[2] != y[2]:
                                return False
            if k == 'eq' and a[0] == 'c' and b[0] == 'cat' or b[0] == 'c' and a[0] == 'cat':
                const, cc = (a, b) if a[0] == 'c' else (b, a)
                if not isinstance(const[2], str):
                    return False
        elif k == 'in':
            item, cont = atom[1], atom[2]
            if self.lenient and st.facts.get(('truthy', cont)) is False and not self.is_str(cont, st):
                return False
            if cont[0] in ('L', 'T', 'S'):
                if item in cont[1]:
                    return True
                if not cont[1]:
                    return False
                if item[0] == 'c' and all(e[0] == 'c' for e in cont[1]):
                    return any(e[2] == item[2] for e in cont[1])
            if cont[0] == 'D':
                for e in reversed(cont[1]):
                    if e[0] == 'kv':
                        if e[1] == item:
                            return True
                        continue
                    if e[0] == 'del' and e[1] == item:
                        return False
                    if e[0] in ('star', 'each', 'prev'):
                        break
                else:
                    if item[0] == 'c' and all(e[0] == 'kv' and e[1][0] == 'c' for e in cont[1]):
                        return False
                    if not cont[1]:
                        return False
            if cont[0] == 'c' and item[0] == 'c' and isinstance(cont[2], str) and isinstance(item[2], str):
                return item[2] in cont[2]
        elif k == 'lt':
            if atom[1][0] == 'c' and atom[2][0] == 'c':
                try:
                    return atom[1][2] < atom[2][2]
                except TypeError:
                    return None
        elif k == 'hasattr':
            v, name = atom[1], atom[2]
            if v[0] == 'k' and v[1] in self.prog.classes:
                if self.prog.find_method(v[1], name) or self.prog.find_class_attr(v[1], name):
                    return True
            t = strip_opt(self.typeof(v, st))
            if t is not None and t[0] == 'cls' and t[1] in self.prog.classes:
                if self.prog.find_method(t[1], name) or self.prog.find_class_attr(t[1], name):
                    return True
            if (v, name) in st.ov:
                return True
            if v[0] == 'o' and name in st.heap[v[1]].attrs:
                return True
        return None

    @staticmethod
    def by_size(atom, st):
        """what is known of the number of entries of a container decides other conditions on it"""
        about = size_range(atom, True)
        if about is None:
            return None
        low, high, excluded = 0, None, set()
        for fact, pol in st.facts.items():
            if fact == atom or fact[0] not in ('truthy', 'lt', 'eq'):
                continue
            got = size_range(fact, pol)
            if got is None or got[0] != about[0]:
                continue
            _, lo, hi, no = got
            low = max(low, lo)
            high = hi if high is None or hi is not None and hi < high else high
            excluded |= no
        while low in excluded:
            low += 1
        while high is not None and high in excluded:
            high -= 1
        _, lo, hi, no = about
        if lo <= low and (hi is None or high is not None and high <= hi):
            return True if not no else None
        if hi is not None and low > hi or high is not None and high < lo:
            return False
        return None

    def assume(self, atom, pol, st):
        """records a decided fact (in place) with the types it implies"""
        st.facts[atom] = pol
        if atom[0] == 'isinst' and pol and atom[2][0] in ('k', 'x'):
            t = ('cls', atom[2][1]) if atom[2][0] == 'k' else _ext_type(atom[2])
            if self.lenient and t is not None:
                # what is clear with it
                for f in [f for f, b in st.facts.items() if f[0] == 'isinst' and not b and f[1] == atom[1]
                          and f[2][0] in ('k', 'x') and self.prog.no_common_subclass(f[2][1], atom[2][1])]:
                    del st.facts[f]
            old = st.types.get(atom[1]) or self.typeof(atom[1], st)
            if t is not None:
                # keep the more specific one
                o = strip_opt(old)
                if not (o and o[0] == 'cls' and t[0] == 'cls' and self.prog.is_subclass(o[1], t[1])):
                    st.types[atom[1]] = t
        if atom[0] == 'isnone' and not pol:
            t = self.typeof(atom[1], st)
            if t is not None and t[0] == 'opt':
                st.types[atom[1]] = t[1]
        if atom[0] == 'truthy' and pol:
            t = self.typeof(atom[1], st)
            if t is not None and t[0] == 'opt':
                st.types[atom[1]] = t[1]

    def branch(self, atom, st):
        """[(state, truth of atom)] for the feasible truth values"""
        got = self.decide(atom, st)
        if got is not None:
            return [(st, got)]
        self.count_fork()
        other = st.fork()
        self.assume(atom, True, st)
        self.assume(atom, False, other)
        return [(st, True), (other, False)]

    def always_true(self, cls):
        """whether the class can not have instances which are taken as False"""
        mro = self.prog.mro(cls)
        return not any(self.prog.find_method(cls, m) for m in ('__len__', '__bool__')) and 'dict' not in mro \
            and 'list' not in mro

    def truth(self, v, st):
        """[(state, bool)] for a value used as a condition"""
        if v[0] == 'c':
            return [(st, bool(v[2]))]
        if v[0] == 'b':
            return [(s, b == v[2]) for s, b in self.branch(v[1], st)]
        if v[0] == 'o':
            obj = st.heap[v[1]]
            if obj.cls not in ('dict', 'list', 'set') and not obj.entries:
                frozen = ('inst', obj.cls, ())
                got = self.decide(('truthy', frozen), st)
                if got is not None:
                    return [(st, got)]
            v = st.freeze(v)
        if v[0] in ('L', 'S', 'T', 'D') and len(v[1]) == 1 and v[1][0][0] == 'star':
            return self.truth(v[1][0][1], st)
        if v[0] in ('L', 'S', 'T', 'D') and len(v[1]) > 1 and all(e[0] in ('star', 'each') for e in v[1]):
            # one part which is known not to be empty is enough, and those which are empty do not matter
            left = []
            for e in v[1]:
                atom = nonempty((v[0], (e,))) if e[0] == 'each' else ('truthy', e[1])
                got = self.decide(atom, st)
                if got is True:
                    return [(st, True)]
                if got is not False:
                    left.append(e)
            if len(left) < len(v[1]):
                return self.truth((v[0], tuple(left)), st) if left else [(st, False)]
        if v[0] == 'call' and v[1] in ('bool', 'len', 'list', 'tuple', 'dict', 'set') and len(v[2]) == 1 \
                and v[2][0][0] != 'b':
            return self.truth(v[2][0], st)
        if v[0] in ('items', 'keys', 'vals'):
            return self.truth(v[1], st)
        if self.lenient and v[0] == 'sl' and v[2][0] == 'c' and isinstance(v[2][2], int) and v[2][2] > 0 and v[3] == NONE:
            # (what comes before is read, so it is there)
            return [(s, not b) for s, b in self.branch(('eq', *key_sort(C(v[2][2]), ('call', 'len', (v[1],), ()))), st)]
        if v[0] == 'sl' and (v[2], v[3]) in ((NONE, C(-1)), (C(1), NONE)):
            parts = parts_of(('call', 'len', (v[1],), ()))
            if parts is not None:
                return self.branch(('in', *parts), st)
        return self.branch(nonempty(v), st)

    # ---- comparisons to condition values

    @staticmethod
    def holds_objects(v):
        """the loaded objects of a runner: what an instance is made of or a partial, never None"""
        if v[0] == 'D':
            return all(e[0] == 'prev' or e[0] == 'star' and FactsMixin.holds_objects(e[1]) for e in v[1])
        return v[0] == 'a' and v[2] == '_loaded_objects'

    def is_single(self, v):
        """a member of an enumeration of the program: equal to itself only"""
        return v[0] == 'a' and v[1][0] == 'k' and v[1][1] in self.prog.classes and any(
            q.split('.')[-1] in ('Enum', 'Flag') for q in self.prog.mro(v[1][1])) and (
                self.prog.find_method(v[1][1], '__eq__') is None)

    def compare(self, op, a, b, st):
        """value of a comparison"""
        if op in ('Is', 'IsNot'):
            pol = op == 'Is'
            if b == NONE:
                return atom_value(('isnone', a), pol)
            if a == NONE:
                return atom_value(('isnone', b), pol)
            for x, y in ((a, b), (b, a)):
                if y == TRUE and x[0] == 'b':
                    return x if pol else negate(x)
                if y == FALSE and x[0] == 'b':
                    return negate(x) if pol else x
            if self.is_single(a) or self.is_single(b):
                return atom_value(('eq', *key_sort(a, b)), pol)
            return atom_value(('is', *key_sort(a, b)), pol)
        if op in ('Eq', 'NotEq'):
            pol = op == 'Eq'
            for x, y in ((a, b), (b, a)):
                if y == C(1) and self.lenient and x[0] == 'call' and x[1] == 'len' and x[2][0][0] == 'a' and x[2][0][2] in (
                        'targets', 'names', 'body'):
                    return atom_value(('lt', x, C(2)), pol)     # there is at least one in each statement
                if y == C(1) and parts_of(x) is not None:
                    return atom_value(('in', *parts_of(x)), not pol)
            for x, y in ((a, b), (b, a)):
                if y == NONE:
                    return atom_value(('isnone', x), pol)
                if y in (('D', ()), ('L', ()), ('T', ())) or y == EMPTY_STR and self.is_str(x, st):
                    return atom_value(nonempty(x), not pol)
                if y == C(0) and x[0] == 'call' and x[1] == 'len':
                    return atom_value(nonempty(x[2][0]), not pol)
                if y == TRUE and x[0] == 'b':
                    return x if pol else negate(x)
                if y == FALSE and x[0] == 'b':
                    return negate(x) if pol else x
            if self.lenient and 'sl' in (a[0], b[0]) and NONE not in (a, b):
                # each of the entries is equal (to the one at its place in a sequence of the same length)
                x, y = (a, b) if a[0] == 'sl' else (b, a)
                pair = key_sort(('el', x), ('i', y, ('idx', x)))
                return atom_value(('exists', x, ((('eq', *pair), False),)), not pol)
            return atom_value(('eq', *key_sort(a, b)), pol)
        if op in ('In', 'NotIn'):
            pol = op == 'In'
            if b[0] == 'call' and isinstance(b[1], tuple) and b[1][0] == 'm' and b[1][2] == 'keys':
                b = b[1][1]
            if b[0] == 'keys':
                b = b[1]
            if b[0] == 'call' and b[1] in ('list', 'tuple', 'set', 'frozenset') and len(b[2]) == 1:
                b = b[2][0]
            if b[0] in ('L', 'T', 'S') and len(b[1]) == 1:
                if b[1][0][0] == 'star':
                    return self.compare(op, a, b[1][0][1], st)
                if b[1][0][0] not in ('each', 'prev'):
                    return self.compare('Eq' if pol else 'NotEq', a, b[1][0], st)
            if b[0] == 'c' and isinstance(b[2], (tuple, frozenset)):
                b = ('S', tuple(C(x) for x in b[2]))
            if b[0] in ('L', 'T', 'S') and len(b[1]) == 1 and b[1][0][0] == 'each' and b[1][0][3][0] not in (
                    'star', 'each') and b[1][0][1][0] not in ('nest', 'zip', 'reversed') \
                    and not contains(a, lambda x: x == ('el', b[1][0][1])):
                # one of the entries is equal
                _, it, conds, value = b[1][0]
                same = self.compare('Eq', value, a, st)
                if same[0] == 'b':
                    return atom_value(('exists', it, tuple(sorted({*conds, same[1:]}, key=repr))), pol)
            if b[0] in ('L', 'T', 'S'):
                # neither the kind of container nor the order matters
                entries = [e for e in set(b[1]) if e != NONE or not self.is_str(a, st) and self.decide(
                    ('isnone', a), st) is not False]
                if len(entries) == 1 and entries[0][0] == 'c':
                    return self.compare('Eq' if pol else 'NotEq', a, entries[0], st)
                b = ('S', tuple(sorted(entries, key=repr)))
            if b[0] == 'D':
                b = self.narrow(b, a)
            return atom_value(('in', as_key(a), b), pol)
        # orderings: all in terms of <
        if op == 'Gt':
            return self.compare('Lt', b, a, st)
        if op == 'GtE':
            return negate(self.compare('Lt', a, b, st))
        if op == 'LtE':
            return negate(self.compare('Lt', b, a, st))
        if op == 'Lt':
            if a == C(1) and parts_of(b) is not None or b == C(2) and parts_of(a) is not None:
                return atom_value(('in', *parts_of(a if b == C(2) else b)), b != C(2))
            # the position of an entry and the last position
            for x, y in ((a, b), (b, a)):
                if x[0] == 'idx' and y[:2] == ('bin', 'Sub') and y[2] == ('call', 'len', (x[1],), ()):
                    last = ('eq', *key_sort(x, ('bin', 'Sub', y[2], C(1))))
                    if y[3] == C(1):
                        return atom_value(last, False) if x is a else FALSE
                    if y[3] == C(2) and x is b:
                        return atom_value(last, True)
            # 0 < len(x), len(x) < 1
            if a == C(0) and b[0] == 'call' and b[1] == 'len':
                return atom_value(nonempty(b[2][0]), True)
            if b == C(1) and a[0] == 'call' and a[1] == 'len':
                return atom_value(nonempty(a[2][0]), False)
            # normalise bounds of a length to  len(x) < n
            if a[0] == 'c' and isinstance(a[2], int) and b[0] == 'call' and b[1] == 'len':
                return atom_value(('lt', b, C(a[2] + 1)), False)
            return atom_value(('lt', a, b), True)
        raise Undecided(f'comparison {op}')


def size_range(fact, pol):
    """(container, at least, at most, numbers excluded) of a condition on the number of entries of a container"""
    def size_of(v):
        if v[0] != 'call' or v[1] != 'len' or len(v[2]) != 1:
            return None
        return v[2][0]

    def number(v):
        return v[2] if v[0] == 'c' and isinstance(v[2], int) and not isinstance(v[2], bool) else None
    if fact[0] == 'truthy':
        v = fact[1]
        if v[0] == 'L' and len(v[1]) == 1 and v[1][0][0] == 'star':
            v = v[1][0][1]
        return (v, 1, None, set()) if pol else (v, 0, 0, set())
    if fact[0] not in ('lt', 'eq'):
        return None
    for x, y in ((fact[1], fact[2]), (fact[2], fact[1])):
        base, n = size_of(x), number(y)
        if base is None or n is None:
            continue
        if fact[0] == 'eq':
            return (base, n, n, set()) if pol else (base, 0, None, {n})
        if x is fact[1]:    # len < n
            return (base, 0, n - 1, set()) if pol else (base, n, None, set())
        return (base, n + 1, None, set()) if pol else (base, 0, n, set())
    return None


def parts_of(v):
    """(separator, text) if the value is the number of parts of a text which was split"""
    if v[0] == 'call' and v[1] == 'len' and len(v[2]) == 1:
        v = v[2][0]
        if v[0] == 'L' and len(v[1]) == 1 and v[1][0][0] == 'star':
            v = v[1][0][1]
        if v[0] == 'split' and v[2][0] == 'c' and v[2][2]:
            return v[2], v[1]


def strip_opt(t):
    if t is not None and t[0] == 'opt':
        return t[1]
    return t


def _ext_type(cls):
    name = cls[1]
    if name in ('str', 'int', 'bool', 'float', 'bytes'):
        return ('b', name)
    if name == 'dict':
        return ('dict', None, None)
    if name in ('list', 'set', 'tuple'):
        return (name, None)
    return None
