"""
Loops. A loop over a display which is known is unrolled. Any other loop is summarised by one generic iteration:
its effects become one loop event whose bodies are the paths through the iteration, containers which it only adds to
get one 'each' entry per path, and other variables which it changes get a 'fold' value. An iteration which leaves the
loop gives a path with a partial loop followed by the effects of that iteration.
"""
import ast

from .expr import MAX_UNROLL, is_raised
from .facts import strip_opt
from .state import *
from .values import *

NEXT = ('next',)



def absorb(terms):
    """without the terms which another one covers"""
    return {t for t in terms if not any(o < t for o in terms)}


class LoopsMixin:

    def s_For(self, stmt, st, fr):
        def then(s, it):
            return self.run_loop(it, stmt, s, fr)
        return self.after_value(self.eval(stmt.iter, st, fr), then)

    def segments(self, it, st, raw=False):
        """the sequence as [('one', value) | ('many', iterable, conds, element)]"""
        start = it if raw else self.iterated(it, st)
        v = start if raw else self.content(start, st)
        t = strip_opt(self.typeof(v, st))
        if v[0] == 'call' and v[1] in ('list', 'tuple', 'iter') and len(v[2]) == 1:
            return self.segments(v[2][0], st)
        if v[0] == 'c' and isinstance(v[2], (str, tuple)):
            return [('one', C(x)) for x in v[2]] if len(v[2]) <= MAX_UNROLL else [('many', v, (), ('el', v))]
        if v[0] in ('L', 'T', 'S'):
            out = []
            for e in v[1]:
                if e[0] == 'star':
                    # what was in a container before it was added to
                    out.extend(self.segments(e[1], st, raw=e[1] in (start, st.freeze(start))))
                elif e[0] == 'each':
                    if e[3][0] == 'star' and (e[1][0] == 'nest' or raw):
                        out.append(('many', v, (), ('el', v)))
                    elif e[3][0] == 'star':
                        # the elements of each of several iterables
                        out.append(('nested', e[1], e[2], e[3][1]))
                    else:
                        out.append(('many', e[1], e[2], e[3]))
                elif e[0] == 'prev':
                    out.append(('many', e, (), ('el', e)))
                else:
                    out.append(('one', e))
            return out
        if v[0] == 'call' and v[1] == 'reversed' and len(v[2]) == 1:
            inner = self.segments(v[2][0], st)
            if any(s[0] == 'nested' for s in inner):
                return [('many', v, (), ('el', v))]
            return [s if s[0] == 'one' else ('many', reverse_of(s[1]), s[2], s[3]) for s in reversed(inner)]
        if v[0] == 'call' and v[1] == 'enumerate' and len(v[2]) == 1:
            inner = self.segments(v[2][0], st)
            if any(s[0] == 'nested' for s in inner):
                return [('many', v, (), ('el', v))]
            if all(s[0] == 'one' for s in inner):
                return [('one', mk_tuple((C(i), s[1]))) for i, s in enumerate(inner)]
            if len(inner) == 1 and not inner[0][2]:
                _, base, conds, el = inner[0]
                return [('many', base, (), mk_tuple((('idx', base), el)))]
            return [('one', mk_tuple((('u', 'index'), s[1]))) if s[0] == 'one' else
                    ('many', s[1], s[2], mk_tuple((('u', 'index'), s[3]))) for s in inner]
        if v[0] == 'call' and v[1] == 'zip' and v[2]:
            parts = [self.segments(x, st) for x in v[2]]
            if all(s[0] == 'one' for p in parts for s in p):
                return [('one', mk_tuple(x)) for x in zip(*[[s[1] for s in p] for p in parts])]
            els = []
            for x, p in zip(v[2], parts):
                els.append(p[0][3] if len(p) == 1 and p[0][0] == 'many' and not p[0][2] else ('el', x))
            bases = tuple(p[0][1] if len(p) == 1 and p[0][0] == 'many' and not p[0][2] else x
                          for x, p in zip(v[2], parts))
            if self.lenient and len(set(bases)) > 1 and els[0] == ('el', bases[0]):
                # (sequences of the same length)
                els = els[:1] + [('i', x, ('idx', bases[0])) for x in bases[1:]]
                return [('many', bases[0], (), mk_tuple(tuple(els)))]
            base = bases[0] if len(set(bases)) == 1 else ('zip', bases)
            return [('many', base, (), mk_tuple(tuple(els)))]
        if v[0] == 'call' and v[1] == 'range' and len(v[2]) == 1 and v[2][0][0] == 'call' and v[2][0][1] == 'len':
            base = v[2][0][2][0]
            return [('many', base, (), ('idx', base))]
        if v[0] == 'call' and v[1] == 'filter' and len(v[2]) == 2 and v[2][0] == NONE:
            return [('many', v[2][1], ((('truthy', ('el', v[2][1])), True),), ('el', v[2][1]))]
        if v[0] in ('items', 'keys', 'vals'):
            base = self.content(v[1], st)
            if base[0] != 'D' and self.typeof(base, st) is None:
                self.known[base] = ('dict', None, None)
            make = {'items': lambda k, x: mk_tuple((k, x)), 'keys': lambda k, x: k, 'vals': lambda k, x: x}[v[0]]
            return self.dict_segments(base, make, st)
        if v[0] == 'D' or t is not None and (t[0] == 'dict' or t[0] == 'cls' and v[0] not in ('o', 'k') and
                                             'dict' in self.prog.mro(t[1])
                                             and self.prog.find_method(t[1], '__iter__') is None):
            return self.dict_segments(v, lambda k, x: k, st)
        return [('many', v, (), ('el', v))]

    def iterated(self, v, st):
        """what iterating over an object of the package iterates over, where its __iter__ only passes that on"""
        from .interp import Frame
        for _ in range(3):
            t = strip_opt(self.typeof(v, st))
            if t is None or t[0] != 'cls':
                break
            info = self.prog.find_method(t[1], '__iter__')
            if info is None or not self.can_follow(info, t[1], v):
                break
            body = [s for s in info.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if len(body) != 1:
                break
            s = body[0]
            src = None
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
                src = s.value.value
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) \
                    and s.value.func.id == 'iter' and len(s.value.args) == 1:
                src = s.value.args[0]
            elif isinstance(s, ast.For) and isinstance(s.target, ast.Name) and len(s.body) == 1 \
                    and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield) \
                    and isinstance(s.body[0].value.value, ast.Name) and s.body[0].value.value.id == s.target.id:
                src = s.iter
            if src is None:
                break
            saved = st.env
            st.env = {info.node.args.args[0].arg: v}
            got = self.eval(src, st, Frame(info, info.module, info.cls, 1, info.qual, v))
            st.env = saved
            if len(got) != 1 or got[0][0] is not st:
                break
            v = got[0][1]
        return v

    def dict_segments(self, base, make, st):
        if base[0] != 'D':
            return [('many', base, (), make(('key', base), ('val', base)))]
        out = []
        for i, e in enumerate(base[1]):
            later = [x[1] for x in base[1][i + 1:] if x[0] == 'star' and x[1] != base]
            if e[0] == 'kv':
                out.append(('one', make(e[1], e[2])))
            elif e[0] == 'star' and e[1] != base and e[1][0] != 'D' and later:
                # the entries which no later ones replace
                conds = tuple(sorted(((('in', ('key', e[1]), x), False) for x in later), key=repr))
                out.append(('many', e[1], conds, make(('key', e[1]), ('val', e[1]))))
            elif e[0] == 'star' and e[1] != base:
                out.extend(self.dict_segments(e[1], make, st))
            elif e[0] == 'each' and e[3][0] == 'kv':
                out.append(('many', e[1], e[2], make(e[3][1], e[3][2])))
            else:
                return [('many', base, (), make(('key', base), ('val', base)))]
        if not self.lenient and sum(1 for s in out if s[0] == 'one') and len(out) > 1 and any(s[0] == 'many' for s in out):
            # later entries may replace earlier ones, so the entries are not visited one by one
            return [('many', base, (), make(('key', base), ('val', base)))]
        return out

    def run_loop(self, it, stmt, st, fr, inner=False):
        segs = self.segments(it, st)
        if sum(1 for s in segs if s[0] == 'one') > MAX_UNROLL:
            v = self.content(it, st)
            segs = [('many', v, (), ('el', v))]
        live, done = [st], []
        for seg in self.alternatives(segs):
            nxt = []
            for s in live:
                if seg[0] == 'one':
                    outs = self.one_iteration(stmt, seg[1], s, fr)
                    for s2, out in outs:
                        if out in (NEXT, ('continue',)):
                            nxt.append(s2)
                        elif out == ('break',) and not inner:
                            done.append((s2, NEXT))
                        else:
                            done.append((s2, out))
                elif seg[0] == 'nested':
                    def within(s2, seg=seg):
                        s3 = self.holding(s2, seg[2])
                        return [] if s3 is None else self.run_loop(seg[3], stmt, s3, fr, inner=True)
                    finished, left = self.generic_loop(seg, within, s, fr, stmt)
                    nxt.extend(finished)
                    for s2, out in left:
                        done.append((s2, NEXT if out == ('break',) and not inner else out))
                elif seg[0] == 'alternatives':
                    def iteration(s2):
                        outs = []
                        for conds, element in seg[3]:
                            s3 = self.holding(s2, conds)
                            if s3 is not None:
                                outs += self.one_iteration(stmt, element, s3, fr)
                        return outs
                    finished, left = self.generic_loop(seg, iteration, s, fr, stmt)
                    nxt.extend(finished)
                    for s2, out in left:
                        done.append((s2, NEXT if out == ('break',) and not inner else out))
                else:
                    finished, left = self.generic_loop(seg, lambda s2: self.one_iteration(stmt, seg[3], s2, fr),
                                                       s, fr, stmt)
                    nxt.extend(finished)
                    for s2, out in left:
                        done.append((s2, NEXT if out == ('break',) and not inner else out))
            live = [s for s, _ in self.merge_values([(s, NEXT) for s in nxt])] if len(nxt) > 1 else nxt
        out = list(done)
        for s in live:
            if stmt.orelse and not inner:
                out.extend(self.exec_block(stmt.orelse, s, fr))
            else:
                out.append((s, NEXT))
        return self.merge_outcomes(out)

    def alternatives(self, segs):
        """elements which come from the same iterable under conditions which exclude each other are one sequence"""
        out = []
        for seg in segs:
            last = out[-1] if out else None
            if seg[0] == 'many' and last is not None and last[0] in ('many', 'alternatives') and last[1] == seg[1]:
                before = last[3] if last[0] == 'alternatives' else [(last[2], last[3])]
                if all(any((a, not p) in set(seg[2]) for a, p in conds) for conds, _ in before):
                    common = set(seg[2]).intersection(*[set(c) for c, _ in before])
                    out[-1] = ('alternatives', seg[1], tuple(sorted(common, key=repr)), before + [(seg[2], seg[3])])
                    continue
            out.append(seg)
        return out

    def holding(self, st, conds):
        """the state with the conditions, or None"""
        s = st.fork()
        for atom, pol in conds:
            got = self.decide(atom, s)
            if got is None:
                self.assume(atom, pol, s)
            elif got is not pol:
                return None
        return s

    def one_iteration(self, stmt, element, st, fr):
        out = []
        for s, r in self.assign(stmt.target, element, st, fr):
            if r is not None:
                out.append((s, ('raise', r)))
            else:
                out.extend(self.exec_block(stmt.body, s, fr))
        return out

    # ---- one generic iteration

    def generic_loop(self, seg, iteration, st, fr, stmt):
        from .interp import settle
        """([states after all iterations], [(state, outcome)] of iterations which leave the loop)"""
        _, it, conds, element = seg
        first = self.try_iteration(st, conds, iteration)
        carried_vars, carried_objs, carried_ov = self.changes(st, first)
        results = first
        marker = ('prev', it)
        if carried_vars or carried_objs or carried_ov:
            start, assumed = st.fork(), []
            joined = self.joined_parts(carried_vars, first, st, it, conds, iteration)
            for name in carried_vars:
                if name in joined:
                    start.env[name] = ('pre', it, joined[name])
                    continue
                lv = start.env[name] = ('lv', st.freeze(st.env[name]), it)
                t = self.typeof(st.env[name], st)
                if t is not None and t[0] == 'cls' and any(
                        self.typeof(s.env[name], s) != t for s, o in first if name in s.env):
                    start.types[lv] = ('b', 'object')
                elif self.never_none(st.env[name], st) and all(
                        self.never_none(s.env[name], s) for s, o in first if name in s.env):
                    assumed.append(name)
                    start.facts[('isnone', lv)] = False
            for oid in carried_objs:
                obj = start.heap[oid]
                start.heap[oid] = HObj(obj.cls, obj.entries + (self.own_keys_only(
                    it, [(len(obj.entries), s.heap[oid].entries) for s, _ in first if oid in s.heap]) or marker,),
                    dict(obj.attrs))
                for attr in carried_objs[oid]:
                    start.heap[oid].attrs[attr] = ('lv', C(attr), it)
            for key in carried_ov:
                old = st.ov.get(key)
                if key[1] == '#content':
                    if old is None:
                        old = self.empty_like(first, key)
                    start.ov[key] = (old[0], old[1] + (self.own_keys_only(
                        it, [(1 if st.ov.get(key) is None else len(old[1]), s.ov[key][1]) for s, _ in first
                             if key in s.ov and s.ov[key][0] == 'D']) or marker,)) if old is not None and old[0] in 'DLS' else \
                        ('lv', C('content'), it)
                elif old is not None:
                    start.ov[key] = ('lv', C(key[1]), it)
            results = self.try_iteration(start, conds, iteration)
            if any(s.freeze(s.env[name]) != cat([join(sep, ('L', (('prev', it), ('el', it)))), sep])
                   for name, sep in joined.items() for s, o in results
                   if name in s.env and o in (NEXT, ('continue',))):
                joined = {}
                for name in carried_vars:
                    start.env[name] = ('lv', st.freeze(st.env[name]), it)
                results = self.try_iteration(start, conds, iteration)
            wrong = [name for name in assumed if not all(
                self.never_none(s.env[name], s) for s, o in results if name in s.env and o in (NEXT, ('continue',)))]
            if wrong:
                for name in assumed:
                    del start.facts[('isnone', start.env[name])]
                results = self.try_iteration(start, conds, iteration)
            more_vars, more_objs, more_ov = self.changes(start, results)
            base = start
        else:
            base, joined = st, {}
        bodies, exits, contributions = [], [], []
        base_facts = set(base.facts.items()) | set(conds)
        for s, out in results:
            facts = tuple(sorted((f for f in s.facts.items() if f not in base_facts), key=repr))
            events = tuple(settle(s, e) for e in s.ev)
            if out in (NEXT, ('continue',)):
                if it == ('while', 'loop'):
                    events += self.carries(st, s, carried_vars, carried_objs, fr, stmt)
                bodies.append((facts, events, 'next'))
                contributions.append((s, facts))
            else:
                exits.append((s, facts, out))
        if it != ('while', 'loop'):
            for name in carried_vars:
                if name in joined:
                    continue
                lv = ('lv', st.freeze(st.env[name]), it)
                ways = {}
                for s, facts in contributions:
                    value = s.freeze(s.env[name]) if name in s.env else None
                    if value is not None and value != lv:
                        ways.setdefault(value, []).append(facts)
                self.developments.setdefault(lv, set()).add(tuple(sorted(
                    ((v, tuple(self.prime_implicants(f)) if len(f) > 1 else tuple(f)) for v, f in ways.items()), key=repr)))
        # the paths of one iteration exclude each other, so their order means nothing
        contributions.sort(key=lambda c: repr(c[1]))
        final = []
        # the loop runs to its end
        if contributions:
            done = st.fork()
            # what has to be true of each element for the loop to run to its end
            always = {(atom, not pol) for term in self.exit_terms(conds, exits) if len(term) == 1 for atom, pol in term}
            self.apply_loop(done, st, base, it, conds, element,
                            [(tuple(f for f in facts if f not in always), evs, o) for facts, evs, o in bodies],
                            [(s, tuple(f for f in facts if f not in always)) for s, facts in contributions],
                            carried_vars, carried_objs, carried_ov, fr, stmt, partial=False)
            if exits:
                atom = self.exists_atom(it, conds, exits)
                if atom is not None:
                    got = self.decide(atom, done)
                    if got is not True:
                        self.assume(atom, False, done)
                        final.append(done)
                else:
                    final.append(done)
            else:
                final.append(done)
        elif exits:
            # every iteration leaves: the loop ends otherwise only when there is nothing
            done = st.fork()
            atom = self.exists_atom(it, conds, exits) or ('truthy', it)
            if self.decide(atom, done) is not True:
                self.assume(atom, False, done)
                final.append(done)
        left = []
        for s, facts, out in exits:
            e = st.fork()
            if contributions:
                self.apply_loop(e, st, base, it, conds, element, bodies, contributions, carried_vars, carried_objs,
                                carried_ov, fr, stmt, partial=True)
            atom = self.exists_atom(it, conds, exits)
            if atom is not None:
                if self.decide(atom, e) is False:
                    continue
                self.assume(atom, True, e)
            pre_ev = e.ev
            merged = s.fork()
            merged.ev = pre_ev + list(s.ev)
            if atom is not None:
                merged.facts[atom] = True
            # what earlier iterations did to carried things is unknown
            left.append((merged, out))
        return final, left

    def joined_parts(self, names, first, st, it, conds, iteration):
        """strings to which each iteration adds the element and a separator: {name: separator}"""
        found = {}
        if it == ('while', 'loop'):
            return found
        for name in names:
            if st.freeze(st.env[name]) != EMPTY_STR:
                continue
            seps = set()
            for s, out in first:
                if out in (NEXT, ('continue',)):
                    v = s.freeze(s.env[name]) if name in s.env else NONE
                    seps.add(v[1][1] if v[0] == 'cat' and len(v[1]) == 2 and v[1][0] == ('el', it) and v[1][1][0] == 'c'
                             else None)
            if len(seps) == 1 and None not in seps:
                found[name] = seps.pop()
        return found

    def never_none(self, v, st):
        """a container which was built here, or something which is known not to be None"""
        return v[0] == 'o' or self.content(v, st)[0] in 'LTSD' or self.decide(('isnone', v), st) is False

    def carries(self, before, after, names, objs, fr, stmt):
        """what one round hands on to the next, by what it was before the first"""
        out = [(before.freeze(before.env[n]), after.freeze(after.env[n])) for n in names]
        out += [(before.freeze(('o', oid)), after.freeze(('o', oid))) for oid in objs if not objs[oid]]
        return tuple(Ev('carry', 'next', start, (('value', value),), self.loc(fr, stmt))
                     for start, value in sorted(out, key=repr))

    def own_keys_only(self, it, grown):
        """marker for entries of earlier iterations when each iteration only sets the key it visits"""
        key = ('key', it)
        if grown and all(e[0] == 'kv' and e[1] == key for n, entries in grown for e in entries[n:]):
            return ('prev', it, 'own key')
        return None

    def exit_terms(self, conds, exits):
        """the conditions under which an iteration leaves the loop"""
        terms = sorted({tuple(sorted(set(facts) - set(conds), key=repr)) for _, facts, _ in exits}, key=repr)
        return self.prime_implicants(terms) if len(terms) > 1 else terms

    def exists_atom(self, it, conds, exits):
        """the condition that some element makes the loop exit"""
        alternatives = sorted({tuple(sorted(set(conds) | set(facts), key=repr)) for _, facts, _ in exits}, key=repr)
        if len(alternatives) == 1:
            if not alternatives[0]:
                return ('truthy', it)
            return ('exists', it, alternatives[0])
        alternatives = self.prime_implicants(alternatives)
        if len(alternatives) == 1:
            return ('exists', it, alternatives[0]) if alternatives[0] else ('truthy', it)
        return ('exists', it, ('or',) + tuple(alternatives))

    def prime_implicants(self, alternatives):
        """
        the same disjunction of conjunctions of facts, independent of the way in which the conditions are split:
        its prime implicants, where combinations of facts which cannot occur may be taken or left
        """
        terms = {frozenset(a) for a in alternatives}
        literals = sorted({(atom, pol) for t in terms for atom, _ in t for pol in (True, False)}, key=repr)
        if len(literals) > 24:
            return alternatives
        never = set()
        for i, x in enumerate(literals):
            s = self.holding(State(), [x])
            if s is None:
                never.add(frozenset([x]))
                continue
            never.update(frozenset([x, y]) for y in literals[i + 1:] if x[0] != y[0] and self.holding(s, [y]) is None)
        found = absorb(terms | never)
        while len(found) < 400:
            more = set()
            for t in found:
                for u in found:
                    clash = [(a, p) for a, p in t if (a, not p) in u]
                    if len(clash) == 1:
                        (a, p), = clash
                        new = (t - {(a, p)}) | (u - {(a, not p)})
                        if not any(x <= new for x in found):
                            more.add(frozenset(new))
            if not more:
                break
            found = absorb(found | more)
        else:
            return alternatives
        possible = [t for t in found if not any(n <= t for n in never)]
        return sorted((tuple(sorted(t, key=repr)) for t in possible), key=repr)

    def try_iteration(self, st, conds, iteration):
        s = self.holding(st, conds)
        if s is None:
            return []
        s.ev = []
        return self.merge_outcomes(iteration(s))

    def changes(self, st, results):
        """variables, objects and stored values of the state before which an iteration changes"""
        names, objs, ov = set(), {}, set()
        for s, out in results:
            if out not in (NEXT, ('continue',)):
                continue
            for n, v in st.env.items():
                if n not in ('#caller',) and s.env.get(n) != v and n in s.env:
                    names.add(n)
            for oid, obj in st.heap.items():
                new = s.heap[oid]
                if new is not obj and not new.same(obj):
                    attrs = objs.setdefault(oid, set())
                    for a in set(new.attrs) | set(obj.attrs):
                        if new.attrs.get(a) != obj.attrs.get(a):
                            attrs.add(a)
            for k, v in s.ov.items():
                if st.ov.get(k) != v:
                    ov.add(k)
        return names, objs, ov

    def empty_like(self, results, key):
        for s, out in results:
            v = s.ov.get(key)
            if v is not None and v[0] in 'DLS':
                return (v[0], (('star', key[0]),))
        return None

    def apply_loop(self, done, before, base, it, conds, element, bodies, contributions, names, objs, ov, fr, stmt,
                   partial):
        marker = ('prev', it)
        for oid in objs:
            obj = before.heap[oid]
            added, foldable = [], False
            inserted, places = [], set()
            old = base.heap[oid].entries
            # what each way through the loop adds does not depend on the way
            same = len({tuple(s.freeze(e) for e in s.heap[oid].entries) for s, _ in contributions}) == 1
            for s, facts in contributions:
                new = s.heap[oid]
                facts = () if same else facts
                at = inserted_at(old, new.entries) if obj.cls == 'list' else None
                if at is not None:
                    places.add(at)
                    cs = tuple(sorted(set(conds) | set(facts), key=repr))
                    inserted += [('each', reverse_of(it), cs, s.freeze(e))
                                 for e in new.entries[at:at + len(new.entries) - len(old)]]
                    foldable = foldable or len(new.entries) - len(old) > 1
                    continue
                if new.entries[:len(old)] != old:
                    foldable = True
                    continue
                for e in new.entries[len(old):]:
                    fe = s.freeze(e)
                    cs = tuple(sorted(set(conds) | set(facts), key=repr))
                    if obj.cls == 'list' and fe[0] == 'each':
                        # nested growth: one entry per element of the inner iteration
                        cs2 = tuple(sorted(set(cs) | set(fe[2]), key=repr))
                        added.append(('each', ('nest', it, fe[1]), cs2, fe[3]))
                    else:
                        added.append(('each', it, cs, fe))
            attrs = dict(obj.attrs)
            for a in objs[oid]:
                attrs[a] = ('fold', a, it, tuple(sorted({s.freeze(s.heap[oid].attrs.get(a, NONE)) for s, _ in
                                                         contributions}, key=repr)), done.freeze(obj.attrs.get(a, NONE)))
            if foldable or len(places) > 1:
                entries = (('star', ('fold', 'container', it, tuple(sorted(
                    {s.freeze(('o', oid)) for s, _ in contributions}, key=repr)))),)
            else:
                entries = obj.entries + tuple(join_alternatives(added))
                if inserted:
                    at = next(iter(places))
                    entries = entries[:at] + tuple(join_alternatives(inserted)) + entries[at:]
            if partial:
                entries = obj.entries + (marker,)
            done.heap[oid] = HObj(obj.cls, entries, attrs)
        for key in ov:
            old = before.ov.get(key)
            if key[1] == '#content':
                start = base.ov.get(key)
                kind = start[0] if start else 'L'
                added = []
                ok = start is not None and start[0] in 'DLS'
                if ok:
                    prior = start[1][:-1]
                    same = len({s.ov.get(key) for s, _ in contributions}) == 1
                    for s, facts in contributions:
                        facts = () if same else facts
                        new = s.ov.get(key)
                        mark = start[1][-1]
                        if new is None or new[0] != kind or mark not in new[1]:
                            ok = False
                            break
                        rest = [e for e in new[1] if e != mark and e not in prior]
                        cs = tuple(sorted(set(conds) | set(facts), key=repr))
                        added += [('each', it, cs, e) for e in rest]
                if ok:
                    make = {'D': mk_dict, 'L': mk_list, 'S': mk_set}[kind]
                    done.ov[key] = make(tuple(prior) + tuple(join_alternatives(added)))
                else:
                    done.ov[key] = ('fold', 'content', it, ())
            else:
                done.ov[key] = self.fold_value(key[1], it, conds, element, contributions,
                                               lambda s: s.ov.get(key, NONE), old)
        for name in names:
            done.env = dict(done.env)
            if base.env[name][0] == 'pre':
                done.env[name] = ('pre' if partial else 'post', *base.env[name][1:])
                continue
            built = None if partial else self.built_container(it, conds, contributions, lambda s: s.env.get(name, NONE),
                                                              before.env[name], before, done)
            if built is not None:
                done.env[name] = built
                continue
            done.env[name] = self.fold_value('', it, conds, element, contributions, lambda s: s.env.get(name, NONE),
                                             before.env[name])
        # variables which only exist after an iteration
        for s, facts in contributions:
            for n in s.env:
                if n not in before.env and n != '#caller':
                    done.env = dict(done.env)
                    done.env[n] = ('last', it, s.freeze(s.env[n]))
        # calls made inside of the loop count as made
        for s, facts in contributions:
            for k, n in s.cnt.items():
                done.cnt[k] = max(done.cnt.get(k, 0), n)
        events = self.loop_events(it, conds, element, bodies, partial, done, fr, stmt)
        done.ev.extend(events)

    def built_container(self, it, conds, contributions, get, start, before, done):
        """a container which each iteration replaces by itself with more entries"""
        old = self.content(start, before)
        if old[0] not in ('L', 'T', 'S', 'D'):
            return None
        first = before.freeze(start)
        lv = ('lv', first, it)
        ahead, behind = [], []
        for s, facts in contributions:
            v = s.freeze(get(s))
            if v == lv:
                continue
            if v[0] != old[0]:
                return None
            at = [i for i, e in enumerate(v[1]) if e == ('star', lv)]
            if len(at) != 1 or contains(v[1][:at[0]] + v[1][at[0] + 1:], lambda x: x == lv):
                return None
            cs = tuple(sorted(set(conds) | set(facts), key=repr))
            if at[0] > 1 and v[0] in 'LT':
                return None
            ahead += [('each', reverse_of(it), cs, e) for e in v[1][:at[0]]]
            behind += [('each', it, cs, e) for e in v[1][at[0] + 1:]]
        if ahead and v[0] == 'D':
            return None
        entries = tuple(join_alternatives(ahead)) + old[1] + tuple(join_alternatives(behind))
        cls = {'L': 'list', 'S': 'set', 'D': 'dict'}.get(old[0])
        if cls is None:
            return done.freeze(mk_tuple(entries))
        return self.alloc(done, HObj(cls, entries))

    def fold_value(self, name, it, conds, element, contributions, get, before):
        alternatives = tuple(sorted({(tuple(sorted(set(conds) | set(facts), key=repr)), s.freeze(get(s)))
                                     for s, facts in contributions}, key=repr))
        if len({v for _, v in alternatives}) == 1:
            alternatives = (((), alternatives[0][1]),)
        old = contributions[0][0].freeze(before) if before is not None else NONE
        return ('fold', name, it, alternatives, old)

    def loop_events(self, it, conds, element, bodies, partial, st, fr, stmt):
        if not any(evs for facts, evs, out in bodies):
            return []
        # a loop which does nothing but add to one container is one addition
        muts = [e for facts, evs, out in bodies for e in evs]
        if not partial and all(e.kind == 'mut' and e.name in ('dset', 'lext', 'sadd') for e in muts) and \
                len({(e.recv, e.name) for e in muts}) == 1 and not contains(
                    muts[0].recv, lambda x: x[0] in ('el', 'key', 'val', 'idx') and len(x) > 1 and x[1] == it):
            entries = []
            for facts, evs, out in bodies:
                cs = tuple(sorted(set(conds) | set(facts), key=repr))
                for e in evs:
                    entries += [('each', it, cs, x) for x in e.args[0][1][1]]
            make = {'dset': mk_dict, 'lext': mk_list, 'sadd': mk_set}[muts[0].name]
            frozen = make(tuple(join_alternatives(entries)))
            return [Ev('mut', muts[0].name, muts[0].recv, (('entries', frozen),), muts[0].loc)]
        additions = []
        if not partial:
            bodies, additions = self.additions_to_new(it, conds, bodies)
        if conds:
            bodies = [(tuple(sorted(set(conds) | set(facts), key=repr)), evs, out) for facts, evs, out in bodies]
        return [Ev('loop', 'loop', it, (), self.loc(fr, stmt), tuple(bodies), partial)] + additions

    def additions_to_new(self, it, conds, bodies):
        """
        Additions of a loop to a container which has just been made, apart from the rest of the loop: nobody sees it
        before the loop is done
        """
        events = [e for facts, evs, out in bodies for e in evs]
        out = []
        for recv in sorted({e.recv for e in events if e.kind == 'mut' and e.recv[0] in ('L', 'D', 'S')}, key=repr):
            muts = [e for e in events if e.kind == 'mut' and e.recv == recv]
            names = {e.name for e in muts}
            if len(names) != 1 or names - {'dset', 'lext', 'sadd'}:
                continue
            within = lambda x: x == recv
            if any(e.kind == 'loop' or contains(e.recv, within) or contains(e.args, within)
                   for e in events if e not in muts) or any(contains(e.args, within) for e in muts) or \
                    any(contains(f, within) for facts, evs, o in bodies for f in facts):
                continue
            entries = []
            rest = []
            for facts, evs, o in bodies:
                cs = tuple(sorted(set(conds) | set(facts), key=repr))
                mine = [e for e in evs if e in muts]
                for e in mine:
                    entries += [('each', it, cs, x) for x in e.args[0][1][1]]
                rest.append((facts, type(evs)(e for e in evs if e not in muts), o))
            bodies = rest
            make = {'dset': mk_dict, 'lext': mk_list, 'sadd': mk_set}[muts[0].name]
            out.append(Ev('mut', muts[0].name, recv, (('entries', make(tuple(join_alternatives(entries)))),),
                          muts[0].loc))
        return bodies, out

    # ---- while

    def s_While(self, stmt, st, fr):
        it = ('while', ast.dump(stmt.test) if False else 'loop')

        def iteration(s):
            out = []
            for s2, truth in self.eval_cond(stmt.test, s, fr):
                if not isinstance(truth, bool):
                    out.append((s2, ('raise', truth)))
                elif truth:
                    out.extend(self.exec_block(stmt.body, s2, fr))
                else:
                    out.append((s2, ('break',)))
            return out
        seg = ('many', it, (), ('el', it))
        final, left = self.generic_loop(seg, iteration, st, fr, stmt)
        out = []
        for s2, o in left:
            s2.facts.pop(('truthy', it), None)
            if o == ('break',):
                out.append((s2, NEXT))
            else:
                out.append((s2, o))
        return out


def reverse_of(it):
    return it[1] if it[0] == 'reversed' else ('reversed', it)


def inserted_at(old, new):
    """where entries were inserted before the end, or None"""
    if len(new) <= len(old) or new[:len(old)] == old:
        return None
    for k in range(len(old)):
        n = len(new) - len(old)
        if new[:k] == old[:k] and new[k + n:] == old[k:] and not any(
                e[0] in ('star', 'each', 'prev') for e in old[:k]):
            return k
    return None


def join_alternatives(entries):
    """two entries which differ in the polarity of one condition are one"""
    entries = list(dict.fromkeys(entries))
    changed = True
    while changed and len(entries) > 1:
        changed = False
        for i in range(len(entries)):
            for j in range(i + 1, len(entries)):
                a, b = entries[i], entries[j]
                if a[0] != 'each' or b[0] != 'each' or a[1] != b[1] or a[3] != b[3]:
                    continue
                ca, cb = set(a[2]), set(b[2])
                d1, d2 = ca - cb, cb - ca
                if not d1 and not d2:
                    del entries[j]
                    changed = True
                    break
                if len(d1) == len(d2) == 1:
                    (a1, p1), (a2, p2) = next(iter(d1)), next(iter(d2))
                    if a1 == a2 and p1 != p2:
                        entries[i] = ('each', a[1], tuple(sorted(ca & cb, key=repr)), a[3])
                        del entries[j]
                        changed = True
                        break
            if changed:
                break
    return entries
