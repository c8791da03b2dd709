"""
Abstract values: value numbers over access paths. A value is a nested tuple whose structure is canonical, so that
two expressions which denote the same thing by the identities applied here get the same value:
string concatenation / join / split / f-strings, dict and list displays / comprehensions / copies / updates,
comparisons and their negations, emptiness tests.
"""

C = lambda v: ('c', type(v).__name__, v)
NONE, TRUE, FALSE = C(None), C(True), C(False)
EMPTY_STR = C('')


def is_const(v):
    return v[0] == 'c'


def sym(name):
    return ('s', name)


# ---- strings

def cat(parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            sub = p[1]
        else:
            sub = (p,)
        for q in sub:
            if q[0] == 'c' and q[1] == 'str':
                if q[2] == '':
                    continue
                if out and out[-1][0] == 'c':
                    out[-1] = C(out[-1][2] + q[2])
                    continue
            elif q[0] == 'c':
                q = C(str(q[2]))
                if out and out[-1][0] == 'c':
                    out[-1] = C(out[-1][2] + q[2])
                    continue
            if out and out[-1][0] in ('pre', 'post') and q[0] != 'c':
                # what a loop over strings joined so far, followed by one more
                _, it, sep = out[-1]
                q = join(sep, ('L', ((('prev', it) if out[-1][0] == 'pre' else ('star', it)), q)))
                out.pop()
            out.append(q)
    if not out:
        return EMPTY_STR
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


def split(s, sep):
    """s.split(sep) as a frozen list where possible"""
    if sep[0] == 'c' and s[0] == 'c' and s[1] == 'str':
        return ('L', tuple(C(x) for x in s[2].split(sep[2])))
    if s[0] == 'join' and s[1] == sep:
        return s[2]
    if s[0] == 'cat' and sep[0] == 'c':
        # split at the separators which are visible in constants; the pieces between are themselves split
        pieces, current = [], []
        for p in s[1]:
            if p[0] == 'c':
                bits = p[2].split(sep[2])
                if bits[0]:
                    current.append(C(bits[0]))
                for bit in bits[1:]:
                    pieces.append(current)
                    current = [C(bit)] if bit else []
            else:
                current.append(p)
        pieces.append(current)
        if len(pieces) > 1:
            entries = []
            for piece in pieces:
                if not piece:
                    entries.append(EMPTY_STR)
                elif all(p[0] == 'c' for p in piece):
                    entries.append(cat(piece))
                else:
                    sub = split(cat(piece), sep)
                    if sub[0] == 'L':
                        entries.extend(sub[1])
                    else:
                        entries.append(('star', sub))
            return ('L', tuple(entries))
    return ('split', s, sep)


def join(sep, lst):
    if lst[0] == 'split' and lst[2] == sep:
        return lst[1]
    if lst[0] in ('L', 'T'):
        lst = (lst[0], norm_list_entries(lst[1]))
        if len(lst[1]) == 1 and lst[1][0][0] == 'star':
            lst = lst[1][0][1]
            return ('join', sep, lst) if lst[0] in ('L', 'T') else join(sep, lst)
        if len(lst[1]) == 2 and lst[1][0][0] == 'star':
            # all but the last one, and the last one
            most, last = lst[1][0][1], lst[1][1]
            if most[0] == 'sl' and most[2] == NONE and most[3] == C(-1) and last == ('i', most[1], C(-1)):
                return join(sep, most[1])
        parts = []
        for i, e in enumerate(lst[1]):
            if i:
                parts.append(sep)
            if e[0] == 'star':
                inner = e[1]
                if inner[0] in ('split', 'sl', 'L', 'T'):
                    parts.append(join(sep, inner))
                else:
                    return ('join', sep, lst)
            elif e[0] in ('each', 'prev'):
                return ('join', sep, lst)
            else:
                parts.append(e[2][0] if e[0] == 'call' and e[1] == 'str' and len(e[2]) == 1 else e)
        if not lst[1]:
            return EMPTY_STR
        return cat(parts)
    return ('join', sep, lst)


def sliced(v, lo, hi):
    """v[lo:hi]"""
    if v[0] == 'sl' and v[3] == NONE and all(b[0] == 'c' and isinstance(b[2], int) and b[2] >= 0 for b in (v[2], lo)) and (
            hi == NONE or hi[0] == 'c' and hi[2] < 0):
        return ('sl', v[1], C(v[2][2] + lo[2]), hi)
    return ('sl', v, lo, hi)


# ---- containers

def as_key(v):
    """a value which is used as a key: the key itself, not which copy of it"""
    if v[0] in ('i', 'a') and v[1][0] == 'call' and v[1][1] in ('copy.deepcopy', 'copy.copy') and len(v[1][2]) == 1:
        return (v[0], v[1][2][0], *v[2:])
    return v


def norm_conds(conds):
    """being in none of several containers is not being in all of them together"""
    where = {}
    for atom, pol in conds:
        if atom[0] == 'in' and not pol:
            where.setdefault(atom[1], []).append(atom[2])
    if all(len(v) == 1 for v in where.values()):
        return conds
    out = [c for c in conds if not (c[0][0] == 'in' and not c[1] and len(where[c[0][1]]) > 1)]
    for x, containers in where.items():
        if len(containers) > 1:
            entries = []
            for c in containers:
                entries += c[1] if c[0] in ('S', 'L', 'T') else [('star', c)]
            out.append((('in', x, mk_set(tuple(entries))), False))
    return tuple(sorted(out, key=repr))


def norm_list_entries(entries):
    out = []
    for e in entries:
        if e[0] == 'star':
            v = e[1]
            if v[0] in ('L', 'T'):
                out.extend(norm_list_entries(v[1]))
                continue
            if v[0] == 'c' and v[1] == 'str' and v[2] == '':
                continue
            if v[0] == 'call' and v[1] in ('list', 'tuple') and len(v[2]) == 1:
                v = v[2][0]
            if v[0] == 'keys':
                v = v[1]
            out.append(('star', v))
        elif e[0] == 'each':
            _, it, conds, entry = e
            if len(conds) > 1:
                conds = norm_conds(conds)
                e = ('each', it, conds, entry)
            if not conds and entry == ('el', it):
                out.extend(norm_list_entries((('star', it),)))
            elif not conds and it[0] == 'reversed' and entry == ('el', it[1]):
                out.append(('star', ('call', 'reversed', (it[1],), ())))
            elif entry[0] == 'star' and entry[1][0] in ('L', 'T') and len(entry[1][1]) == 1 \
                    and entry[1][1][0][0] not in ('star', 'each'):
                out.append(('each', it, conds, entry[1][1][0]))
            elif entry[0] == 'each' and norm_list_entries((entry,)) != (entry,) \
                    and len(norm_list_entries((entry,))) == 1:
                out.extend(norm_list_entries((('each', it, conds, norm_list_entries((entry,))[0]),)))
            elif it[0] == 'nest' and entry == ('el', it[2]) and not contains(conds, lambda x: x == entry):
                # all the elements of the inner iteration, as they are
                out.extend(norm_list_entries((('each', it[1], conds, ('star', it[2])),)))
            else:
                out.append(e)
        else:
            out.append(e)
    return tuple(out)


def norm_dict_entries(entries):
    out = []
    for at, e in enumerate(entries):
        if e[0] == 'star':
            v = e[1]
            if v[0] == 'D':
                out.extend(norm_dict_entries(v[1]))
                continue
            if v == NONE:
                continue
            if v[0] == 'items':
                v = v[1]
                out.extend(norm_dict_entries((('star', v),)))
                continue
            if v[0] == 'call' and v[1] == 'dict' and len(v[2]) == 1 and not v[3]:
                v = v[2][0]
            out.append(('star', v))
        elif e[0] == 'each':
            _, it, conds, entry = e
            if len(conds) > 1:
                conds = norm_conds(conds)
                e = ('each', it, conds, entry)
            if not conds and entry[0] == 'kv':
                base = it[1] if it[0] in ('items', 'keys') else it
                if entry[1] == ('key', base) and entry[2] in (('val', base), ('i', base, ('key', base))):
                    out.extend(norm_dict_entries((('star', base),)))
                    continue
            if conds and entry[0] == 'kv' and entry[1:] == (('key', it), ('val', it)) and all(
                    not pol and a[0] == 'in' and a[1] == ('key', it) and ('star', a[2]) in entries[at + 1:]
                    for a, pol in conds):
                # the keys which are left out are set afterwards
                out.append(('star', it))
                continue
            if entry[0] == 'star' and entry[1][0] == 'D' and len(entry[1][1]) == 1 and entry[1][1][0][0] == 'kv':
                entry = entry[1][1][0]
            if entry[0] == 'each':
                inner = norm_dict_entries((entry,))
                entry = inner[0] if len(inner) == 1 else entry
            out.append(('each', it, conds, entry))
        else:
            out.append(e)
    # a constant key which is set again later (with nothing unknown in between being able to matter) is dropped
    final = []
    for i, e in enumerate(out):
        if e[0] == 'kv' and e[1][0] == 'c' and any(
                f[0] in ('kv', 'del') and f[1] == e[1] for f in out[i + 1:]):
            continue
        final.append(e)
    # order of adjacent entries with distinct constant keys does not matter
    res, run = [], []
    for e in final:
        if e[0] in ('kv', 'del') and e[1][0] == 'c':
            run.append(e)
        else:
            res.extend(sorted(run, key=repr))
            run = []
            res.append(e)
    res.extend(sorted(run, key=repr))
    return tuple(res)


def norm_set_entries(entries):
    entries = norm_list_entries(entries)
    return tuple(sorted(set(entries), key=repr))


def mk_list(entries):
    return ('L', norm_list_entries(entries))


def mk_tuple(entries):
    return ('T', norm_list_entries(entries))


def mk_dict(entries):
    return ('D', norm_dict_entries(entries))


def mk_set(entries):
    return ('S', norm_set_entries(entries))


# ---- conditions: atoms with a polarity

def atom_value(atom, pol):
    if atom is True or atom is False:
        return C(atom if pol else not atom)
    return ('b', atom, pol)


def nonempty(v):
    """the condition that a container has entries (or that a value is true)"""
    if v[0] in ('L', 'S', 'T', 'D') and len(v[1]) == 1:
        e = v[1][0]
        if e[0] == 'star':
            return nonempty(e[1])
        if e[0] == 'each' and e[3][0] != 'star':
            return ('exists', e[1], tuple(sorted(set(e[2]), key=repr))) if e[2] else nonempty(e[1])
    return ('truthy', v)


def negate(v):
    if v[0] == 'b':
        return ('b', v[1], not v[2])
    if v[0] == 'c':
        return C(not v[2])
    return ('b', nonempty(v), False)


def key_sort(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)


def subst(v, mapping):
    """replaces sub values"""
    if v in mapping:
        return mapping[v]
    if isinstance(v, tuple):
        return tuple(subst(x, mapping) if isinstance(x, tuple) else x for x in v)
    return v


def contains(v, pred):
    if not isinstance(v, tuple):
        return False
    if v and isinstance(v[0], str) and pred(v):
        return True
    return any(contains(x, pred) for x in v if isinstance(x, tuple))


# ---- display

def short_name(qual):
    if not qual.startswith('pyfileconf.'):
        return qual
    parts = qual.split('.')
    if len(parts) > 1 and parts[-2][:1].isupper():
        return '.'.join(parts[-2:])
    return parts[-1]


def show(v, depth=0):
    text = _show(v, depth)
    return text if isinstance(text, str) else repr(text)


def _show(v, depth=0):
    if not isinstance(v, tuple) or not v:
        return repr(v)
    if depth > 25:
        return '…'
    k = v[0]
    s = lambda x: show(x, depth + 1)
    if not isinstance(k, str):
        return '(' + ', '.join(s(x) for x in v) + ')'
    if k == 'c':
        return repr(v[2])
    if k == 's':
        return v[1]
    if k == 'a':
        return f'{s(v[1])}.{v[2]}'
    if k == 'i':
        return f'{s(v[1])}[{s(v[2])}]'
    if k == 'sl':
        lo = '' if v[2] == NONE else s(v[2])
        hi = '' if v[3] == NONE else s(v[3])
        return f'{s(v[1])}[{lo}:{hi}]'
    if k == 'call':
        fn = short_name(v[1]) if isinstance(v[1], str) else s(v[1])
        pos = v[2]
        if isinstance(v[1], str) and v[1].startswith('pyfileconf.') and len(pos) == 1:
            fn, pos = f'{s(pos[0])}.{v[1].split(".")[-1]}', ()
        args = [s(a) for a in pos] + [(f'{n}={s(a)}' if n else f'**{s(a)}') for n, a in v[3] if a != NONE]
        occ = f'#{v[4]}' if len(v) > 4 and v[4] else ''
        return f'{fn}({", ".join(args)}){occ}'
    if k == 'm':
        return f'{s(v[1])}.{v[2]}'
    if k == 'cat':
        return 'concat(' + ', '.join(s(x) for x in v[1]) + ')'
    if k in ('pre', 'post'):
        return f'{"earlier" if k == "pre" else "all"} parts of {s(v[1])}, each followed by {s(v[2])}'
    if k == 'join':
        return f'{s(v[1])}.join({s(v[2])})'
    if k == 'split':
        return f'{s(v[1])}.split({s(v[2])})'
    if k == 'star':
        return f'*{s(v[1])}'
    if k == 'kv':
        return f'{s(v[1])}: {s(v[2])}'
    if k == 'each':
        conds = ''.join(f' if {show_fact(c)}' for c in v[2])
        return f'[{s(v[3])} for each of {s(v[1])}{conds}]'
    if k == 'del':
        return f'without {s(v[1])}'
    if k == 'D':
        return '{' + ', '.join('**' + s(e[1]) if e[0] == 'star' else s(e) for e in v[1]) + '}'
    if k == 'L':
        return '[' + ', '.join(s(x) for x in v[1]) + ']'
    if k == 'T':
        return '(' + ', '.join(s(x) for x in v[1]) + ')'
    if k == 'S':
        return 'set{' + ', '.join(s(x) for x in v[1]) + '}'
    if k == 'inst':
        return f'{v[1].split(".")[-1]}(' + ', '.join(f'{n}={s(x)}' for n, x in v[2]) + ')'
    if k in ('el', 'key', 'val', 'idx', 'items', 'keys', 'vals'):
        return f'{k}({s(v[1])})'
    if k == 'b':
        return show_fact((v[1], v[2]))
    if k == 'f':
        return v[1] if v[2] is None else f'{s(v[2])}.{v[1].split(".")[-1]}'
    if k == 'k':
        return v[1].split('.')[-1]
    if k in ('x', 'mod'):
        return v[1]
    if k == 'g':
        return v[2]
    if k == 'bin':
        return f'({s(v[2])} {v[1]} {s(v[3])})'
    if k == 'exc':
        return f'{v[1]}(...)'
    if k == 'u':
        return f'?{v[1]}'
    if k == 'lv':
        return f'changing({s(v[1])})'
    if k == 'lam':
        return 'lambda'
    return k + '(' + ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in v[1:]) + ')'


def show_fact(fact):
    atom, pol = fact
    k = atom[0]
    neg = '' if pol else 'not '
    if k == 'truthy':
        return f'{neg}{show(atom[1])}'
    if k == 'isnone':
        return f'{show(atom[1])} is {neg}None'
    if k == 'in':
        return f'{show(atom[1])} {neg}in {show(atom[2])}'
    if k == 'isinst':
        return f'{neg}isinstance({show(atom[1])}, {show(atom[2])})'
    if k == 'eq':
        return f'{show(atom[1])} {"==" if pol else "!="} {show(atom[2])}'
    if k == 'is':
        return f'{show(atom[1])} is {neg}{show(atom[2])}'
    if k == 'lt':
        return f'{show(atom[1])} {"<" if pol else ">="} {show(atom[2])}'
    if k == 'hasattr':
        return f'{neg}hasattr({show(atom[1])}, {atom[2]})'
    if k == 'raises':
        return f'{neg}raises({show(atom[1])}, {atom[2]})'
    return f'{neg}{k}({", ".join(show(x) if isinstance(x, tuple) else str(x) for x in atom[1:])})'
