import os
import itertools
import functools
import contextlib
import inspect
from pyfileconf.external import f, g


def same_append_plus_a(self, y):
    self.xs.append(y)


def same_append_plus_b(self, y):
    self.xs += [y]


def same_append_extend_a(self, y):
    self.xs.append(y)


def same_append_extend_b(self, y):
    self.xs.extend([y])


def same_append_var_a(self, y):
    self.xs.append(y)
    self.xs.append(1)


def same_append_var_b(self, y):
    xs = self.xs
    xs.append(y)
    xs.append(1)


def same_dict_set_a(self, k, v):
    self.d[k] = v


def same_dict_set_b(self, k, v):
    self.d.update({k: v})


def same_dict_set2_a(self, k, v):
    self.d[k] = v


def same_dict_set2_b(self, k, v):
    self.d.__setitem__(k, v)


def same_keys_in_a(d, k):
    return k in d


def same_keys_in_b(d, k):
    return k in d.keys()


def same_last_a(xs: list):
    return xs[-1]


def same_last_b(xs: list):
    return xs[len(xs) - 1]


def same_pop_a(xs: list):
    return xs.pop(-1)


def same_pop_b(xs: list):
    return xs.pop()


def same_pop0_a(xs: list):
    return xs.pop(0)


def same_pop0_b(xs: list):
    x = xs[0]
    del xs[0]
    return x


def same_del_pop_a(d: dict, k):
    del d[k]


def same_del_pop_b(d: dict, k):
    d.pop(k)


def same_join_a(a: str, b: str):
    return a + '.' + b


def same_join_b(a: str, b: str):
    return '.'.join([a, b])


def same_join2_a(a: str, b: str):
    return a + '.' + b


def same_join2_b(a: str, b: str):
    return '.'.join((a, b))


def same_fstr_a(a: str, b: str):
    return a + '.' + b


def same_fstr_b(a: str, b: str):
    return f'{a}.{b}'


def same_fmt_a(a: str, b: str):
    return f'{a}.{b}'


def same_fmt_b(a: str, b: str):
    return '{}.{}'.format(a, b)


def same_pct_a(a: str, b: str):
    return f'{a}.{b}'


def same_pct_b(a: str, b: str):
    return '%s.%s' % (a, b)


def same_ne_a(a, b):
    return a != b


def same_ne_b(a, b):
    return not a == b


def same_isnot_a(a):
    return a is not None


def same_isnot_b(a):
    return not a is None


def same_notin_a(a, b):
    return a not in b


def same_notin_b(a, b):
    return not (a in b)


def same_len0_a(xs: list):
    return len(xs) == 0


def same_len0_b(xs: list):
    return not xs


def same_empty_a(xs: list):
    if xs == []:
        return 1
    return 2


def same_empty_b(xs: list):
    if not xs:
        return 1
    return 2


def same_isinst_a(x):
    return isinstance(x, (int, str))


def same_isinst_b(x):
    return isinstance(x, int) or isinstance(x, str)


def same_or__a(a):
    return a or 1


def same_or__b(a):
    return a if a else 1


def same_star_a(a: list, b: list):
    return a + b


def same_star_b(a: list, b: list):
    return [*a, *b]


def same_dict_merge_a(a: dict, b: dict):
    return {**a, **b}


def same_dict_merge_b(a: dict, b: dict):
    return dict(a, **b)


def same_dict_merge2_a(a: dict, b: dict):
    return {**a, **b}


def same_dict_merge2_b(a: dict, b: dict):
    return a | b


def same_dict_merge3_a(a: dict, b: dict):
    return {**a, **b}


def same_dict_merge3_b(a: dict, b: dict):
    r = dict(a)
    r.update(b)
    return r


def same_dict_merge4_a(a: dict, b: dict):
    return {**a, **b}


def same_dict_merge4_b(a: dict, b: dict):
    r = a.copy()
    r.update(b)
    return r


def same_dict_merge5_a(a: dict, b: dict):
    return {**a, **b}


def same_dict_merge5_b(a: dict, b: dict):
    r = {}
    r.update(a)
    for k, v in b.items():
        r[k] = v
    return r


def same_items_a(d: dict):
    return [f(k, d[k]) for k in d]


def same_items_b(d: dict):
    return [f(k, v) for k, v in d.items()]


def same_copy_list_a(xs: list):
    return list(xs)


def same_copy_list_b(xs: list):
    return xs[:]


def same_copy_list2_a(xs: list):
    return list(xs)


def same_copy_list2_b(xs: list):
    return [*xs]


def same_copy_list3_a(xs: list):
    return list(xs)


def same_copy_list3_b(xs: list):
    return [x for x in xs]


def same_copy_list4_a(xs: list):
    return list(xs)


def same_copy_list4_b(xs: list):
    return xs.copy()


def same_getattr__a(x):
    return x.name


def same_getattr__b(x):
    return getattr(x, 'name')


def same_setattr__a(x):
    x.name = 1


def same_setattr__b(x):
    setattr(x, 'name', 1)


def same_path_join_a(a: str):
    return os.path.join(a, 'b', 'c')


def same_path_join_b(a: str):
    return os.path.join(os.path.join(a, 'b'), 'c')


def same_split0_a(s: str):
    return s.split('.')[0]


def same_split0_b(s: str):
    return s.partition('.')[0]


def same_split01_a(s: str):
    return s.split('.')[0]


def same_split01_b(s: str):
    return s.split('.', 1)[0]


def same_rsplit1_a(s: str):
    return s.split('.')[-1]


def same_rsplit1_b(s: str):
    return s.rsplit('.', 1)[-1]


def same_rsplit2_a(s: str):
    return s.split('.')[-1]


def same_rsplit2_b(s: str):
    return s.rpartition('.')[2]


def same_removesuffix_a(s: str):
    if s.endswith('.py'):
        s = s[:-3]
    return s


def same_removesuffix_b(s: str):
    return s.removesuffix('.py')


def same_removeprefix_a(s: str):
    if s.startswith('ab'):
        s = s[2:]
    return s


def same_removeprefix_b(s: str):
    return s.removeprefix('ab')


def same_any_a(xs):
    for x in xs:
        if x.a:
            return True
    return False


def same_any_b(xs):
    return any(x.a for x in xs)


def same_any2_a(xs):
    for x in xs:
        if x.a:
            return True
    return False


def same_any2_b(xs):
    found = False
    for x in xs:
        if x.a:
            found = True
            break
    return found


def same_any3_a(xs):
    return any(x.a for x in xs)


def same_any3_b(xs):
    found = False
    for x in xs:
        found = found or x.a
    return bool(found)


def same_any4_a(xs):
    return any(x.a for x in xs)


def same_any4_b(xs):
    return True in [bool(x.a) for x in xs]


def same_any5_a(xs):
    return any(x.a for x in xs)


def same_any5_b(xs):
    return len([x for x in xs if x.a]) > 0


def same_any6_a(xs):
    return any(x.a for x in xs)


def same_any6_b(xs):
    return not all(not x.a for x in xs)


def same_all_a(xs):
    return all(x.a for x in xs)


def same_all_b(xs):
    for x in xs:
        if not x.a:
            return False
    return True


def same_key_a(d: dict, k):
    if k in d:
        return d[k]
    raise ValueError


def same_key_b(d: dict, k):
    try:
        return d[k]
    except KeyError:
        raise ValueError


def same_key2_a(d: dict, k):
    if k in d:
        return d[k]
    return None


def same_key2_b(d: dict, k):
    return d.get(k)


def same_key3_a(d: dict, k):
    if k in d:
        return d[k]
    return None


def same_key3_b(d: dict, k):
    return d.get(k, None)


def same_key4_a(d: dict, k):
    if k not in d:
        d[k] = []
    d[k].append(1)


def same_key4_b(d: dict, k):
    d.setdefault(k, []).append(1)


def same_write_a(p: str, t: str):
    with open(p, 'w') as f:
        f.write(t)


def same_write_b(p: str, t: str):
    f = open(p, 'w')
    try:
        f.write(t)
    finally:
        f.close()


def same_read_a(p: str):
    with open(p) as f:
        return f.read()


def same_read_b(p: str):
    with open(p, 'r') as f:
        text = f.read()
    return text


def same_lines_a(p: str):
    with open(p) as f:
        return f.readlines()


def same_lines_b(p: str):
    with open(p) as f:
        lines = [line for line in f]
    return lines


def same_isclass_a(x):
    return inspect.isclass(x)


def same_isclass_b(x):
    return isinstance(x, type)


def same_starts_a(s: str):
    return s.startswith('a') or s.startswith('b')


def same_starts_b(s: str):
    return s.startswith(('a', 'b'))


def same_starts2_a(s: str):
    return s.startswith('a')


def same_starts2_b(s: str):
    return s[:1] == 'a'


def same_starts3_a(s: str):
    return bool(s) and s.startswith('a')


def same_starts3_b(s: str):
    return bool(s) and s[0] == 'a'


def same_enum_a(xs: list):
    return [(i, x) for i, x in enumerate(xs)]


def same_enum_b(xs: list):
    return [(i, xs[i]) for i in range(len(xs))]


def same_enum2_a(xs: list):
    return [(i, x) for i, x in enumerate(xs)]


def same_enum2_b(xs: list):
    out = []
    i = 0
    for x in xs:
        out.append((i, x))
        i += 1
    return out


def same_base_a(p: str):
    return os.path.basename(p)


def same_base_b(p: str):
    return os.path.split(p)[1]


def same_dirn_a(p: str):
    return os.path.dirname(p)


def same_dirn_b(p: str):
    return os.path.split(p)[0]


def same_chain_a(xs):
    return list(itertools.chain(*xs))


def same_chain_b(xs):
    return list(itertools.chain.from_iterable(xs))


def same_chain2_a(xs):
    return list(itertools.chain(*xs))


def same_chain2_b(xs):
    return [y for x in xs for y in x]


def same_chain3_a(xs):
    return list(itertools.chain(*xs))


def same_chain3_b(xs):
    out = []
    for x in xs:
        out.extend(x)
    return out


def same_chain4_a(xs):
    return list(itertools.chain(*xs))


def same_chain4_b(xs):
    return sum((list(x) for x in xs), [])


def same_chain5_a(xs):
    return list(itertools.chain(*xs))


def same_chain5_b(xs):
    out = []
    for x in xs:
        out += x
    return out


def same_setdiff_a(a, b):
    return set(a) - set(b)


def same_setdiff_b(a, b):
    return set(a).difference(b)


def same_setdiff2_a(a, b):
    return set(a) - set(b)


def same_setdiff2_b(a, b):
    return {x for x in a if x not in b}


def same_setunion_a(a: set, b: set):
    return a | b


def same_setunion_b(a: set, b: set):
    return a.union(b)


def same_setunion2_a(a: set, b: set):
    return a | b


def same_setunion2_b(a: set, b: set):
    return {*a, *b}


def same_setin_a(self, x):
    self.s.add(x)


def same_setin_b(self, x):
    self.s |= {x}


def same_setin2_a(self, x):
    self.s.add(x)


def same_setin2_b(self, x):
    self.s.update([x])


def same_type_a(x):
    return type(x)


def same_type_b(x):
    return x.__class__


def same_lam_a(x):
    return map(lambda y: y.a, x)


def same_lam_b(x):
    return (y.a for y in x)


def same_lam2_a(x):
    return list(map(str, x))


def same_lam2_b(x):
    return [str(y) for y in x]


def same_filt_a(x):
    return list(filter(None, x))


def same_filt_b(x):
    return [y for y in x if y]


def same_ifexp_a(a, b):
    if a:
        r = b.x
    else:
        r = b.y
    return r


def same_ifexp_b(a, b):
    return b.x if a else b.y


def same_guard_a(a, b):
    if a:
        b.x()
        return 1
    return 2


def same_guard_b(a, b):
    if not a:
        return 2
    b.x()
    return 1


def same_demorgan_a(a, b):
    return not (a.p and b.q)


def same_demorgan_b(a, b):
    return not a.p or not b.q


def same_elif__a(a):
    if a == 1:
        return 2
    elif a == 3:
        return 4
    else:
        return 5


def same_elif__b(a):
    if a == 1:
        return 2
    if a == 3:
        return 4
    return 5


def same_table_a(a):
    if a == 1:
        return 2
    elif a == 3:
        return 4
    else:
        return 5


def same_table_b(a):
    return {1: 2, 3: 4}.get(a, 5)


def same_nested_a(a, b):
    if a.p and b.q:
        a.go()


def same_nested_b(a, b):
    if a.p:
        if b.q:
            a.go()


def same_cont_a(xs):
    for x in xs:
        if x.p:
            x.go()


def same_cont_b(xs):
    for x in xs:
        if not x.p:
            continue
        x.go()


def same_index_a(xs: list, x):
    return xs.index(x)


def same_index_b(xs: list, x):
    for i, y in enumerate(xs):
        if y == x:
            return i
    raise ValueError


def same_rev_a(xs: list):
    return list(reversed(xs))


def same_rev_b(xs: list):
    return xs[::-1]


def same_rev2_a(xs: list):
    xs.reverse()


def same_rev2_b(xs: list):
    xs[:] = xs[::-1]


def same_sort_a(xs: list):
    return sorted(xs)


def same_sort_b(xs: list):
    ys = list(xs)
    ys.sort()
    return ys


def same_sum__a(xs: list):
    return sum(x.n for x in xs)


def same_sum__b(xs: list):
    t = 0
    for x in xs:
        t += x.n
    return t


def same_count_a(xs: list):
    return len([x for x in xs if x.a])


def same_count_b(xs: list):
    return sum(1 for x in xs if x.a)


def same_count2_a(xs: list):
    return len([x for x in xs if x.a])


def same_count2_b(xs: list):
    n = 0
    for x in xs:
        if x.a:
            n += 1
    return n


def same_strip_a(s: str):
    return not s.strip()


def same_strip_b(s: str):
    return s.strip() == ''


def same_strip2_a(s: str):
    return not s.strip()


def same_strip2_b(s: str):
    return not s or s.isspace()


def same_joingen_a(xs: list):
    return ', '.join([str(x) for x in xs])


def same_joingen_b(xs: list):
    return ', '.join(map(str, xs))


def same_joinloop_a(xs: list):
    return ''.join([str(x) for x in xs])


def same_joinloop_b(xs: list):
    r = ''
    for x in xs:
        r += str(x)
    return r


def same_joinloop2_a(xs: list):
    return '\n'.join([str(x) for x in xs])


def same_joinloop2_b(xs: list):
    r = ''
    for i, x in enumerate(xs):
        if i > 0:
            r += '\n'
        r += str(x)
    return r


def same_dictcomp_a(xs: list):
    return {x.k: x.v for x in xs}


def same_dictcomp_b(xs: list):
    d = {}
    for x in xs:
        d[x.k] = x.v
    return d


def same_dictcomp2_a(xs: list):
    return {x.k: x.v for x in xs}


def same_dictcomp2_b(xs: list):
    return dict((x.k, x.v) for x in xs)


def same_dictcomp3_a(ks: list, vs: list):
    return {k: v for k, v in zip(ks, vs)}


def same_dictcomp3_b(ks: list, vs: list):
    return dict(zip(ks, vs))


def same_dictcopy_a(d: dict):
    return {**d}


def same_dictcopy_b(d: dict):
    return dict(d)


def same_dictcopy2_a(d: dict):
    return {**d}


def same_dictcopy2_b(d: dict):
    return {k: v for k, v in d.items()}


def same_dictfilt_a(d: dict):
    return {k: v for k, v in d.items() if v is not None}


def same_dictfilt_b(d: dict):
    r = {}
    for k, v in d.items():
        if v is not None:
            r[k] = v
    return r


def same_dictfilt2_a(d: dict, x):
    return {k: v for k, v in d.items() if k != x}


def same_dictfilt2_b(d: dict, x):
    r = dict(d)
    r.pop(x, None)
    return r


def same_dictpop_a(d: dict, x):
    if x in d:
        del d[x]


def same_dictpop_b(d: dict, x):
    d.pop(x, None)


def same_tuple__a(xs: list):
    return tuple([x.a for x in xs])


def same_tuple__b(xs: list):
    return tuple(x.a for x in xs)


def same_swap_a(self):
    a = self.x
    self.x = self.y
    self.y = a


def same_swap_b(self):
    self.x, self.y = self.y, self.x


def same_unpack_a(xs: list):
    a = xs[0]
    b = xs[1:]
    return f(a, b)


def same_unpack_b(xs: list):
    a, *b = xs
    return f(a, b)


def same_unpack2_a(t: tuple):
    a = t[0]
    b = t[1]
    return f(a, b)


def same_unpack2_b(t: tuple):
    a, b = t
    return f(a, b)


def same_kw_a(x):
    return f(a=x, b=1)


def same_kw_b(x):
    return f(**{'a': x, 'b': 1})


def same_kw2_a(x):
    return f(a=x, b=1)


def same_kw2_b(x):
    return f(**dict(a=x, b=1))


def same_try_else_a(x):
    try:
        y = x.go()
    except ValueError:
        return 1
    return g(y)


def same_try_else_b(x):
    try:
        y = x.go()
    except ValueError:
        return 1
    else:
        return g(y)


def same_try_fin_a(x):
    x.a()
    try:
        return x.b()
    finally:
        x.c()


def same_try_fin_b(x):
    x.a()
    try:
        r = x.b()
    finally:
        x.c()
    return r


def same_suppress_a(x):
    try:
        x.go()
    except ValueError:
        pass


def same_suppress_b(x):
    with contextlib.suppress(ValueError):
        x.go()


def same_while__a(xs: list):
    for x in xs:
        x.go()


def same_while__b(xs: list):
    i = 0
    while i < len(xs):
        xs[i].go()
        i += 1


def same_iter_next_a(xs: list):
    for x in xs:
        x.go()


def same_iter_next_b(xs: list):
    it = iter(xs)
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        x.go()


def same_bool__a(x):
    return True if x.a else False


def same_bool__b(x):
    return bool(x.a)


def same_bool2_a(x):
    if x.a == 1:
        return True
    return False


def same_bool2_b(x):
    return x.a == 1


def same_hasattr__a(x):
    return x.a if hasattr(x, 'a') else None


def same_hasattr__b(x):
    return getattr(x, 'a', None)


def same_hasattr2_a(x):
    if hasattr(x, 'a'):
        return x.a
    return 1


def same_hasattr2_b(x):
    try:
        return x.a
    except AttributeError:
        return 1


def same_none_default_a(x=None):
    if x is None:
        x = {}
    return g(x)


def same_none_default_b(x=None):
    return g({} if x is None else x)


def same_walrus_a(d: dict, k):
    v = d.get(k)
    if v is not None:
        v.go()


def same_walrus_b(d: dict, k):
    if (v := d.get(k)) is not None:
        v.go()


def same_first_a(xs):
    for x in xs:
        if x.a:
            return x
    return None


def same_first_b(xs):
    return next((x for x in xs if x.a), None)


def same_first2_a(xs):
    for x in xs:
        if x.a:
            return x
    return None


def same_first2_b(xs):
    found = [x for x in xs if x.a]
    if found:
        return found[0]
    return None


def same_first3_a(xs):
    for x in xs:
        if x.a:
            return x
    return None


def same_first3_b(xs):
    found = [x for x in xs if x.a]
    return found[0] if found else None


def same_first4_a(xs):
    for x in xs:
        if x.a:
            return x
    return None


def same_first4_b(xs):
    result = None
    for x in xs:
        if x.a:
            result = x
            break
    return result


def same_first5_a(xs):
    for x in xs:
        if x.a:
            return x
    return None


def same_first5_b(xs):
    result = None
    for x in xs:
        if result is None and x.a:
            result = x
    return result


def same_last1_a(xs: list):
    m = [x for x in xs if x.a]
    if m:
        return m[-1].b
    return None


def same_last1_b(xs: list):
    r = None
    for x in xs:
        if x.a:
            r = x.b
    return r


def same_last2_a(xs: list):
    m = [x for x in xs if x.a]
    if m:
        return m[-1].b
    return None


def same_last2_b(xs: list):
    for x in reversed(xs):
        if x.a:
            return x.b
    return None


def same_last3_a(xs: list):
    m = [x for x in xs if x.a]
    if not m:
        return None
    return m[-1].b


def same_last3_b(xs: list):
    m = [x.b for x in xs if x.a]
    return m[-1] if m else None


def same_slice__a(xs: list):
    return xs[1:]


def same_slice__b(xs: list):
    return xs[1:len(xs)]


def same_slice2_a(xs: list):
    return [x for i, x in enumerate(xs) if i > 0]


def same_slice2_b(xs: list):
    return xs[1:]


def same_islice_a(xs: list):
    return xs[1:]


def same_islice_b(xs: list):
    return list(itertools.islice(xs, 1, None))


def same_reduce__a(xs: list):
    r = 0
    for x in xs:
        r = g(r, x)
    return r


def same_reduce__b(xs: list):
    return functools.reduce(g, xs, 0)


def same_reduce2_a(x, ks: list):
    for k in ks:
        x = getattr(x, k)
    return x


def same_reduce2_b(x, ks: list):
    return functools.reduce(getattr, ks, x)


def same_product_a(a, b):
    return [(x, y) for x in a for y in b]


def same_product_b(a, b):
    return list(itertools.product(a, b))


def same_assert__a(x):
    assert x.a
    return 1


def same_assert__b(x):
    if not x.a:
        raise AssertionError
    return 1


def same_closure_a(xs):
    return [g(x.a) for x in xs]


def same_closure_b(xs):
    def one(x):
        return g(x.a)
    return [one(x) for x in xs]


def same_lamv_a(xs):
    return [g(x.a) for x in xs]


def same_lamv_b(xs):
    one = lambda x: g(x.a)
    return list(map(one, xs))


def same_partial__a(x):
    return g(1, x)


def same_partial__b(x):
    return functools.partial(g, 1)(x)


def same_inplace_a(self):
    self.n = self.n + 1


def same_inplace_b(self):
    self.n += 1


def same_ltgt_a(a: int, b: int):
    return a < b


def same_ltgt_b(a: int, b: int):
    return b > a


def same_ge_a(a: int, b: int):
    return not a < b


def same_ge_b(a: int, b: int):
    return a >= b


def same_chained_a(a: int, b: int, c: int):
    return a < b and b < c


def same_chained_b(a: int, b: int, c: int):
    return a < b < c


def same_listmul_a(n: int):
    return [None for _ in range(n)]


def same_listmul_b(n: int):
    return [None] * n


def same_attrset_a(self, **kw):
    for k, v in kw.items():
        setattr(self, k, v)


def same_attrset_b(self, **kw):
    for k in kw:
        setattr(self, k, kw[k])


def same_yieldfrom_a(xs):
    for x in xs:
        yield x


def same_yieldfrom_b(xs):
    yield from xs


def same_isfile_a(p: str):
    return p[-3:] == ".py"


def same_isfile_b(p: str):
    return p.endswith(".py")


def same_splitext_a(p: str):
    return os.path.splitext(p)[0]


def same_splitext_b(p: str):
    root, ext = os.path.splitext(p)
    return root


def same_nested_try_a(x):
    try:
        x.a()
    except (KeyError, ValueError):
        return 1
    return 2


def same_nested_try_b(x):
    try:
        x.a()
    except KeyError:
        return 1
    except ValueError:
        return 1
    return 2


def same_exitstack_a(x):
    with x.ctx():
        x.go()


def same_exitstack_b(x):
    with contextlib.ExitStack() as s:
        s.enter_context(x.ctx())
        x.go()


def same_strjoin_sep_a(a: str, b: str):
    return os.sep.join([a, b])


def same_strjoin_sep_b(a: str, b: str):
    return a + os.sep + b


def same_defaultd_a(d: dict, xs):
    for x in xs:
        if x.k not in d:
            d[x.k] = []
        d[x.k].append(x)


def same_defaultd_b(d: dict, xs):
    for x in xs:
        d.setdefault(x.k, []).append(x)


def same_removei_a(xs: list):
    return [x for x in xs if not x.a]


def same_removei_b(xs: list):
    out = list(xs)
    for x in xs:
        if x.a:
            out.remove(x)
    return out


def same_zip__a(a: list, b: list):
    return all(x == y for x, y in zip(a, b))


def same_zip__b(a: list, b: list):
    for x, y in zip(a, b):
        if x != y:
            return False
    return True


def same_isnone2_a(a):
    return a == None


def same_isnone2_b(a):
    return a is None


def same_repl_a(s: str):
    return s.replace('a', 'b')


def same_repl_b(s: str):
    return 'b'.join(s.split('a'))


def same_superinit_a(self):
    return [self.a(), self.b()]


def same_superinit_b(self):
    x = self.a()
    y = self.b()
    return [x, y]


