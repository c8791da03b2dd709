def same_insert_a(self, xs):
    out = [1]
    for x in reversed(xs):
        out.append(x.foo())
    return out
def same_insert_b(self, xs):
    out = [1]
    for x in reversed(xs):
        out += [x.foo()]
    return out
def diff_insert_a(xs):
    out = [1]
    for x in xs:
        out.append(x)
    return out
def diff_insert_b(xs):
    out = [1]
    for x in xs:
        out.insert(1, x)
    return out
def same_rev_a(xs):
    out = []
    for x in reversed(xs):
        out.append(x)
    return out
def same_rev_b(xs):
    out = []
    for x in xs:
        out.insert(0, x)
    return out
def same_concat_a(xs):
    out = []
    for x in xs:
        out.append(x)
    return out
def same_concat_b(xs):
    out = []
    for x in xs:
        out = out + [x]
    return out
def same_comp_a(xs):
    out = []
    for x in xs:
        out.append(x)
    return out
def same_comp_b(xs):
    return [x for x in xs]
def same_revcomp_a(xs):
    out = []
    for x in reversed(xs):
        out.append(x)
    return out
def same_revcomp_b(xs):
    return [x for x in xs[::-1]]
def same_tup_a(xs):
    out = ()
    for x in xs:
        out += (x,)
    return out
def same_tup_b(xs):
    return tuple(x for x in xs)
def diff_prep_a(xs):
    out = []
    for x in xs:
        out.append(x)
    return out
def diff_prep_b(xs):
    out = []
    for x in xs:
        out = [x] + out
    return out
def same_count_a(xs):
    n = 0
    for x in xs:
        n += 1
    return n
def same_count_b(xs):
    n = 0
    for i, x in enumerate(xs):
        n = i + 1
    return n
def same_dict_a(xs):
    out = {}
    for x in xs:
        out[x] = 1
    return out
def same_dict_b(xs):
    out = {}
    for x in xs:
        out = {**out, x: 1}
    return out
def diff_dict_a(xs):
    out = {}
    for x in xs:
        out[x] = 1
    return out
def diff_dict_b(xs):
    out = {}
    for x in xs:
        out = {**out, x: 2}
    return out
