def same_k1_a(k):
    d = {}
    d[k] = []
    d[k].append(1)
    return d
def same_k1_b(k):
    return {k: [1]}
def same_k2_a(xs):
    d = {}
    for x in xs:
        if x.k not in d:
            d[x.k] = []
        d[x.k].append(x)
    return d
def same_k2_b(xs):
    d = {}
    for x in xs:
        if x.k in d:
            d[x.k].append(x)
        else:
            d[x.k] = [x]
    return d
def same_k3_a(xs):
    d = {}
    for x in xs:
        if x.k not in d:
            d[x.k] = []
        d[x.k].append(x)
    return d
def same_k3_b(xs):
    d = defaultdict(list)
    for x in xs:
        d[x.k].append(x)
    return d
from collections import defaultdict
from copy import deepcopy
def same_k4_a(xs):
    d = defaultdict(list)
    for x in xs:
        y = deepcopy(x)
        d[y['k']].append(y)
    return d
def same_k4_b(xs):
    d = {}
    for x in xs:
        y = deepcopy(x)
        if y['k'] not in d:
            d[y['k']] = []
        d[y['k']].append(y)
    return d
def same_k5_a(self, k):
    if k not in self.d:
        self.d[k] = []
    self.d[k].append(1)
def same_k5_b(self, k):
    if k in self.d:
        self.d[k].append(1)
    else:
        self.d[k] = [1]
def same_k6_a(self, k):
    self.d.setdefault(k, set()).add(1)
def same_k6_b(self, k):
    if k in self.d:
        self.d[k].add(1)
    else:
        self.d[k] = {1}
def same_k7_a(self, k):
    self.d.setdefault(k, {})['x'] = 1
def same_k7_b(self, k):
    if k not in self.d:
        self.d[k] = {}
    self.d[k]['x'] = 1
def diff_k8_a(self, k):
    self.d[k] = []
    self.d[k].append(1)
def diff_k8_b(self, k):
    self.d[k] = []
    self.d[k].append(2)
