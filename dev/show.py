"""python3 dev/show.py AREA ENTRY-SUFFIX [MAXLEN]: the paths of a function and of its reference definition"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from analyzer import conform
from rules.areas import AREAS
from rules.lib import Program, Specs
area, suffix = sys.argv[1:3]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 400
old = conform.Conform.compare_paths


def compare_paths(self, interp, want, got, top=False):
    if self.entry.endswith(suffix):
        for title, ps in (('REFERENCE', want), ('CODE', got)):
            for p in ps:
                print(title, p.outcome, 'WHEN', ' and '.join(conform.show_fact(f) for f in p.facts.items())[:n])
                for e in p.events:
                    print('      ', e.show()[:n])
                print('    ->', (conform.show(p.value) if isinstance(p.value, tuple) else p.value or '')[:n])
    return old(self, interp, want, got, top)


conform.Conform.compare_paths = compare_paths
specs = Specs(Program(os.environ.get('REPO', '/repo')))
for v in AREAS[area]().run(specs).violations:
    if v.construct.endswith(suffix):
        print('VIOLATION', repr(v)[:n * 3])
