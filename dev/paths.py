"""python3 dev/paths.py PROPERTY ENTRY-SUFFIX [NTH]: kept effects of the paths which are compared (NTH comparison)"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import analyzer.conform as M
from rules.lib import Program, Specs
from rules.properties import PROPERTIES
ident, suffix = sys.argv[1:3]
nth = int(sys.argv[3]) if len(sys.argv) > 3 else 1
old = M.Conform.compare_paths
count = [0]


def compare_paths(self, interp, want, got, top=False):
    if self.entry.endswith(suffix):
        count[0] += 1
        if count[0] == nth:
            for title, ps in (('REFERENCE', want), ('CODE', got)):
                for q in ps:
                    print(title, q.outcome, [M.show_fact(f)[-50:] for f in q.facts.items()][:7])
                    for e in self.kept(q.events):
                        print('      ', e.show()[:150])
    return old(self, interp, want, got, top)


M.Conform.compare_paths = compare_paths
specs = Specs(Program(os.environ.get('REPO', '/repo')))
for part in PROPERTIES[ident]:
    part.run(specs)
