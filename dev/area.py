"""python3 dev/area.py [-v] NAME...: runs the obligations of areas"""
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rules.areas import AREAS
from rules.lib import Program, Specs

args = sys.argv[1:]
verbose = '-v' in args
args = [a for a in args if a != '-v']
prog = Program(os.environ.get('REPO', '/repo'))
specs = Specs(prog)
for name in args or AREAS:
    t = time.time()
    r = AREAS[name]().run(specs)
    print(f'== {name}: {len(r.violations)} violations, {len(r.undecided)} undecided, {len(r.analysed)} agree, '
          f'{time.time() - t:.1f}s')
    for v in r.violations:
        print('VIOLATION', repr(v)[:1500])
        for x in v.related:
            print('   related', repr(x)[:300])
    for v in r.undecided:
        print('UNDECIDED', v[:2600])
    if verbose:
        for v in r.analysed:
            print('ok', v)
