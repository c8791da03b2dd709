"""
python3 dev/play.py FILE: compares the functions <name>_a and <name>_b of a file; the name of a pair says whether they
are expected to be the same (same_*), different (diff_*) or to be left undecided (open_*). Tests of the analyzer.
"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from analyzer.conform import Conform
from rules.lib import Program, Specs


def main():
    bad = 0
    with open(sys.argv[1]) as f:
        source = f.read()
    prog = Program('/repo', overrides={'pyfileconf/__play.py': source}) if False else Program('/repo')
    prog.add_module('pyfileconf.play', '/play.py', 'play.py', source)
    from analyzer.conform import spec_module
    spec_module(prog, source, 'play')
    names = [q.rsplit('.', 1)[1] for q in list(prog.funcs) if q.startswith('pyfileconf.play.') and q.endswith('_a')]
    only = sys.argv[2:]
    for n in names:
        base = n[:-2]
        if only and not any(o in base for o in only):
            continue
        c = Conform(prog, 'play', 'pyfileconf.play.' + base + '_b', prog.funcs['pyfileconf_reference.play.' + n], atoms=set(), pure=set())
        r = c.run()
        got = 'diff' if r.violations else 'open' if r.undecided else 'same'
        want = base.split('_')[0]
        if got != want:
            bad += 1
        detail = (r.violations[0].message if r.violations else r.undecided[0] if r.undecided else '')[:300]
        if got != want or only:
            print(('ok  ' if got == want else 'BAD ') + base, got, detail)
    print(len(names), 'pairs', bad, 'bad')


main()
