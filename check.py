"""
python3 check.py ID: decides a property of py-file-conf from its source in /repo (nothing of it is run).

Exit 0: the property holds on everything analysed. Exit 1: a violation, named in the output and in the replay file.
Exit 2: the analysis could not be done (something public it is about is no longer there).
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from analyzer.conform import Result                      # noqa: E402
from analyzer.model import AnalysisBroken, Program       # noqa: E402
from rules.lib import Specs                              # noqa: E402
from rules.properties import EXPECTED, PROPERTIES        # noqa: E402

KNOWN = os.path.join(HERE, 'known_findings.txt')


def known_findings(ident):
    """lines 'known: property=ID :: RULE|CONSTRUCT :: what' of the file (fixed: lines suppress nothing)"""
    out = {}
    with open(KNOWN) as f:
        for line in f:
            if line.startswith(f'known: property={ident} '):
                fields = line.split(' :: ')
                out[fields[1].strip()] = fields[2].strip()
    return out


def analyse(ident, root):
    prog = Program(root)
    specs = Specs(prog)
    total = Result()
    seen = set()
    for part in PROPERTIES[ident]:
        try:
            r = part.run(specs)
        except AnalysisBroken:
            raise
        except Exception as e:
            if os.environ.get('ANALYZER_DEBUG'):
                raise
            r = Result()
            r.obligations += 1
            r.undecided.append(f'{part}: not analysable ({type(e).__name__}: {e})')
        r.violations = [v for v in r.violations if not (v.key(), v.message) in seen]
        seen |= {(v.key(), v.message) for v in r.violations}
        total.add(r)
    return prog, total


def main():
    ident = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.time()
    try:
        prog, total = analyse(ident, os.environ.get('REPO', '/repo'))
    except AnalysisBroken as e:
        print(f'analysis broken: {e}')
        return 2
    if tier == 'thorough' and os.path.exists(os.path.join(HERE, 'rules', 'selftest.py')):
        from rules.selftest import selftest
        problems, mutants = selftest(ident)
    else:
        problems, mutants = [], None
    known = known_findings(ident)
    violations, findings = [], []
    for v in total.violations:
        (findings if v.key() in known else violations).append(v)
    print(f'property {ident}: analysed {len(total.functions)} functions in {len(prog.modules)} modules, '
          f'{total.call_sites} call sites, {total.paths} paths; {total.obligations} obligations')
    for text in total.analysed:
        print('  ok', text)
    for text in total.undecided:
        print('  undecided', text[:400])
    for v in findings:
        print(f'KNOWN-FINDING: property={ident} {known[v.key()]}')
    folder = os.environ.get('EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(folder, exist_ok=True)
    coverage = {
        'explanation': 'Static analysis of the source: for each obligation the paths of a function of the package are '
                       'summarised by dataflow analysis (conditions, effects in order, result) and compared with '
                       'what the property demands; rules over the whole package enumerate the constructs they are '
                       'about. An obligation counts as discharged when all pairs of compatible paths agree.',
        'obligations': total.obligations, 'discharged': len(total.analysed), 'undecided': total.undecided,
        'functions_analysed': sorted(total.functions), 'call_sites': total.call_sites, 'paths': total.paths,
        'modules_parsed': len(prog.modules), 'discharged_obligations': total.analysed}
    if mutants is not None:
        coverage['selftest'] = mutants
    evidence = {
        'property': ident, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': coverage,
        'assumptions': [
            'calls of code outside of the package do what their documentation says',
            'nothing changes the classes of the package at run time other than through the plugin system',
            'loops are summarised by one generic iteration'],
        'wall_s': round(time.time() - start, 3)}
    if violations:
        evidence['violations'] = [repr(v) for v in violations]
    with open(os.path.join(folder, f'{ident}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    if total.obligations < EXPECTED.get(ident, 0):
        print(f'analysis broken: {total.obligations} obligations instead of at least {EXPECTED[ident]}')
        return 2
    for p in problems:
        print('analysis broken:', p)
    if violations:
        path = os.path.join(folder, f'{ident}.violation.txt')
        with open(path, 'w') as f:
            for v in violations:
                f.write(f'{v.where}\nrule: {v.rule}\nconstruct: {v.construct}\n{v.message}\n')
                for x in v.related:
                    f.write(f'  possibly because of {x.where}: {x.construct}: {x.message}\n')
                f.write('\n')
        for v in violations:
            print(f'{v.where}: rule {v.rule}: {v.construct}: {v.message[:1500]}')
            for x in v.related:
                print(f'  possibly because of {x.where}: {x.construct}: {x.message[:600]}')
        print(f'VIOLATION property={ident} replay={path}')
        return 1
    return 2 if problems else 0


if __name__ == '__main__':
    sys.exit(main())
