"""python3 dev/mutants.py [-u] [-f FUNCTION] AREA...: mutants of the functions of areas which the obligations do not notice"""
import multiprocessing
import os
import sys
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dev.mutate import find, mutants
from dev.refactor import work


def main():
    from rules.areas import AREAS
    from rules.lib import Program
    root = os.environ.get('REPO', '/repo')
    prog = Program(root)
    todo = []
    args = sys.argv[1:]
    show_undecided = '-u' in args
    args = [a for a in args if a != '-u']
    only = ''
    if '-f' in args:
        only = args.pop(args.index('-f') + 1)
        args.remove('-f')
    for area in args or AREAS:
        for p in AREAS[area]().pairs:
            q = p.entry
            if q.endswith(':setter') or not q.endswith(only):
                continue
            f = prog.funcs[q]
            path = q[len(f.module.name) + 1:].split('.')
            with open(f.module.path) as fh:
                source = fh.read()
            import ast
            if find(ast.parse(source), path) is None:
                continue
            base = ast.unparse(ast.parse(source))
            seen = set()
            for text, out in mutants(source, path):
                if out is None or out in seen or out == base:
                    continue
                seen.add(out)
                todo.append((root, area, q, f.module.relpath, path, 'mutant', text, out))
    count = Counter()
    with multiprocessing.Pool(8, maxtasksperchild=50) as pool:
        for job, verdict, lines, source in pool.imap_unordered(work, todo, chunksize=4):
            count[verdict] += 1
            if verdict == 'ok' or verdict == 'CRASH' or show_undecided and verdict == 'UNDECIDED':
                print(verdict, job[2].removeprefix('pyfileconf.'), job[6], lines[0][:200] if lines else '', flush=True)
    print(dict(count))


main()
