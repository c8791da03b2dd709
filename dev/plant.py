"""
python3 dev/plant.py [ID...]: confirms the planted bugs of dev/bugs/*.py in scratch copies of /repo (they apply, the
stable tests pass, the demonstration passes without and fails with the bug), writes seeded/, and says which checks
notice them.
"""
import concurrent.futures
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
DEMO_SH = '''#!/bin/bash
# run with cwd at the repository: 0 if the property holds in this scenario
export PYTHONDONTWRITEBYTECODE=1 REPO="$PWD"
exec timeout 120 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def bugs():
    out = {}
    for path in sorted(glob.glob(os.path.join(HERE, 'dev', 'bugs', '*.py'))):
        for b in runpy.run_path(path)['BUGS']:
            assert b['id'] not in out, b['id']
            out[b['id']] = b
    return out


def apply(b, root):
    edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
    for file, old, new in edits:
        path = os.path.join(root, file)
        with open(path) as f:
            text = f.read()
        if text.count(old) != 1:
            return f'text occurs {text.count(old)} times in {file}'
        with open(path, 'w') as f:
            f.write(text.replace(old, new))


def tests(root):
    report = os.path.join(root, '.junit.xml')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + root,
                    '--timeout=60', '--continue-on-collection-errors', '--disable-warnings', '-o',
                    'junit_family=xunit2', '--junitxml=' + report], cwd=root, env=dict(ENV, PYTHONPATH=root),
                   capture_output=True)
    passed = set()
    for case in ET.parse(report).iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in case):
            passed.add((case.get('classname'), case.get('name')))
    os.remove(report)
    missing = []
    for s in STABLE:
        if not any(s.endswith(n) and (c.replace('.', '/') in s or c in s) for c, n in passed):
            missing.append(s)
    return missing


def one(b, full=True):
    tmp = tempfile.mkdtemp(prefix='plant_')
    root = os.path.join(tmp, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', root], check=True)
        problem = apply(b, root)
        if problem:
            return b['id'], 'BAD ' + problem, '', []
        target = os.path.join(HERE, 'seeded', b['id'])
        os.makedirs(target, exist_ok=True)
        diff = subprocess.run(['git', '-C', root, 'diff'], capture_output=True, text=True).stdout
        files = {'patch.diff': diff, 'demo.sh': DEMO_SH, 'demo.py': b['demo'].lstrip(), 'meta.json': json.dumps(
            {'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1) + '\n'}
        for name, text in files.items():
            with open(os.path.join(target, name), 'w') as f:
                f.write(text)
        shutil.copy(os.path.join(HERE, 'dev', 'demolib.py'), os.path.join(target, 'lib.py'))
        os.chmod(os.path.join(target, 'demo.sh'), 0o755)
        status = []
        if full:
            missing = tests(root)
            if missing:
                status.append(f'TESTS FAIL {missing[:3]}')
            good = subprocess.run(['bash', os.path.join(target, 'demo.sh')], cwd='/repo', env=ENV, capture_output=True,
                                  text=True)
            bad = subprocess.run(['bash', os.path.join(target, 'demo.sh')], cwd=root, env=ENV, capture_output=True,
                                 text=True)
            if good.returncode:
                status.append('DEMO FAILS ON THE UNCHANGED TREE ' + good.stderr[-600:])
            if not bad.returncode:
                status.append('DEMO PASSES WITH THE BUG')
            last = (bad.stderr.strip().splitlines() or ['?'])[-1][:120]
        else:
            last = ''
        with open(os.path.join(HERE, 'MANIFEST.json')) as f:
            claimed = [c['property'] for c in json.load(f)['checks']]
        caught = []
        for p in claimed:
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), p], env=dict(
                ENV, REPO=root, EVIDENCE=os.path.join(tmp, 'ev')), capture_output=True, text=True)
            if r.returncode == 1:
                caught.append(p)
            elif r.returncode:
                caught.append(f'{p}:exit{r.returncode}')
        if status:
            shutil.rmtree(target)
        return b['id'], '; '.join(status) or 'ok', last, caught
    finally:
        shutil.rmtree(tmp)


def main():
    everything = bugs()
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or list(everything)
    full = '--fast' not in sys.argv
    with concurrent.futures.ThreadPoolExecutor(6) as pool:
        for ident, status, last, caught in pool.map(lambda i: one(everything[i], full), ids):
            want = everything[ident]['property']
            print(f'{ident:28} {want} {"CAUGHT" if want in caught else "missed"} by {",".join(caught) or "-"} | '
                  f'{status} | {last}', flush=True)


if __name__ == '__main__':
    main()
