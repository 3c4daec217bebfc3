"""run.py [PREFIX...]: tries the edits of edits.json in scratch copies of /repo and /verif and prints those that are not decided as expected.

Not used by any check.  CHECKS="C13 C14" restricts the checks, JOBS sets how many copies are tried at a time, EDITS names another list.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.path.realpath(os.path.join(VERIF, '..', 'repo'))


def attempt(e):
    d = tempfile.mkdtemp(prefix='edit-')
    bad = []
    try:
        shutil.copytree(REPO, d + '/repo', ignore=shutil.ignore_patterns('target', '.git'))
        shutil.copytree(VERIF, d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
        for f, old, new in e['edits']:
            p = os.path.join(d, 'repo', f)
            with open(p) as h:
                s = h.read()
            if old not in s:
                return e['name'], ['text to replace not found']
            with open(p, 'w') as h:
                h.write(s.replace(old, new, 1))
        codes = {}
        for c in os.environ['CHECKS'].split() if os.environ.get('CHECKS') else e['checks']:
            p = subprocess.run(['timeout', '900', 'python3', d + '/verif/check.py', c, 'quick'], capture_output=True, text=True)
            codes[c] = p.returncode
            if p.returncode and e['expect'] == 'quiet' or p.returncode not in (0, 1):
                t = (p.stdout if p.returncode == 1 else p.stderr).strip().splitlines()
                bad.append(f'{c} exit {p.returncode}: ' + ' / '.join(t[-3:])[:400])
        if e['expect'] == 'reported' and 1 not in codes.values():
            bad.append(f'not reported: {codes}')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return e['name'], bad


def main():
    with open(os.environ.get('EDITS') or os.path.join(HERE, 'edits.json')) as f:
        es = json.load(f)
    sel = sys.argv[1:]
    es = [e for e in es if not sel or any(e['name'].startswith(s) for s in sel)]
    n = 0
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        for name, bad in ex.map(attempt, es):
            for b in bad:
                print(f'{name}: {b}', flush=True)
            n += not bad
            print(f'  {name} {"as expected" if not bad else "NOT AS EXPECTED"}', flush=True)
    print(f'{n} of {len(es)} as expected')


main()
