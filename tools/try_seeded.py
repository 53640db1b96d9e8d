"""Tries planted bugs in scratch copies of /repo.

    try_seeded.py [--tests] [--demo] [--checks own|all|C01,C02] [ids...]

For each /verif/seeded/<id>: applies patch.diff to a copy, optionally runs the
test suite and the demonstration on it (and the demonstration on the clean
copy), then the checks with VERIF_REPO pointing at the copy.  Results go to
stdout and, for --checks, to /tmp/seeded-matrix.json.
"""

import argparse
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SCRATCH = '/tmp/vmon-seeded'
MATRIX = '/tmp/seeded-matrix.json'
ALL = [f'C{i:02d}' for i in range(1, 30) if os.path.exists(f'{ROOT}/vmon/checks/c{i:02d}.py')]


def sh(cmd, cwd, env=None, timeout=900):
    e = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'VERIF_REPO')}
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, capture_output=True, text=True)


def fresh(name, patch=None):
    d = f'{SCRATCH}/{name}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(f'git -C /repo archive HEAD | tar x -C {d}', shell=True, check=True)
    if patch:
        r = sh(['git', 'apply', '--unsafe-paths', f'--directory={d}', patch], '/')
        if r.returncode:
            sys.exit(f'{patch} does not apply: {r.stderr}')
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--tests', action='store_true')
    ap.add_argument('--demo', action='store_true')
    ap.add_argument('--checks', default='')
    ap.add_argument('--seed', default='1')
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(f'{ROOT}/seeded'))
    matrix = json.load(open(MATRIX)) if os.path.exists(MATRIX) else {}
    clean = fresh('clean')
    for i in ids:
        sd = f'{ROOT}/seeded/{i}'
        meta = json.load(open(f'{sd}/meta.json'))
        d = fresh(i, f'{sd}/patch.diff')
        line = [i, meta['property']]
        if a.tests:
            r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60'], d, {'PYTHONPATH': f'{d}/src'})
            line.append('tests ' + (r.stdout.strip().splitlines() or ['?'])[-1])
        if a.demo:
            lay = f'{SCRATCH}/demo-{i}'
            shutil.rmtree(lay, ignore_errors=True)
            shutil.copytree(sd, lay, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
            ok = sh(['bash', f'{lay}/demo.sh'], clean, timeout=300)
            bad = sh(['bash', f'{lay}/demo.sh'], d, timeout=300)
            line.append(f'demo clean={ok.returncode} patched={bad.returncode}')
            if ok.returncode or not bad.returncode:
                line.append('DEMO-WRONG ' + (ok.stderr or bad.stdout)[-300:])
            shutil.rmtree(lay)
        if a.checks:
            which = ALL if a.checks == 'all' else [meta['property']] if a.checks == 'own' else a.checks.split(',')
            row = matrix.setdefault(i, {})
            for c in which:
                r = sh([f'{ROOT}/bin/check', c], ROOT, {'VERIF_REPO': d, 'VERIF_TIER': 'quick', 'VERIF_SEED': a.seed})
                row[c] = r.returncode
                if r.returncode not in (0, 1):
                    line.append(f'{c}: exit {r.returncode} {r.stdout[-200:]}{r.stderr[-200:]}')
            caught = [c for c in which if row[c] == 1]
            line.append('caught by ' + (' '.join(caught) or 'NONE'))
            if meta['property'] in which and row[meta['property']] != 1:
                line.append('OWN-MISSED')
            json.dump(matrix, open(MATRIX, 'w'), indent=0, sort_keys=True)
        print(' | '.join(line), flush=True)
        shutil.rmtree(d)


main()
