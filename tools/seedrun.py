"""Try planted bugs in scratch copies of /repo (development tool; no check uses it).

  seedrun.py ID...            verify patch, tests and demonstration, then run the check of its property
  options: --notest --nocheck --tier quick|thorough --check ID (other check)
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def tests(wt):
    scr = tempfile.mkdtemp(prefix='seedt_')
    env = dict(PROJECT_DIR_FRM=wt, PYTHONPATH=wt, MPLBACKEND='Agg', MPLCONFIGDIR=scr, TZ='UTC', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX=scr + '/pyc', NUMBA_CACHE_DIR=scr + '/numba')
    sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={scr}/j.xml tests', wt, env)
    rc, out = sh(f'/usr/bin/python3 /opt/vp/results.py {scr}/o.json junit:{scr}/j.xml', wt)
    got = set(json.load(open(scr + '/o.json'))['passed'])
    shutil.rmtree(scr)
    return [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in got]


def one(sid, a):
    d = os.path.join(V, 'seeded', sid)
    meta = json.load(open(d + '/meta.json'))
    wt = tempfile.mkdtemp(prefix='seedwt_')
    r = [sid, meta['property']]
    try:
        sh(f'cp -a /repo/. {wt}/', '/')
        sh('git checkout -q -- .', wt)
        rc0, o0 = sh(f'bash {d}/demo.sh', wt)
        rc, o = sh(f'git apply {d}/patch.diff', wt)
        if rc:
            return r + ['patch does not apply ' + o]
        rc1, o1 = sh(f'bash {d}/demo.sh', wt)
        r.append('demo ok' if rc0 == 0 and rc1 != 0 else f'DEMO BAD clean={rc0} bug={rc1} {o0[-300:]} {o1[-300:]}')
        if not a.notest:
            miss = tests(wt)
            r.append('tests ok' if not miss else f'TESTS FAIL {miss[:3]}')
        if not a.nocheck:
            c = a.check or meta['property']
            rc, o = sh(f'{V}/check {c} {a.tier}', V, dict(FRM_REPO=wt))
            v = [l for l in o.splitlines() if l.startswith('  clause')]
            r.append(('CAUGHT ' if rc == 1 else f'MISSED rc={rc} ' + o[-300:]) + '; '.join(x.strip()[:110] for x in v[:2]))
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    return r


ap = argparse.ArgumentParser()
ap.add_argument('ids', nargs='*')
ap.add_argument('--notest', action='store_true')
ap.add_argument('--nocheck', action='store_true')
ap.add_argument('--tier', default='quick')
ap.add_argument('--check')
ap.add_argument('-j', type=int, default=2)
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(os.path.join(V, 'seeded')))
with ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(lambda i: one(i, a), ids):
        print(' | '.join(r), flush=True)
