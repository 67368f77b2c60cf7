"""Build and confirm planted bugs: python3 tools/seed.py [id ...]

Reads tools/seeds/*.py (SEEDS: id -> dict(property, edits, demo, needs, breaks)),
applies the edits to a scratch copy of /repo, runs tests and demo, and writes
seeded/<id>/ when everything holds.
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = json.load(open('/opt/vp/BASELINE.json'))
DEMO = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(*args, **kw):
    return subprocess.run(args, capture_output=True, text=True, **kw)


def make(sid, s):
    d = tempfile.mkdtemp(prefix='qaseed')
    try:
        r = os.path.join(d, 'repo')
        sh('git', 'clone', '-q', '/repo', r)
        for fn, a, b in s['edits']:
            p = os.path.join(r, fn)
            t = open(p).read()
            if t.count(a) < 1:
                return 'NOMATCH ' + a[:60]
            t = t.replace(a, b, 1)
            open(p, 'w').write(t)
        diff = sh('git', 'diff', cwd=r).stdout
        dd = os.path.join(d, 'demo')
        os.mkdir(dd)
        open(os.path.join(dd, 'demo.sh'), 'w').write(DEMO)
        open(os.path.join(dd, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        a = sh('bash', os.path.join(dd, 'demo.sh'), cwd='/repo')
        if a.returncode:
            return 'DEMO FAILS UNCHANGED ' + a.stdout[-300:] + a.stderr[-500:]
        b = sh('bash', os.path.join(dd, 'demo.sh'), cwd=r)
        if not b.returncode:
            return 'DEMO PASSES WITH BUG ' + b.stdout[-300:]
        t = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests', cwd=r,
               env=dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1'))
        if t.returncode:
            return 'TESTS FAIL ' + t.stdout[-500:]
        out = os.path.join(HERE, 'seeded', sid)
        os.makedirs(out, exist_ok=True)
        for f in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(dd, f), out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        c = sh(sys.executable, '-m', 'qa.run', s['property'], cwd=HERE,
               env=dict(os.environ, QA_REPO=r, QA_NOEVIDENCE='1'))
        return 'written; check rc=%s %s' % (c.returncode, (c.stdout.split('\n') + [''])[1][:160] if c.returncode == 1 else c.stdout[-300:])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    seeds = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        seeds.update(ns['SEEDS'])
    sel = sys.argv[1:] or list(seeds)
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for sid, res in zip(sel, ex.map(lambda k: make(k, seeds[k]), sel)):
            print(sid, seeds[sid]['property'], res)
