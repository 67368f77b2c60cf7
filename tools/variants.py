"""Self-test of the checkers: python3 tools/variants.py [PROP ...]

Applies small edits to scratch copies of /repo and runs the checks on them.
`bad` variants must be reported, `good` ones (behaviour kept) must stay quiet.
"""
import concurrent.futures
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'variants', '*.py'))):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        out.extend(ns['VARIANTS'])
    return out


def run(v, extra=()):
    prop, expect, path, edits = v[:4]
    d = tempfile.mkdtemp(prefix='qav')
    try:
        shutil.copytree('/repo/quickly', os.path.join(d, 'quickly'), ignore=shutil.ignore_patterns('__pycache__'))
        edits = [(path, a, b) for a, b in edits] + [e for e in (v[4] if len(v) > 4 else ())]
        for fn, a, b in edits:
            p = os.path.join(d, fn)
            s = open(p).read()
            if a not in s:
                return v, 'NOMATCH ' + a[:60]
            s = s.replace(a, b, 1)
            open(p, 'w').write(s)
            try:
                compile(s, p, 'exec')
            except SyntaxError as e:
                return v, 'SYNTAX %s' % e
        props = [prop] if prop != '*' else allprops()
        out = []
        bad = False
        for pr in props:
            r = subprocess.run([sys.executable, '-m', 'qa.run', pr], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, QA_REPO=d, QA_NOEVIDENCE='1'))
            want = 1 if expect == 'bad' else 0
            if r.returncode != want:
                bad = True
                out.append('%s rc=%s %s%s' % (pr, r.returncode, r.stdout[-600:], r.stderr[-400:]))
            elif expect == 'bad':
                out.append(r.stdout.split('\n')[1][:150])
            elif 'undecided' in r.stdout and ' 0 undecided' not in r.stdout:
                out.append(r.stdout[-300:])
        return v, ('FAIL ' if bad else 'ok ') + ' | '.join(out)
    finally:
        shutil.rmtree(d)


def allprops():
    return sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, 'qa/checks/[A-Z]*.py')))


if __name__ == '__main__':
    sel = sys.argv[1:]
    vs = [v for v in load() if not sel or v[0] in sel]
    n = fails = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for v, res in ex.map(run, vs):
            n += 1
            if not res.startswith('ok'):
                fails += 1
            if not res.startswith('ok') or '-v' in sys.argv or res != 'ok ':
                print(v[0], v[1], v[2], repr(v[3][0][1][:70]) if v[3] else '', '->', res)
    print(n, 'variants', fails, 'failures')
