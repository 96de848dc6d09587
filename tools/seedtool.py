"""Planted bugs: build the folders under seeded/ from definitions, confirm
them in scratch copies of /repo, and run checks against them.

  seedtool.py make DEFS.py [ID...]   create and confirm seeded/<id>
  seedtool.py run [-p PROP] [ID...]  run the matching (or given) check on each
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '363b779'
ENV = dict(os.environ, HOME='/root', LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1')


def sh(cmd, cwd, timeout=600, **env):
    p = subprocess.run(cmd, cwd=cwd, shell=True, text=True, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(ENV, **env))
    return p.returncode, p.stdout


def scratch():
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
    return d, r


def stable(root):
    b = json.load(open('/opt/vp/BASELINE.json'))
    want = b if isinstance(b, list) else next(v for v in b.values() if isinstance(v, list))
    junit = os.path.join(os.path.dirname(root), 'junit.xml')
    rc, out = sh(PY + ' -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 '
                 '--junitxml=%s paragami' % junit, root)
    o = os.path.join(os.path.dirname(root), 'o.json')
    sh('python3 /opt/vp/results.py %s junit:%s' % (o, junit), root)
    got = json.load(open(o))
    return sorted(set(map(str, want)) - set(got['passed'])), out


def make(d):
    name = d['id']
    tmp, root = scratch()
    try:
        msgs = []
        for e in d['edits']:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else None
            p = os.path.join(root, 'paragami', f)
            s = open(p).read()
            n = s.count(old)
            if n == 0 or (n > 1 and nth is None):
                return name, False, '%d matches of %r' % (n, old)
            if nth is None:
                nth = 0
            pos = -1
            for _ in range(nth + 1):
                pos = s.find(old, pos + 1)
            open(p, 'w').write(s[:pos] + new + s[pos + len(old):])
        rc, diff = sh('git diff -- paragami', root)
        # only original lines
        out = os.path.join(VERIF, 'seeded', name)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.py'), 'w').write(
            'import os\nimport sys\nsys.path.insert(0, os.getcwd())\nimport warnings\n'
            'warnings.simplefilter("ignore")\nimport numpy as np\nimport paragami\n' + d['demo'].strip('\n') + '\n')
        open(os.path.join(out, 'demo.sh'), 'w').write(
            '#!/bin/sh\n# run in /repo; exit 0 when the property holds\n'
            'exec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': d['property'], 'needs': d['needs'],
                   'what_it_breaks': d['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        orig = removed_original(root)
        if not orig:
            msgs.append('NO ORIGINAL LINES CHANGED')
        rc, o = sh(os.path.join(out, 'demo.sh'), '/repo')
        if rc:
            msgs.append('demo fails on clean: ' + o[-600:])
        rc, o = sh(os.path.join(out, 'demo.sh'), root)
        if rc == 0:
            msgs.append('demo passes with the bug: ' + o[-300:])
        missing, o = stable(root)
        if missing:
            msgs.append('tests fail: %s' % missing[:5])
        return name, not msgs, '; '.join(msgs)
    finally:
        shutil.rmtree(tmp)


def removed_original(root):
    rc, diff = sh('git diff -U0 -- paragami', root)
    f = None
    n = 0
    for line in diff.split('\n'):
        if line.startswith('--- a/'):
            f = line[6:]
        elif line.startswith('@@'):
            old = line.split()[1][1:]
            a, c = (old.split(',') + ['1'])[:2]
            if int(c):
                rc, b = sh('git blame -s -L %s,+%s HEAD -- %s' % (a, c, f), root)
                n += sum(1 for x in b.split('\n') if BASE in x[:12])
    return n


def run_one(name, prop, verbose=False, seed='1', extra=''):
    folder = os.path.join(VERIF, 'seeded', name)
    tmp, root = scratch()
    try:
        rc, o = sh('git apply %s/patch.diff' % folder, root)
        if rc:
            return name, prop, 'NOAPPLY ' + o
        ev = os.path.join(tmp, 'ev')
        rc, o = sh('%s/check %s --quick %s' % (VERIF, prop, extra), VERIF, timeout=1800,
                   PARAGAMI_REPO=root, VERIF_SEED=seed, VERIF_TIER='quick',
                   PARAGAMI_EVIDENCE=ev)
        v = [x for x in o.split('\n') if x.startswith('VIOLATION property=' + prop)]
        res = 'caught' if rc == 1 and v else 'MISSED' if rc == 0 else 'ERROR rc=%s' % rc
        return name, prop, res + ('' if not verbose and res == 'caught' else '\n' + o[-1500:] if res != 'MISSED' else '')
    finally:
        shutil.rmtree(tmp)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        ns = {}
        exec(open(args[0]).read(), ns)
        defs = [d for d in ns['BUGS'] if not args[1:] or d['id'] in args[1:]]
        with ThreadPoolExecutor(6) as ex:
            for name, ok, msg in ex.map(make, defs):
                print('%-28s %s %s' % (name, 'ok' if ok else 'BAD', msg))
                if not ok and '--keep' not in sys.argv:
                    shutil.rmtree(os.path.join(VERIF, 'seeded', name), ignore_errors=True)
    elif cmd == 'run':
        props = None
        if args and args[0] == '-p':
            props, args = args[1].split(','), args[2:]
        names = args or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
        jobs = []
        for n in names:
            meta = json.load(open(os.path.join(VERIF, 'seeded', n, 'meta.json')))
            for p in props or [meta['property']]:
                jobs.append((n, p))
        with ThreadPoolExecutor(2) as ex:
            for n, p, r in ex.map(lambda j: run_one(*j), jobs):
                print('%-28s %s %s' % (n, p, r), flush=True)


main()
