"""Run TLC on the specifications in /verif/spec and read what it emits."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    """The machinery failed (never a verdict about the code)."""


# TLC keeps only the low byte of the characters of a string when it writes a
# state to disk, so other characters travel in an escaped form.
def _escape(s):
    return ''.join(c if ' ' <= c < '\x7f' and c != '~' else '~%x~' % ord(c) for c in s)


def _unescape(s):
    return re.sub('~([0-9a-f]+)~', lambda m: chr(int(m.group(1), 16)), s) if '~' in s else s


def strings(x, f):
    """x with f applied to every string in it."""
    if isinstance(x, str):
        return f(x)
    if isinstance(x, dict):
        return {f(k): strings(v, f) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [strings(v, f) for v in x]
    return x


def _decode(line):
    # PrintT of a string prints it quoted, with \" and \\ escaped.
    body = line[1:-1]
    out = []
    i = 0
    while i < len(body):
        c = body[i]
        if c == '\\' and i + 1 < len(body):
            i += 1
            c = {'n': '\n', 't': '\t'}.get(body[i], body[i])
        out.append(c)
        i += 1
    return strings(json.loads(''.join(out)), _unescape)


class Result:
    def __init__(self):
        self.records = []
        self.states = 0
        self.distinct = 0
        self.error = None       # None, or text of the failure
        self.bad_b = None       # behaviour number in the error trace
        self.invariant = None
        self.actions = {}


def run(module, cfg=None, req=None, env=None, workers=8, timeout=800, coverage=False,
        extra=()):
    """One TLC run.  `req` is made available to the specification as IOEnv.REQ."""
    work = tempfile.mkdtemp(prefix='tlc_')
    try:
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        if req is not None:
            path = os.path.join(work, 'req.json')
            with open(path, 'w') as f:
                json.dump(strings(req, _escape), f)
            e['REQ'] = path
        for k, v in (env or {}).items():
            e[k] = str(v)
        cmd = ['java', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8', '-XX:+UseParallelGC', '-Xss64m', '-Xmx6g', '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-noGenerateSpecTE', '-metadir',
               os.path.join(work, 'meta'), '-config', (cfg or module) + '.cfg']
        if coverage:
            cmd += ['-coverage', '1']
        cmd += list(extra) + [module + '.tla']
        res = Result()
        proc = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, universal_newlines=True, encoding='utf-8')
        killed = []

        def kill(why):
            killed.append(why)
            proc.kill()
        guard = threading.Timer(timeout, kill, ('timeout',))
        guard.start()
        after_error = None
        lines = []
        for line in proc.stdout:
            lines.append(line.rstrip('\n'))
            if line.startswith('Error:') and after_error is None:
                # After an evaluation error TLC prints the trace at once and
                # then may spend very long on reconstructing the call stack.
                after_error = threading.Timer(5, kill, ('error',))
                after_error.start()
        rc = proc.wait()
        guard.cancel()
        if after_error:
            after_error.cancel()
        if 'timeout' in killed:
            raise TLCError('TLC timed out on ' + module)
        other = []
        for line in lines:
            if line.startswith('"{') and line.endswith('"'):
                res.records.append(_decode(line))
            else:
                other.append(line)
        text = '\n'.join(other)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
        if m:
            res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
        for m in re.finditer(r'<(\w+) line \d+.*?>: (\d+):(\d+)', text):
            res.actions[m.group(1)] = res.actions.get(m.group(1), 0) + int(m.group(3))
        if rc != 0 or 'Model checking completed. No error' not in text:
            res.error = text[-6000:]
            m = re.search(r'Invariant (\w+) is violated', text)
            if m:
                res.invariant = m.group(1)
            bs = re.findall(r'^/\\ b = (\d+)', text, re.M)
            if bs:
                res.bad_b = int(bs[-1])
            res.text = text
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(module, behaviours, cfg=None, workers=8, timeout=800, env=None, batch=800):
    """Run the requested behaviours through a *Replay specification.

    `behaviours` is a list of records with a list `ops`.  Returns (outs, stats)
    where outs[i] is the list of outcomes of behaviour i, or None for the few
    behaviours that exceed TLC's 32-bit integers.
    """
    count = -(-len(behaviours) // batch) or 1
    parts = [behaviours[i::count] for i in range(count)]
    outs = [None] * len(behaviours)
    stats = {}
    with ThreadPoolExecutor(2) as ex:
        jobs = [ex.submit(_replay, module, p, cfg, workers if count == 1 else workers // 2, timeout, env)
                for p in parts]
        for i, j in enumerate(jobs):
            o, st = j.result()
            outs[i::count] = o
            for k, v in st.items():
                stats[k] = stats.get(k, 0) + v
    return outs, stats


def _replay(module, behaviours, cfg, workers, timeout, env):
    outs = [None] * len(behaviours)
    stats = {'states': 0, 'transitions': 0, 'dropped': 0, 'runs': 0}
    pending = list(range(len(behaviours)))
    while pending:
        res = run(module, cfg=cfg, req=[behaviours[i] for i in pending],
                  workers=workers, timeout=timeout, env=env)
        stats['runs'] += 1
        stats['states'] += res.distinct
        got = {}
        for r in res.records:
            got.setdefault(r['b'], {})[r['k']] = r
        done = []
        for j, i in enumerate(pending):
            steps = got.get(j + 1, {})
            n = len(behaviours[i]['ops'])
            if len(steps) == n and (res.error is None or j + 1 != res.bad_b):
                outs[i] = [steps[k + 1] for k in range(n)]
                stats['transitions'] += n
                done.append(i)
        if res.error is None:
            if len(done) != len(pending):
                missing = [i for i in pending if i not in set(done)][0]
                j = pending.index(missing)
                raise TLCError('%s took no step: behaviour %r after %d steps' % (
                    module, behaviours[missing], len(got.get(j + 1, {}))))
            break
        if res.bad_b is None or res.invariant or not ('verflow' in res.text):
            raise TLCError('TLC failed on %s:\n%s' % (module, res.error))
        bad = pending[res.bad_b - 1]
        stats['dropped'] += 1
        if stats['runs'] > 30 + len(behaviours) // 8:
            raise TLCError('too many overflowing requests in ' + module)
        # A behaviour that overflowed in an invariant was emitted already but is
        # dropped too: only completely checked behaviours are used.
        outs[bad] = None
        pending = [i for i in pending if i != bad and outs[i] is None]
    return outs, stats
