"""C05: histories of pattern dictionaries (DictLife.tla)."""
import copy
import json

import numpy as np

import gen
import tlc
from common import conform, pmap
from objects import FREE, Mismatch, build, close, dense, num, rmat, same_shapes, same_value
from session import call, flat_expected

import paragami


class OtherDict(paragami.PatternDict):
    """Dictionaries of a subclass must behave the same."""


KINDS = [paragami.PatternDict, OtherDict]


class Heap:
    """The real objects of one history."""
    def __init__(self, leaves):
        self.leaves = [build(l) for l in leaves]
        self.dicts = []

    def new(self, fd='N', kind=0):
        kw = {} if fd == 'N' else {'free_default': FREE[fd]}
        self.dicts.append(KINDS[kind](**kw))

    def ref(self, r):
        return self.leaves[r[1] - 1] if r[0] == 'l' else self.dicts[r[1] - 1]

    def apply(self, o):
        """Perform an operation; (status, value)."""
        try:
            if o['op'] == 'new':
                self.new(o['fd'], o.get('kind', 0))
                return 'ok', None
            d = self.dicts[o['i'] - 1]
            if o['op'] == 'set':
                d[o['key']] = self.ref(o['ref'])
            elif o['op'] == 'del':
                del d[o['key']]
            elif o['op'] == 'lock':
                d.lock()
            elif o['op'] == 'setfd':
                d.free_default = FREE[o['val']]
            elif o['op'] == 'get':
                return 'ok', d[o['key']]
            return 'ok', None
        except ValueError:
            return 'ValueError', None
        except KeyError:
            return 'KeyError', None

    def compare(self, heap, sizes):
        """The whole state against the specification's."""
        for i, (d, s, n) in enumerate(zip(self.dicts, heap, sizes)):
            ks = list(d.keys())
            if ks != s['keys']:
                raise Mismatch('dictionary %d has keys %r, expected %r' % (i + 1, ks, s['keys']))
            for k, r in zip(s['keys'], s['refs']):
                if d[k] is not self.ref(r):
                    raise Mismatch('dictionary %d holds %s under %r, expected %r' % (i + 1, d[k], k, r))
            got = [d.flat_length(True), d.flat_length(False)]
            if got != n:
                raise Mismatch('dictionary %d announces lengths %r, expected %r' % (i + 1, got, n))


def check_step(heap, o, rec_out, rec_heap, sizes):
    st, val = heap.apply(o)
    want = rec_out['st']
    if st not in want.split(' or '):
        raise Mismatch('%s gave %s, expected %s' % (o, st, want))
    if o['op'] == 'get' and st == 'ok' and val is not heap.ref(rec_out['x']):
        raise Mismatch('%s returned %r, expected %r' % (o, val, rec_out['x']))
    if o['op'] == 'look':
        look(heap.dicts[o['i'] - 1], rec_out['x'])
    heap.compare(rec_heap, sizes)


def look(d, x):
    """Everything a dictionary says about itself."""
    if list(d.keys()) != x['keys']:
        raise Mismatch('keys %r, expected %r' % (list(d.keys()), x['keys']))
    st = x['len']['st']
    n = call(lambda: d.flat_length(), st, 'flat_length()')
    if st == 'ok' and n != x['len']['x']:
        raise Mismatch('flat_length() is %r, expected %r' % (n, x['len']['x']))
    for f, names, m in zip((True, False), x['names'], x['lens']):
        got = [str(s) for s in d.flat_names(f)]
        if got != names:
            raise Mismatch('flat_names %r, expected %r' % (got, names))
        if d.flat_length(f) != m:
            raise Mismatch('flat_length(%s) is %r, expected %r' % (f, d.flat_length(f), m))
    v = d.empty(True)
    same_value(v, x['v'], 1e-13, 'empty(True)')
    for flag in (True, False):
        same_shapes(d.empty_bool(flag), skeleton(x['v']), 'empty_bool')
        ix = d.flat_indices(d.empty_bool(flag), free=False)
        if list(ix) != (list(range(x['lens'][1])) if flag else []):
            raise Mismatch('flat_indices %r of an all-%s mask' % (ix, flag))
    for f, want in ((True, x['free']), (False, x['raw'])):
        flat = d.flatten(v, free=f)
        close(flat, flat_expected(want), 1e-12, 'flatten(free=%s)' % f)
        same_value(d.fold(flat, free=f), x['v'], 1e-12, 'fold(free=%s)' % f)
        longer = np.append(flat, 0.5)
        call(lambda: d.fold(longer, free=f), 'ValueError', 'fold of a longer vector')
    ok, _ = d.validate_folded(v)
    if not ok:
        raise Mismatch('empty(True) is not valid')
    if x['keys']:
        short = {k: v[k] for k in x['keys'][1:]}
        if d.validate_folded(short)[0]:
            raise Mismatch('a value lacking %r is accepted' % x['keys'][0])
    same_shapes(d.random(), skeleton(x['v']), 'random()')
    u = rmat(x['u'])
    close(dense(d.unfreeing_jacobian(v)), u, 1e-10, 'unfreeing_jacobian')
    close(dense(d.unfreeing_jacobian(v, sparse=False)), u, 1e-10, 'unfreeing_jacobian')
    f = dense(d.freeing_jacobian(v, sparse=False))
    if f.shape != u.T.shape:
        raise Mismatch('freeing_jacobian has shape %s' % (f.shape,))
    close(f @ u, np.eye(u.shape[1]), 1e-9, 'freeing @ unfreeing')


def skeleton(v):
    if 'ks' in v:
        return {'ks': v['ks'], 'vs': [skeleton(s) for s in v['vs']]}
    return {'sh': v['sh']}


def run_history(b, outs):
    heap = Heap(b['leaves'])
    for i, (o, rec) in enumerate(zip(b['ops'], outs)):
        try:
            check_step(heap, o, rec['out'], rec['h'], rec['n'])
        except Mismatch as e:
            raise Mismatch('after %s: %s' % (b['ops'][:i + 1], e))


def run_edges(case, states):
    """Replay transitions: reach each state along its path, then take them all."""
    count = 0
    for path, todo in states:
        def fresh():
            heap = Heap(case['leaves'])
            for i in range(case['dicts']):
                heap.new('N', case['kinds'][i])
            for o in path:
                st, _ = heap.apply(o)
                if st != 'ok':
                    raise Mismatch('%s in %s gave %s' % (o, path, st))
            return heap
        heap = None
        for o, out, t, n, same in todo:
            if heap is None:
                heap = fresh()
            try:
                check_step(heap, o, out, t, n)
            except Mismatch as e:
                raise Mismatch('after %s: %s' % (path + [o], e))
            if not same:
                heap = None     # the operation changed the state
            count += 1
    return count


def num_leaf(n, lo=0):
    return {'k': 'num', 'cls': 'arr', 'sh': [n], 'lo': [lo, 1], 'hi': [], 'dv': True, 'fd': 'N'}


def psd_leaf(n):
    return {'k': 'psd', 'n': n, 'lb': [0, 1], 'dv': True, 'fd': 'T'}


def sim_leaf(n):
    return {'k': 'sim', 'n': n, 'sh': [2], 'dv': True, 'fd': 'F'}


def exhaust(chk, part, req, rng):
    res = tlc.run('DictLifeMC', req={k: req[k] for k in ('dicts', 'keys', 'leaves')})
    if res.error is not None:
        raise tlc.TLCError('TLC failed on DictLifeMC:\n' + res.error)
    chk.add_tlc({'states': res.distinct, 'transitions': len(res.records)}, part)
    key = lambda s: json.dumps(s, sort_keys=True)
    edges = {}
    for r in res.records:
        f, t = key(r['f']), key(r['t'])
        o = r['o']
        edges.setdefault(f, []).append((o, r['out'], r['t'], r['n'], f == t, t))
    start = [k for k in edges if all(not d['keys'] and not d['locked'] for d in json.loads(k))][0]
    paths = {start: []}
    queue = [start]
    for f in queue:
        for o, out, t, n, same, tk in edges[f]:
            if tk not in paths:
                paths[tk] = paths[f] + [o]
                queue.append(tk)
    if set(paths) != set(edges):
        raise tlc.TLCError('unreachable states')
    states = []
    for f, es in edges.items():
        todo = [e[:5] for e in es]
        rng.shuffle(todo)
        states.append((paths[f], todo))
    rng.shuffle(states)
    parts = [states[i::16] for i in range(16)]
    out = pmap(run_edges, [req] * 16, parts, force=True)
    for p, r in zip(parts, out):
        chk.validated(part, sum(len(t) for _, t in p))
        if r is not None:
            chk.violation('%s: %s' % (part, r), {'module': 'DictLifeMC', 'req': req})
    chk.exhaustive[part] = True


def histories(r, count, length):
    bs = []
    for _ in range(count):
        leaves = []
        while len(leaves) < 4:
            t = gen.rand_tree(r, r.choice([0, 1]), maxlen=6, psdmax=2,
                              want=r.choice(['leaf', 'leaf', 'parr']))
            gen.set_defaults(r, t)
            if t['k'] != 'dict':
                leaves.append(t)
        keys = r.sample(gen.KEYS, 4)
        ops = []
        n = 0
        below = {}      # only to avoid asking for cycles
        held = {}
        for _ in range(length):
            if n == 0 or n < 6 and r.random() < .15:
                ops.append({'op': 'new', 'fd': r.choice('NNTF'), 'kind': r.choice([0, 0, 0, 1])})
                n += 1
                continue
            i = r.randint(1, n) if r.random() < .6 else n
            c = r.random()
            if c < .45:
                if r.random() < .3:
                    ref = ['d', r.randint(1, n)]
                else:
                    ref = ['l', r.randint(1, len(leaves))]
                if ref[0] == 'd':
                    # edges ever asked for must stay acyclic
                    if ref[1] == i or _reach(held, ref[1], i):
                        ref = ['l', 1]
                    else:
                        held.setdefault(i, set()).add(ref[1])
                ops.append({'op': 'set', 'i': i, 'key': r.choice(keys), 'ref': ref})
            elif c < .65:
                ops.append({'op': 'del', 'i': i, 'key': r.choice(keys)})
            elif c < .69:
                ops.append({'op': 'lock', 'i': i})
            elif c < .73:
                ops.append({'op': 'setfd', 'i': i, 'val': r.choice('NTF')})
            elif c < .8:
                ops.append({'op': 'get', 'i': i, 'key': r.choice(keys)})
            else:
                ops.append({'op': 'look', 'i': i})
        ops += [{'op': 'look', 'i': i + 1} for i in range(n)]
        bs.append({'leaves': leaves, 'ops': ops})
    return bs


def _reach(held, a, b):
    return a == b or any(_reach(held, c, b) for c in held.get(a, ()))


def c05(chk):
    r = gen.rng_for(chk.seed, 'C05')
    exhaust(chk, 'all histories of two dictionaries',
            {'dicts': 2, 'keys': ['b', 'a'], 'leaves': [num_leaf(2), psd_leaf(2)], 'kinds': [0, 0]}, r)
    if chk.thorough:
        exhaust(chk, 'all histories of three dictionaries',
                {'dicts': 3, 'keys': ['k', 'c'], 'leaves': [sim_leaf(3)], 'kinds': [0, 1, 0]}, r)
        exhaust(chk, 'all histories of two dictionaries with three keys',
                {'dicts': 2, 'keys': ['k', 'c', 'y'], 'leaves': [num_leaf(1), sim_leaf(2)],
                 'kinds': [1, 0]}, r)
    conform(chk, 'long histories', 'DictLifeReplay',
            histories(r, chk.n(120, 1500), chk.n(40, 60)), run_history, send=('leaves', 'ops'))
