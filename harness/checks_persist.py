"""C09 C10: JSON, equality, type registry and files (Persist.tla)."""
import copy
import io
import itertools
import json
import os
import pathlib
import random
import shutil
import tempfile
from fractions import Fraction as Fr

import numpy as np

import gen
import tlc
from checks_patterns import HOWS, disturb, flatten_op, fold_op, op
from common import conform, edges, pmap
from gen import rj
from live import history, run_live
from objects import FREE, Mismatch, UserArray, build, users, value
from session import call, dress, one, run_session

import paragami

CLASSES = {c.__name__: c for c in (
    paragami.NumericArrayPattern, paragami.NumericVectorPattern, paragami.NumericScalarPattern,
    paragami.PSDSymmetricMatrixPattern, paragami.SimplexArrayPattern, paragami.PatternDict,
    paragami.PatternArray)}
_fresh = itertools.count()


# ------------------------------------------------------------ inputs
def mutate(r, p):
    """A copy of p with one describing setting changed somewhere (mostly)."""
    q = copy.deepcopy(p)
    nodes = list(gen.paths(q))
    path, n = r.choice(nodes)
    k = n['k']
    what = r.choice({'num': ['lo', 'hi', 'lo', 'hi', 'sh', 'cls', 'dv', 'fd', 'none'],
                     'psd': ['n', 'lb', 'dv', 'fd', 'none'], 'sim': ['n', 'sh', 'dv', 'fd', 'none'],
                     'dict': ['order', 'rename', 'drop', 'fd', 'add', 'none'],
                     'parr': ['sh', 'fd', 'base', 'none']}[k])
    if what == 'fd':
        n['fd'] = r.choice([f for f in 'NTF' if f != n['fd']])
    elif what == 'dv':
        n['dv'] = not n['dv']
    elif what in ('lo', 'hi'):
        b = n[what]
        other = n['hi' if what == 'lo' else 'lo']
        if b and r.random() < .4 :
            n[what] = []
        elif b:
            d = r.choice([Fr(1, 1 << 20), Fr(1), Fr(1, 8), Fr(100)])
            n[what] = rj(Fr(*b) + (-d if what == 'lo' else d))
        elif other:
            n[what] = rj(Fr(*other) + (-2 if what == 'lo' else 2))
        else:
            n[what] = rj(r.choice([Fr(0), Fr(-1), Fr(1, 3)]))
    elif what == 'sh' and k == 'num':
        if n['cls'] == 'arr':
            n['sh'] = r.choice([n['sh'][::-1], n['sh'] + [1], [gen.prod(n['sh'])], [1] + n['sh']])
        elif n['cls'] == 'vec':
            n['sh'] = [n['sh'][0] + 1]
    elif what == 'cls':
        # the same array described by another type
        if n['cls'] == 'arr' and len(n['sh']) == 1:
            n['cls'] = 'vec'
        elif n['cls'] == 'vec':
            n['cls'] = 'arr' if n['sh'] != [1] or r.random() < .5 else 'sca'
        elif n['cls'] == 'sca':
            n['cls'] = r.choice(['arr', 'vec'])
    elif what == 'n':
        n['n'] += 1
    elif what == 'lb':
        n['lb'] = rj(Fr(*n['lb']) + r.choice([Fr(1, 1 << 20), Fr(1), Fr(1, 2)]))
    elif what == 'sh':
        n['sh'] = r.choice([n['sh'][::-1], n['sh'] + [1], [1] + n['sh'], [gen.prod(n['sh'])]])
    elif what == 'order' and len(n['keys']) > 1:
        ix = list(range(len(n['keys'])))
        r.shuffle(ix)
        n['keys'] = [n['keys'][i] for i in ix]
        n['subs'] = [n['subs'][i] for i in ix]
    elif what == 'rename' and n['keys']:
        n['keys'][r.randrange(len(n['keys']))] = 'renamed'
    elif what == 'drop' and n['keys']:
        i = r.randrange(len(n['keys']))
        del n['keys'][i], n['subs'][i]
    elif what == 'add':
        n['keys'].append('added')
        n['subs'].append(gen.rand_leaf(r))
    elif what == 'base':
        n['base'] = gen.some_leaf(r)
    return q


def loose(p, r):
    """The same pattern built from ints, floats, numpy numbers, lists."""
    fd = FREE[p['fd']]

    def bnd(b, default):
        if not b:
            return default
        x = Fr(*b)
        if x.denominator == 1:
            return r.choice([int, float, np.float64, np.int64])(int(x))
        return r.choice([float, np.float64])(float(x))

    def shp(s):
        return r.choice([tuple(s), tuple(np.int64(i) for i in s), np.array(s, dtype=int)]) \
            if len(s) else ()
    k = p['k']
    if k == 'num':
        kw = dict(lb=bnd(p['lo'], -float('inf')), ub=bnd(p['hi'], float('inf')),
                  default_validate=p['dv'], free_default=fd)
        if p['cls'] == 'arr':
            if users(p):
                return UserArray(shp(p['sh']), kw['lb'], kw['ub'], p['dv'], fd)
            return paragami.NumericArrayPattern(shape=shp(p['sh']), **kw)
        if p['cls'] == 'vec':
            return paragami.NumericVectorPattern(r.choice([int, np.int64])(p['sh'][0]), **kw)
        return paragami.NumericScalarPattern(**kw)
    if k == 'psd':
        return paragami.PSDSymmetricMatrixPattern(
            r.choice([int, np.int64])(p['n']), diag_lb=bnd(p['lb'], 0), default_validate=p['dv'],
            free_default=fd)
    if k == 'sim':
        return paragami.SimplexArrayPattern(
            r.choice([int, np.int64])(p['n']), shp(p['sh']), default_validate=p['dv'], free_default=fd)
    if k == 'dict':
        d = paragami.PatternDict(free_default=fd)
        for key, s in zip(p['keys'], p['subs']):
            d[key] = loose(s, r)
        return d
    return paragami.PatternArray(shp(p['sh']), loose(p['base'], r), free_default=fd)


# ------------------------------------------------------------ the real side
def decode(obj, how):
    s = obj.to_json()
    if how == 'transport':
        s = json.dumps(json.loads(s), indent=2)
    if how == 'class':
        return type(obj).from_json(s)
    return paragami.get_pattern_from_json(s)


class World:
    """The real files and classes of one history."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='persist_')
        self.mem = {}
        self.saved = {}         # save number -> (value, pattern, data)
        self.prefix = 'vfy%d_%d' % (os.getpid(), next(_fresh))
        self.cls = {}

    def close(self):
        shutil.rmtree(self.dir)

    # -- registry
    def klass(self, name, c):
        if (name, c) not in self.cls:
            base = [paragami.NumericScalarPattern, paragami.NumericScalarPattern][c % 2]
            mod, _, short = name.rpartition('.')
            self.cls[name, c] = type(short, (base,), {
                '__module__': self.prefix + ('.' + mod if mod else ''), 'tag': c})
        return self.cls[name, c]

    def registry(self, o, out):
        st = out['st']
        if o['op'] == 'register':
            c = self.klass(o['name'], o['cls'])
            if o['overwrite']:
                fn = lambda: paragami.register_pattern_json(c, allow_overwrite=True)
            else:
                fn = lambda: paragami.register_pattern_json(c)
            call(fn, st, 'register_pattern_json')
            return
        if o['name'] == '':
            call(lambda: paragami.get_pattern_from_json(json.dumps({'lb': 0.0})), st, 'decoding')
            return
        made = self.klass(o['name'], 9)(lb=-2, free_default=True)
        for wrap in (False, True):
            doc = made.to_json()
            if wrap:
                holder = paragami.PatternDict()
                holder['x'] = made
                doc = holder.to_json()
            got = call(lambda: paragami.get_pattern_from_json(doc), st, 'get_pattern_from_json')
            if st != 'ok':
                continue
            got = got['x'] if wrap else got
            want = self.klass(o['name'], out['x'])
            if type(got) is not want:
                raise Mismatch('decoded with %r (%r), expected class number %d' % (
                    type(got), getattr(got, 'tag', None), out['x']))
            if not got == want(lb=-2, free_default=True):
                raise Mismatch('decoded to another pattern: %r' % got.to_json())

    # -- files
    def path(self, f, spelling):
        p = os.path.join(self.dir, f)
        if spelling == 'bare':
            return p
        if spelling == 'pathlib':
            return pathlib.Path(p + '.npz')
        return p + '.npz'

    def files(self):
        out = {}
        for n in os.listdir(self.dir):
            with open(os.path.join(self.dir, n), 'rb') as f:
                out[n] = f.read()
        return out

    def save(self, o, opt, out):
        p, v = make_value(o, opt)
        before = snapshot(v), p.to_json()
        data = make_data(opt.get('data', 0), o['n'])
        files = self.files()
        f, spelling = o['file']
        if spelling == 'mem':
            handle = io.BytesIO()
        elif spelling == 'handle':
            handle = None
        else:
            handle = self.path(f, spelling)
        st = out['st']
        if spelling == 'handle':
            if st == 'ok':
                with open(self.path(f, 'npz'), 'wb') as h:
                    call(lambda: paragami.save_folded(h, v, p, **data), st, 'save_folded')
        else:
            call(lambda: paragami.save_folded(handle, v, p, **data), st, 'save_folded')
        if (snapshot(v), p.to_json()) != before:
            raise Mismatch('save_folded changed its arguments')
        now = self.files()
        if st != 'ok':
            if {n: now.get(n) for n in files} != files:
                raise Mismatch('a refused save_folded changed an existing file')
            return
        if spelling == 'mem':
            self.mem[f] = handle
        elif f + '.npz' not in now:
            raise Mismatch('save_folded to %r wrote %r' % (str(handle), sorted(now)))
        else:
            self.mem.pop(f, None)
        for n in files:
            if n != f + '.npz' and files[n] != now.get(n):
                raise Mismatch('saving to %s changed %s' % (f, n))
        self.saved[o['n']] = (copy.deepcopy(v), p, copy.deepcopy(data))
        if opt.get('spoil'):
            spoil(v)

    def load(self, o, opt, out):
        if out['st'] != 'ok':
            return
        v, p, data = self.saved[out['x']['n']]
        f, spelling = o['file']
        if f in self.mem:
            handle = io.BytesIO(self.mem[f].getvalue())
        elif spelling == 'handle':
            handle = open(self.path(f, 'npz'), 'rb')
        else:
            handle = self.path(f, 'pathlib' if spelling == 'pathlib' else 'npz')
        res = call(lambda: paragami.load_folded(handle), 'ok', 'load_folded')
        got, gp, gd = res
        exactly(got, v, out['x']['p'])
        if not (gp == p and p == gp) or type(gp) is not type(p):
            raise Mismatch('loaded pattern differs: %s against %s' % (gp.to_json(), p.to_json()))
        want = set(data) | {'flat_val', 'pattern_json'}
        if not set(data) <= set(gd.keys()):
            raise Mismatch('loaded data has %s, expected %s' % (sorted(gd.keys()), sorted(want)))
        for k, x in data.items():
            y = gd[k]
            if not (np.asarray(x).shape == y.shape and np.asarray(x).dtype == y.dtype and
                    np.asarray(x).tobytes() == y.tobytes()):
                raise Mismatch('data %s is %r, expected %r' % (k, y, x))
        if hasattr(gd, 'close'):
            gd.close()
        if hasattr(handle, 'close'):
            handle.close()


def make_value(o, opt):
    p = build(o['p'])
    if 'rand' in opt:
        rng = np.random.RandomState(opt['rand'])
        v = p.fold(rng.standard_normal(p.flat_length(True)), free=True)
        if opt.get('weird'):
            weird(o['p'], v, rng)
    else:
        v = value(o['v'], lambda e: _num(e, opt.get('eps', 1e-9)))
    return p, dress(v, opt.get('how', ''))


def _num(e, eps):
    from objects import num
    return num(e, eps)


def weird(t, v, rng):
    """Extreme numbers wherever there are no bounds."""
    if t['k'] == 'dict':
        for k, s in zip(t['keys'], t['subs']):
            weird(s, v[k], rng)
    elif t['k'] == 'num' and not t['lo'] and not t['hi']:
        for i in np.ndindex(v.shape):
            v[i] = rng.choice([0.0, -0.0, 5e-324, 1.7976931348623157e308, -1e-310, np.inf, -np.inf,
                               0.1 + 0.2, 1 / 3, np.nextafter(1, 2), -123456789.123456789])


def make_data(kind, n):
    return [{}, {'hess': np.arange(6.0).reshape(2, 3) / (n + 7)},
            {'n': np.array(n), 'txt': np.array('note %d' % n), 'flags': np.array([True, False])},
            {'x': np.float32(n) / 3, 'y': np.arange(n), 'z': n},
            {'free': np.array([1.5, n]), 'val': np.array([[n]]), 'arr_0': np.zeros((0, 2))}][kind]


def snapshot(v):
    if isinstance(v, dict):
        return [(k, snapshot(s)) for k, s in v.items()]
    return v.shape, v.dtype.str, v.tobytes()


def spoil(v):
    if isinstance(v, dict):
        for s in v.values():
            spoil(s)
    elif v.flags.writeable:
        v[...] = 0


def exactly(got, want, p, what='value'):
    if p['k'] == 'dict':
        if list(got.keys()) != p['keys']:
            raise Mismatch('%s: keys %r, expected %r' % (what, list(got.keys()), p['keys']))
        for k, s in zip(p['keys'], p['subs']):
            exactly(got[k], want[k], s, '%s[%s]' % (what, k))
        return
    if not isinstance(got, np.ndarray) or got.shape != want.shape or \
            got.astype(float).tobytes() != np.ascontiguousarray(want).astype(float).tobytes():
        raise Mismatch('%s: loaded %r, saved %r' % (what, got, want))


def run_persist(b, outs):
    w = World()
    try:
        for i, (o, opt, rec) in enumerate(zip(b['ops'], b['opts'], outs)):
            try:
                step(w, o, opt, rec['out'])
            except Mismatch as e:
                raise Mismatch('op %d %s: %s' % (i, _brief(o), e))
    finally:
        w.close()


def _brief(o):
    return {k: v for k, v in o.items() if k not in ('v',)}


def step(w, o, opt, out):
    k = o['op']
    st = out['st']
    if k in ('register', 'decode'):
        w.registry(o, out)
    elif k == 'save':
        w.save(o, opt, out)
    elif k == 'load':
        w.load(o, opt, out)
    elif k == 'eq':
        r = random.Random(opt['seed'])
        a = loose(o['p'], r)
        b = build(o['q']) if opt['seed'] % 3 else loose(o['q'], r)
        if opt.get('json'):
            b = decode(b, 'registry')
        for x, y in ((a, b), (b, a)):
            if (x == y) is not out['x'] and (x == y) != out['x']:
                raise Mismatch('%s == %s is %r, expected %s' % (x.to_json(), y.to_json(), x == y, out['x']))
            if (x != y) == out['x']:
                raise Mismatch('!= disagrees with ==')
        for other in (None, 3, 'pattern', a.as_dict()):
            if a == other:
                raise Mismatch('equal to %r' % (other,))
    elif k == 'fromjson':
        doc = build(o['p']).to_json()
        cls = CLASSES[o['cls']]
        if o['cls'] == 'NumericArrayPattern' and o['p']['k'] == 'num' and users(o['p']):
            cls = UserArray
        got = call(lambda: cls.from_json(doc), st, '%s.from_json' % cls.__name__)
        if st == 'ok' and not got == build(out['x']):
            raise Mismatch('from_json decoded to %s' % got.to_json())
    elif k == 'json':
        r = random.Random(opt['seed'])
        obj = loose(o['p'], r) if opt['seed'] % 2 else build(o['p'])
        got = call(lambda: decode(obj, opt['how']), 'ok', 'decoding')
        want = build(out['x'])
        if type(got) is not type(want):
            raise Mismatch('decoded to a %s' % type(got))
        if not (got == want and want == got and got == obj):
            raise Mismatch('decoded to %s, expected %s' % (got.to_json(), want.to_json()))
        if got.to_json() != want.to_json():
            raise Mismatch('decoded JSON %s, expected %s' % (got.to_json(), want.to_json()))
        if got.free_default != want.free_default:
            raise Mismatch('free_default %r' % (got.free_default,))
    else:
        raise ValueError(k)


# ------------------------------------------------------------ checks
def explore(chk, part, req, rng):
    res = tlc.run('PersistMC', req={'ops': req['ops']})
    if res.error is not None:
        raise tlc.TLCError('TLC failed on PersistMC:\n' + res.error)
    chk.add_tlc({'states': res.distinct, 'transitions': len(res.records)}, part)
    key = lambda s: json.dumps(s, sort_keys=True)
    edges = {}
    for x in res.records:
        edges.setdefault(key(x['f']), []).append((x['i'] - 1, x['out'], key(x['t'])))
    start = key({'r': [], 's': []}) if key({'r': [], 's': []}) in edges else key({'r': {}, 's': {}})
    paths = {start: []}
    queue = [start]
    for f in queue:
        for i, out, t in edges[f]:
            if t not in paths:
                paths[t] = paths[f] + [(i, out)]
                queue.append(t)
    cases, outs = [], []
    for f, es in edges.items():
        # leave and come back: every transition from every state
        todo = list(es)
        rng.shuffle(todo)
        for i, out, t in todo:
            seq = paths[f] + [(i, out)]
            # whatever was done, everything can still be read afterwards
            seq += [(j, o) for j, o, u in edges[t] if u == t and
                    req['ops'][j]['op'] in ('decode', 'load')]
            cases.append({'ops': [req['ops'][j] for j, _ in seq],
                          'opts': [req['opts'][j] for j, _ in seq]})
            outs.append([{'out': o} for _, o in seq])
    res = pmap(run_persist, cases, outs)
    for c, r in zip(cases, res):
        chk.validated(part)
        if r is not None:
            chk.violation('%s: %s' % (part, r), {'module': 'PersistMC', 'behaviour': c})
    chk.exhaustive[part] = True


def c09(chk):
    r = gen.rng_for(chk.seed, 'C09')
    # the registry, exhaustively
    # classes of the same name in different modules are different types
    names = ['one.Alpha', 'two.Alpha'] if not chk.thorough else ['one.Alpha', 'two.Alpha', 'Alpha', 'one.Beta']
    ops = [{'op': 'register', 'name': n, 'cls': c, 'overwrite': w}
           for n in names for c in (1, 2) for w in (False, True)]
    ops += [{'op': 'decode', 'name': n} for n in names + ['']]
    explore(chk, 'every history of the registry', {'ops': ops, 'opts': [{}] * len(ops)}, r)
    # equality and JSON
    bs = []
    for i in range(chk.n(260, 2600)):
        ops, opts = [], []
        p = gen.rand_tree(r, r.choice([0, 1, 2, 3]), maxlen=24, want=[None, 'dict', 'parr', 'leaf'][i % 4])
        if i % 25 == 7:
            p = gen.big_tree(r)
        gen.set_defaults(r, p)
        for _ in range(6):
            q = mutate(r, p)
            if r.random() < .3:
                q = mutate(r, q)
            ops.append({'op': 'eq', 'p': p, 'q': q})
            opts.append({'seed': r.randrange(1 << 20), 'json': r.random() < .3})
            ops.append({'op': 'json', 'p': q})
            opts.append({'seed': r.randrange(1 << 20), 'how': r.choice(['registry', 'class', 'transport'])})
        ops.append({'op': 'fromjson', 'p': p, 'cls': r.choice(list(CLASSES))})
        opts.append({})
        bs.append({'ops': ops, 'opts': opts})
    samples = [gen.rand_num(r, cls=c) for c in ('arr', 'vec', 'sca')] + [
        gen.rand_psd(r), gen.rand_sim(r), gen.rand_tree(r, 1, want='dict'),
        gen.rand_tree(r, 1, want='parr')]
    ops = [{'op': 'fromjson', 'p': p, 'cls': c} for p in samples for c in CLASSES]
    bs.append({'ops': ops, 'opts': [{}] * len(ops)})
    conform(chk, 'equality and JSON', 'PersistReplay', bs, run_persist, send=('ops',))
    # a decoded pattern behaves identically
    bs = []
    for i in range(chk.n(160, 1600)):
        p = gen.rand_tree(r, r.choice([0, 1, 2, 3]), maxlen=20, want=[None, 'dict', 'parr', 'leaf'][i % 4])
        if i % 25 == 7:
            p = gen.big_tree(r)
        gen.set_defaults(r, p)
        ops = []
        v = gen.rand_value(r, p)
        for f in 'NTF':
            ops += [flatten_op(v, f), op('len', free=f), op('idx', m=gen.rand_mask(r, p), free=f)]
        for f in 'TF':
            ops.append(op('names', free=f, delim='_'))
        for _ in range(3):
            w, kind, sums = disturb(r, p, v)
            ops += [op('valid', v=w, vv=x) for x in 'NTF']
        ops.append(op('empty'))
        if gen.length(p, False) <= 9:
            ops.append(op('jac', v=v))
        bs.append({'p': p, 'ops': ops, 'opts': [{'eps': 1e-5}] * len(ops),
                   'how': r.choice(['registry', 'class', 'transport'])})
    conform(chk, 'behaviour of decoded patterns', 'OrigamiReplay', bs, run_decoded)
    living(chk, r, chk.n(200, 3000))


def living(chk, r, count):
    """Histories of objects, documents and files."""
    num = {'k': 'num', 'cls': 'vec', 'sh': [2], 'lo': [0, 1], 'hi': [], 'dv': True, 'fd': 'N'}
    p = {'k': 'dict', 'keys': ['a'], 'fd': 'T', 'subs': [num]}
    ops = [{'op': 'make', 'p': p}]
    for i in (1, 2):
        ops += [{'op': 'text', 'i': i}, {'op': 'revive', 'd': i},
                {'op': 'set', 'i': i, 'path': [], 'field': 'fd', 'val': 'N'},
                {'op': 'set', 'i': i, 'path': [1], 'field': 'fd', 'val': 'F'},
                {'op': 'drop', 'i': i, 'path': [], 'key': 'a'}]
    if chk.thorough:
        ops += [{'op': 'write', 'i': 1, 'file': 'a', 'n': 1}, {'op': 'write', 'i': 2, 'file': 'a', 'n': 2},
                {'op': 'read', 'file': 'a'}]
    edges(chk, 'every short history of objects and documents', 'LiveMC',
          {'ops': ops, 'maxobjs': 2, 'maxdocs': chk.n(1, 2)}, run_live, r, ('ops', 'maxobjs', 'maxdocs'),
          lambda f: f[0] == [] and f[1] == [])
    bs = [history(r, r.choice([8, 14, 20])) for _ in range(count)]
    conform(chk, 'histories of objects, documents and files', 'LiveReplay', bs, run_live, send=('ops',))


def run_decoded(req, outs):
    obj = decode(build(req['p']), req['how'])
    for i, (o, opt, rec) in enumerate(zip(req['ops'], req['opts'], outs)):
        try:
            one(obj, req['p'], o, opt, rec['out'], 1e-11)
        except Mismatch as e:
            raise Mismatch('decoded pattern, op %d (%s) on %s: %s' % (i, o['op'], obj, e))


def c10(chk):
    r = gen.rng_for(chk.seed, 'C10')
    # two files, two patterns, valid and rejected values: every history
    p1 = {'k': 'num', 'cls': 'arr', 'sh': [2, 2], 'lo': [0, 1], 'hi': [], 'dv': True, 'fd': 'T'}
    p2 = {'k': 'dict', 'keys': ['z', 'a'], 'fd': 'F', 'subs': [
        {'k': 'sim', 'n': 3, 'sh': [2], 'dv': True, 'fd': 'N'},
        {'k': 'psd', 'n': 2, 'lb': [1, 2], 'dv': False, 'fd': 'N'}]}
    ops, opts = [], []
    for n, (p, bad) in enumerate([(p1, False), (p2, False), (p1, True)]):
        v = gen.rand_value(r, p)
        if bad:
            v['a'][3] = [-1, 1]
        for f in ('a', 'b') if not chk.thorough else ('a', 'b', 'c'):
            for sp in ('bare', 'npz'):
                ops.append({'op': 'save', 'file': [f, sp], 'p': p, 'v': v, 'data': n, 'n': n})
                opts.append({'data': n + 1} if bad else {'data': n + 1, 'rand': 5 + n})
    for f in ('a', 'b') if not chk.thorough else ('a', 'b', 'c'):
        ops.append({'op': 'load', 'file': [f, 'npz']})
        opts.append({})
    explore(chk, 'every history of saves', {'ops': ops, 'opts': opts}, r)
    # random histories
    bs = []
    for i in range(chk.n(160, 1600)):
        ops, opts = [], []
        pats = []
        for _ in range(3):
            p = gen.rand_tree(r, r.choice([0, 1, 2, 3]), maxlen=20)
            gen.set_defaults(r, p)
            pats.append(p)
        for n in range(r.choice([4, 8, 12])):
            if r.random() < .6 or n == 0:
                p = r.choice(pats)
                v = gen.rand_value(r, p)
                opt = {'data': r.randrange(5), 'how': r.choice(HOWS), 'spoil': r.random() < .5}
                c = r.random()
                if c < .35:
                    v, kind, sums = disturb(r, p, v)
                    opt['eps'] = 1e-5 if sums else r.choice([1e-3, 1e-9])
                elif c < .8:
                    opt['rand'] = r.randrange(1 << 30)
                    opt['weird'] = r.random() < .5
                    opt['how'] = r.choice(['', 'reused', 'fortran', 'strided', 'readonly'])
                ops.append({'op': 'save', 'file': [r.choice('ab'), r.choice(
                    ['bare', 'npz', 'pathlib', 'handle'])], 'p': p, 'v': v, 'data': opt['data'], 'n': n})
                if r.random() < .2:
                    ops[-1]['file'] = ['m', 'mem']
                opts.append(opt)
            else:
                ops.append({'op': 'load', 'file': [r.choice('abm'), r.choice(['npz', 'pathlib', 'handle'])]})
                opts.append({})
        for f in 'abm':
            ops.append({'op': 'load', 'file': [f, 'npz']})
            opts.append({})
        bs.append({'ops': ops, 'opts': opts})
    conform(chk, 'random histories of files', 'PersistReplay', bs, run_persist, send=('ops',))
    bs = [history(r, r.choice([8, 14, 20]), 'files') for _ in range(chk.n(120, 2000))]
    conform(chk, 'files of objects that go on changing', 'LiveReplay', bs, run_live, send=('ops',))
