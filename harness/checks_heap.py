"""C21: ownership of storage (Heap.tla)."""
import copy
import os
import shutil
import tempfile
import warnings

import autograd.numpy as anp
import numpy as np

import checks_wrap
import gen
from common import conform, edges
from objects import Mismatch, build, value

import paragami
from paragami import autograd_supplement_lib as al
from paragami import optimization_lib as ol

warnings.simplefilter('ignore')


def leaves(x):
    if isinstance(x, dict):
        return [l for v in x.values() for l in leaves(v)]
    return [x]


def detach(x):
    """A copy in which nothing is shared, not even among its parts."""
    if isinstance(x, dict):
        return type(x)((k, detach(v)) for k, v in x.items())
    return copy.deepcopy(x)


def same(a, b, tol=1e-8):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a.keys()) == list(b.keys()) \
            and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None:
        return a == b
    if hasattr(a, 'toarray'):
        a = a.toarray()
    if hasattr(b, 'toarray'):
        b = b.toarray()
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype.kind == b.dtype.kind and \
        np.allclose(a.astype(float), b.astype(float), rtol=tol, atol=tol, equal_nan=True)


def fill(x, new):
    if isinstance(x, dict):
        for k in [k for k in x if k not in new]:
            del x[k]
        keys = list(x.keys())
        for k in new:
            if k in x:
                fill(x[k], new[k])
            else:
                x[k] = copy.deepcopy(new[k])
        if list(x.keys()) != list(new.keys()):
            for k in list(new.keys()):
                x.move_to_end(k) if hasattr(x, 'move_to_end') else x.update({k: x.pop(k)})
    else:
        x[...] = new


def spoil(x, opt):
    """Change one entry, or the keys of a dictionary."""
    if isinstance(x, dict) and opt.get('keys') and x:
        d, k = x, sorted(x)[opt['at'] % len(x)]
        if isinstance(d[k], dict) and d[k] and opt['at'] % 2:
            d = d[k]
            k = sorted(d)[0]
        if opt['keys'] == 'drop':
            del d[k]
        else:
            d['another one'] = np.array([1.0])
        return
    ls = [l for l in leaves(x) if np.size(l)]
    if not ls:
        return
    l = ls[opt['at'] % len(ls)]
    i = np.unravel_index(opt['at2'] % l.size, l.shape)
    if l.dtype == bool:
        l[i] = not l[i]
    elif opt.get('nan') and l.dtype.kind == 'f':
        l[i] = np.nan
    else:
        l[i] = l[i] + 17


class HeapRun:
    def __init__(self, b):
        self.b = b
        self.pat = build(b['p']) if 'p' in b else None
        self.tab = {}
        self.objs, self.snap, self.exact = [], [], []
        if self.pat is not None:
            other = build(b['p'])
            for name, v in list(b['vals'].items()) + [('empty', None)]:
                v = other.empty(True) if v is None else value(v)
                self.tab['val' + name] = detach(v)
                for t, free in (('freeT', True), ('freeF', False)):
                    self.tab[t + name] = np.array(other.flatten(v, free=free))
            for name, v in (('True', True), ('False', False)):
                self.tab['mask' + name] = detach(other.empty_bool(v))
            m = detach(other.empty_bool(False))
            for j, l in enumerate(leaves(m)):
                l.reshape(-1)[j % 2::2] = True
            self.tab['maskm'] = m
        for name, v in b.get('arrs', {}).items():
            self.tab['arr' + name] = np.array(v, dtype=float)

    def call(self, o, opt):
        p, f = self.pat, o['f']
        a = [self.objs[i - 1] for i in o['a']]
        free = o.get('free')
        kw = {'free': free}
        kv = dict(kw)
        if opt.get('novalidate'):
            kv['validate_value'] = False
        if f == 'flatten':
            return p.flatten(a[0], **kv)
        if f == 'flattenout':
            return paragami.FlattenFunctionOutput(lambda: a[0], patterns=p, free=free)()
        if f in ('fold', 'foldout', 'wrapin', 'both'):
            free = self.types[o['a'][-1] - 1] == 'freeT'
        if f == 'fold':
            kv['free'] = free
            return p.fold(a[0], **kv)
        if f == 'foldout':
            return paragami.FoldFunctionOutput(lambda: a[0], patterns=p, free=free)()
        total = lambda v: sum([float(np.sum(l)) for l in leaves(v)], 0.0)
        if f == 'wrapin':
            return paragami.FlattenFunctionInput(lambda v: total(v), patterns=p, free=free)(a[0])
        if f == 'both':
            return paragami.FlattenFunctionInput(
                lambda w, v: total(v) - 2 * total(w), patterns=p, free=free, argnums=1)(a[0], a[1])
        if f == 'foldin':
            return paragami.FoldFunctionInput(lambda x: 2 * float(np.sum(x)), patterns=p, free=free)(a[0])
        if f == 'validate':
            return bool(p.validate_folded(a[0])[0])
        if f in ('jac', 'unjac'):
            fn = p.freeing_jacobian if f == 'jac' else p.unfreeing_jacobian
            return fn(a[0], sparse=opt.get('sparse', True))
        if f in ('logdet', 'unlogdet'):
            fn = p.log_abs_det_freeing_jacobian if f == 'logdet' else p.log_abs_det_unfreeing_jacobian
            return fn(a[0])
        if f in ('save', 'load'):
            work = tempfile.mkdtemp(prefix='heap_')
            try:
                path = os.path.join(work, 'saved.npz')
                paragami.save_folded(path, a[0], p)
                if f == 'save':
                    return None
                v, q, data = paragami.load_folded(path)
                data.close()
                return v
            finally:
                shutil.rmtree(work, ignore_errors=True)
        if f == 'indices':
            return p.flat_indices(a[0], **kw)
        if f == 'empty':
            return p.empty(True)
        if f == 'ebool':
            return p.empty_bool(o['k'] == 'True')
        if f == 'describe':
            return [list(map(str, p.flat_names(False))), list(map(str, p.flat_names(True))), p.flat_length(True), p.flat_length(False), p.to_json()]
        if f in ('replace', 'gsum'):
            what = 'inds' if f == 'replace' else 'groups'
            before = copy.deepcopy(opt[what])
            got = al.replace(a[0], a[1], opt[what]) if f == 'replace' else \
                al.grouped_sum(a[0], opt[what], num_groups=4)
            if not same(opt[what], before, 0.0):
                raise Mismatch('the indices %r became %r' % (before, opt[what]))
            return got
        if f == 'trunc':
            return ol.truncate_eigenvalues(a[0], **opt['limits'])
        if f == 'eigen':
            u = np.eye(4)[:, :2]
            return ol.transform_eigenspace(u, a[0], lambda e: e + 1)(a[1])
        if f == 'precond':
            pf = paragami.PreconditionedFunction(lambda x: anp.sum(x ** 3))
            h = np.outer(a[0], a[0]) + 3 * np.eye(4)
            keep = h.copy()
            if opt.get('hess'):
                pf.set_preconditioner_with_hessian(hessian=h, ev_min=opt.get('lo'), ev_max=opt.get('hi'))
            else:
                pf.set_preconditioner_matrix(h)
            if not np.array_equal(h, keep):
                raise Mismatch('the preconditioner changed the matrix given to it')
            res = [float(pf(a[1])), np.array(pf.precondition(a[1])), np.array(pf.unprecondition(a[1]))]
            m = pf.get_preconditioner(4)
            m[...] = 7.0
            if not np.allclose(res[0], float(pf(a[1]))):
                raise Mismatch('overwriting the result of get_preconditioner changed the function')
            if opt.get('after'):
                m = np.array(a[0]) * np.eye(4) + 1
                keep = m.copy()
                pf.set_preconditioner_matrix(m, m)
                pf(a[1]), pf.precondition(a[1]), pf.get_preconditioner(4), pf.get_preconditioner_inv(4)
                if not np.array_equal(m, keep):
                    raise Mismatch('the preconditioner changed the matrix given to it')
            return res
        if f == 'product':
            z, zt = al.get_sparse_product(np.arange(16.0).reshape((4, 4)) - 6)
            return [z(a[0]), zt(a[0])]
        raise ValueError(f)

    def step(self, o, opt, out):
        if out['st'] == 'skip':
            return
        if o['op'] == 'new':
            self.objs.append(detach(self.tab[o['t'] + o['k']]))
            self.types.append(o['t'])
            self.snap.append(None)
        elif o['op'] == 'call':
            got = self.call(o, opt)
            if not (out['term'].startswith('arr') or out['term'].startswith('val')) or got is not None:
                want = self.tab.setdefault(out['term'], detach(got))
                if not same(got, want):
                    raise Mismatch('%s returned %r, expected %r' % (o['f'], got, want))
            if len(out['all']) > len(self.objs):
                self.objs.append(got)
                self.types.append(next(t for t in ('freeT', 'freeF', 'mask', 'arr', 'ints', 'val')
                                       if out['term'].startswith(t)))
                self.snap.append(None)
            elif opt.get('scribble'):
                # nobody may depend on a result of ours
                self.scribble(got)
        elif o['op'] == 'fill':
            fill(self.objs[o['i'] - 1], self.tab[self.types[o['i'] - 1] + o['k']])
        elif o['op'] == 'entry':
            i = o['i'] - 1
            want = detach(self.objs[i])
            spoil(want, opt)
            spoil(self.objs[i], opt)
            self.snap[i] = want
        touched = o['i'] - 1 if o['op'] in ('fill', 'entry') else -1
        for i, c in enumerate(out['all']):
            if i < len(self.exact) and c != 'any' and i != touched and not same(self.objs[i], self.exact[i], 0.0):
                raise Mismatch('object %d (%s %s) changed from %r to %r' % (
                    i + 1, self.types[i], c, self.exact[i], self.objs[i]))
            self.exact[i:i + 1] = [detach(self.objs[i])]
            if c == 'any':
                self.snap[i] = detach(self.objs[i])
                continue
            want = self.snap[i] if c == 'own' else self.tab[self.types[i] + c]
            if not same(self.objs[i], want):
                raise Mismatch('object %d (%s %s) became %r, expected %r' % (
                    i + 1, self.types[i], c, self.objs[i], want))

    def scribble(self, got):
        for x in got if isinstance(got, (list, tuple)) else [got]:
            if isinstance(x, list):
                x.append('x')
            elif hasattr(x, 'toarray') and hasattr(x, 'data') and isinstance(x.data, np.ndarray):
                if x.data.flags.writeable:
                    x.data[...] = 99
            elif isinstance(x, dict):
                pass        # may share with what it was folded from
            elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in 'fi':
                x[...] = 99


# calls whose result is not promised to be fresh are never scribbled on
SCRIBBLE = {'flatten', 'flattenout', 'jac', 'unjac', 'indices', 'describe', 'gsum', 'replace', 'product'}


def run_heap(b, outs):
    run = HeapRun(b)
    run.types = []
    for i, (o, opt, rec) in enumerate(zip(b['ops'], b['opts'], outs)):
        try:
            run.step(o, opt, rec['out'])
        except Mismatch as e:
            raise Mismatch('%s (%s with %s; %s; after %s)' % (e, o, opt, run.pat, b['ops'][:i]))
        except Exception as e:
            raise Mismatch('unexpected %s: %s (%s with %s; %s; after %s)' % (
                type(e).__name__, e, o, opt, run.pat, b['ops'][:i]))


def two_values(r, p):
    for _ in range(50):
        u, v = gen.rand_value(r, p), gen.rand_value(r, p)
        if u != v:
            break
    return {'v1': u, 'v2': edge(r, p, v)}


def edge(r, p, v):
    """Sometimes with numbers on their bounds and zeros on simplexes, whose free values are infinite."""
    if 'ks' in v:
        return {'ks': v['ks'], 'vs': [edge(r, q, s) for q, s in zip(p['subs'], v['vs'])]}
    if r.random() < .6 or p['k'] == 'psd':
        return v
    n = p['n'] if p['k'] == 'sim' else 0
    a = list(v['a'])
    for i in range(len(a)):
        if p['k'] == 'num' and r.random() < .5:
            a[i] = r.choice([x for x in (p['lo'], p['hi']) if x] or [a[i]])
        elif p['k'] == 'sim' and i % n == 0 and r.random() < .6:
            # all the mass of one entry goes to the first
            j = i + r.randrange(1, n)
            x = gen.F(*a[i]) + gen.F(*a[j])
            a[i], a[j] = [x.numerator, x.denominator], [0, 1]
    return dict(v, a=a)


CALLS = ['flatten', 'flatten', 'fold', 'fold', 'flattenout', 'foldout', 'wrapin', 'validate', 'jac', 'unjac',
         'foldin', 'both', 'indices', 'indices', 'indices', 'empty', 'empty', 'ebool', 'describe', 'load', 'save',
         'logdet', 'unlogdet']


def spoil_opt(r):
    return {'at': r.randrange(12), 'at2': r.randrange(12), 'keys': r.choice(['', '', '', 'drop', 'add']),
            'nan': r.random() < .2}


def pattern_case(r, count):
    kind = r.choice(['leaf', 'dict', 'parr', None])
    p = gen.rand_tree(r, r.choice([1, 2]), maxlen=14, psdmax=2, want=kind if kind != 'leaf' else None) \
        if kind != 'leaf' else gen.rand_leaf(r, 'nnps', 2)
    gen.set_defaults(r, p)
    has_logdet = all(q['k'] in ('num', 'dict') for _, q in gen.paths(p))
    ops, opts, types = [], [], []
    lastt = lambda ts: [i + 1 for i, t in enumerate(types) if t in ts]

    def put(o, t=None, **opt):
        ops.append(o)
        opts.append(opt)
        if t:
            types.append(t)
    before = None
    put({'op': 'new', 't': 'val', 'k': 'v1'}, 'val')
    put({'op': 'new', 't': r.choice(['freeT', 'freeF']), 'k': 'v2'}, ops and None)
    types.append(ops[-1]['t'])
    for _ in range(count):
        c = r.random()
        if c < .08 and len(types) < 9:
            t = r.choice(['val', 'freeT', 'freeF', 'mask'])
            put({'op': 'new', 't': t, 'k': r.choice(['m', 'm', 'True', 'False']) if t == 'mask' else r.choice(['v1', 'v2'])}, t)
        elif c < .24:
            i = r.randrange(len(types))
            if types[i] == 'ints':
                put(dict({'op': 'entry', 'i': i + 1}), **spoil_opt(r))
            else:
                put({'op': 'fill', 'i': i + 1, 'k': r.choice(['True', 'False', 'm']) if types[i] == 'mask'
                     else r.choice(['v1', 'v2', 'empty'])})
        elif c < .38:
            put({'op': 'entry', 'i': r.randrange(len(types)) + 1}, **spoil_opt(r))
        else:
            f = before if before and r.random() < .3 else r.choice(CALLS)
            before = f
            if f in ('logdet', 'unlogdet') and not has_logdet:
                continue
            want = {'indices': ['mask'], 'empty': [], 'ebool': [], 'describe': []}.get(
                f, ['freeT', 'freeF'] if f in ('fold', 'foldout', 'wrapin') else ['val'])
            a = []
            if want:
                cands = lastt(want)
                if not cands:
                    continue
                a = [r.choice(cands)]
            if f == 'both':
                cands = lastt(['freeT', 'freeF'])
                if not cands:
                    continue
                a.append(r.choice(cands))
            free = r.random() < .5
            keep = r.random() < .75 and len(types) < 9
            o = {'op': 'call', 'f': f, 'a': a, 'free': free, 'k': str(free), 'keep': keep}
            if f == 'describe' or f in ('validate', 'jac', 'unjac', 'save', 'logdet', 'unlogdet'):
                o['k'] = ''
            opt = {'novalidate': r.random() < .3, 'sparse': r.random() < .6, 'scribble': f in SCRIBBLE}
            # The generator cannot know whether the specification keeps the
            # result (it may skip the call); kinds are tracked there too, so
            # only calls that surely succeed are kept.
            ops.append(o)
            opts.append(opt)
            t = {'flatten': 'freeT' if free else 'freeF', 'flattenout': 'freeT' if free else 'freeF',
                 'fold': 'val', 'foldout': 'val', 'load': 'val', 'empty': 'val', 'ebool': 'mask',
                 'indices': 'ints'}.get(f)
            if t and keep:
                if surely(ops, types, o):
                    types.append(t)
                else:
                    o['keep'] = False
    return {'p': p, 'vals': two_values(r, p), 'ops': ops, 'opts': opts}


def surely(ops, types, o):
    """Whether the operands of the last call were not overwritten or left open."""
    state = Track()
    for q in ops[:-1]:
        state.step(q)
    return state.fits(o)


class Track:
    """A conservative copy of the bookkeeping, for generating sensible calls."""
    def __init__(self):
        self.ok, self.al, self.t = [], [], []

    def sharing(self, i):
        return {j for j in range(len(self.ok)) if j == i or i in self.al[j] or j in self.al[i]}

    def fits(self, o):
        return all(i <= len(self.ok) and self.ok[i - 1] for i in o['a'])

    def add(self, t, al):
        self.ok.append(True)
        self.al.append(al)
        self.t.append(t)

    def step(self, o):
        if o['op'] == 'new':
            self.add(o['t'], set())
        elif o['op'] in ('fill', 'entry'):
            i = o['i'] - 1
            if o['op'] == 'fill' and self.t[i] == 'ints':
                return
            for j in self.sharing(i):
                self.ok[j] = False
            self.ok[i] = o['op'] == 'fill'
        elif o['op'] == 'call' and self.fits(o) and o['keep']:
            f = o['f']
            t = {'flatten': 'freeT' if o['free'] else 'freeF', 'flattenout': 'freeT' if o['free'] else 'freeF',
                 'fold': 'val', 'foldout': 'val', 'load': 'val', 'empty': 'val', 'ebool': 'mask',
                 'indices': 'ints', 'replace': 'arr', 'gsum': 'arr', 'trunc': 'arr'}.get(f)
            if t:
                fresh = not (f in ('fold', 'foldout') and self.t[o['a'][0] - 1] == 'freeF' or f == 'trunc')
                self.add(t, set() if fresh else set().union(*[self.sharing(i - 1) for i in o['a']]))


def array_case(r, count):
    """Arrays of length four ('x', 'y') and two ('s', 't')."""
    pick = lambda n: [r.choice([-2.0, -1.0, 0.5, 1.0, 2.0, 3.0, 4.0]) for _ in range(n)]
    arrs = {'x': pick(4), 'y': pick(4), 's': pick(2), 't': pick(2)}
    ops, opts, size = [], [], []
    inds = r.sample(range(4), 2)
    inds = np.array(inds) if r.random() < .5 else inds
    groups = [r.randrange(4) for _ in range(4)]
    groups = np.array(groups) if r.random() < .5 else groups
    lo = r.choice([-1.5, 0, 0.75])
    limits = r.choice([{}, {'ev_min': lo}, {'ev_max': 1.5}, {'ev_min': lo, 'ev_max': 1.5}])
    for k in 'xs':
        ops.append({'op': 'new', 't': 'arr', 'k': k})
        opts.append({})
        size.append(len(arrs[k]))
    const = {'inds': inds, 'groups': groups, 'limits': limits, 'hess': r.random() < .5,
             'lo': r.choice([None, 1.0]), 'hi': r.choice([None, 5.0]), 'after': r.random() < .4}
    for _ in range(count):
        c = r.random()
        if c < .08 and len(size) < 8:
            k = r.choice('xyst')
            ops.append({'op': 'new', 't': 'arr', 'k': k})
            opts.append({})
            size.append(len(arrs[k]))
        elif c < .25:
            i = r.randrange(len(size))
            ops.append({'op': 'fill', 'i': i + 1, 'k': r.choice('xy' if size[i] == 4 else 'st')})
            opts.append({})
        elif c < .4:
            ops.append({'op': 'entry', 'i': r.randrange(len(size)) + 1})
            opts.append(spoil_opt(r))
        else:
            f = r.choice(['replace', 'replace', 'gsum', 'trunc', 'trunc', 'eigen', 'precond', 'product'])
            four = [i + 1 for i, n in enumerate(size) if n == 4]
            two = [i + 1 for i, n in enumerate(size) if n == 2]
            a = {'replace': [r.choice(two), r.choice(four)], 'eigen': [r.choice(two), r.choice(four)],
                 'precond': [r.choice(four), r.choice(four)]}.get(f, [r.choice(four)])
            o = {'op': 'call', 'f': f, 'a': a, 'free': False, 'k': '', 'keep': r.random() < .6 and len(size) < 8}
            ops.append(o)
            opts.append(dict(const, scribble=f in SCRIBBLE))
            if f in ('replace', 'gsum', 'trunc') and o['keep']:
                if surely(ops, None, o):
                    size.append(4)
                else:
                    o['keep'] = False
    return {'arrs': arrs, 'ops': ops, 'opts': opts}


def num_json(p):
    return {'k': 'num', 'cls': 'arr', 'sh': p, 'lo': [], 'hi': [], 'dv': True, 'fd': 'N'}


def mc_request(r, p):
    q = lambda **kw: kw
    ops = [q(op='new', t='val', k='v1'), q(op='new', t='freeT', k='v2'), q(op='new', t='freeF', k='v2'),
           q(op='call', f='empty', a=[], free=False, k='', keep=True)]
    for i in (1, 2):
        ops += [q(op='call', f='flatten', a=[i], free=f, k=str(f), keep=True) for f in (True, False)]
        ops += [q(op='call', f='fold', a=[i], free=False, k='', keep=True)]
    for i in (1, 2, 3):
        ops += [q(op='fill', i=i, k=k) for k in ('v1', 'v2')]
        ops += [q(op='entry', i=i)]
    return {'p': p, 'vals': two_values(r, p), 'max': 3, 'ops': ops,
            'opts': [spoil_opt(r) for _ in ops]}


def c21(chk):
    r = gen.rng_for(chk.seed, 'C21')
    free = num_json([2])
    bounded = dict(num_json([2, 2]), lo=[0, 1], hi=[3, 1])
    psd = {'k': 'psd', 'n': 2, 'lb': [0, 1], 'dv': True, 'fd': 'N'}
    sim = {'k': 'sim', 'n': 2, 'sh': [2], 'dv': True, 'fd': 'N'}
    cases = [free, bounded, psd, sim,
             {'k': 'dict', 'keys': ['b', 'a'], 'subs': [free, psd], 'fd': 'N'},
             {'k': 'parr', 'sh': [2], 'base': free, 'fd': 'N'}]
    for i, p in enumerate(cases):
        edges(chk, 'every history, pattern %d' % i, 'HeapMC', mc_request(r, p), run_heap, r, ('ops', 'max'),
              lambda s: s == [], limit=chk.n(3000, 100000))
    bs = [pattern_case(r, chk.n(25, 35)) for _ in range(chk.n(400, 6000))]
    conform(chk, 'patterns and wrappers', 'HeapReplay', bs, run_heap, send=('ops',))
    bs = [array_case(r, chk.n(25, 35)) for _ in range(chk.n(200, 3000))]
    conform(chk, 'array functions', 'HeapReplay', bs, run_heap, send=('ops',))
    bs = checks_wrap.behaviours(r, chk.n(300, 5000), ['in', 'out', 'both'])
    conform(chk, 'what is given to wrappers', 'WrapReplay', bs, checks_wrap.run_intact, send=('w', 'ops'))
