"""C01 C02 C03 C04 C06 C07 C08 C19 C20: sessions with one pattern (Origami.tla)."""
import copy
from fractions import Fraction as Fr

import gen
import scale
from common import conform
from gen import rj
from session import run_session, run_states

HOWS = ['', '', 'reused', 'reused', 'fortran', 'strided', 'int', 'readonly', 'dict']


def op(name, path=(), **kw):
    d = {'op': name, 'path': list(path)}
    d.update(kw)
    return d


def flatten_op(v, free, vv='N', path=()):
    return op('flatten', path, v=v, free=free, vv=vv)


def fold_op(a, free, vv='N', path=(), sh=None, interior=False):
    return op('fold', path, x={'sh': [len(a)] if sh is None else sh, 'a': a}, free=free, vv=vv,
              interior=interior)


# ------------------------------------------------------------------ C01
def c01(chk):
    r = gen.rng_for(chk.seed, 'C01')
    bs = []
    kinds = [('leaf', 'n'), ('leaf', 'p'), ('leaf', 's'), ('dict', 'nnps'), ('parr', 'nps'),
             (None, 'nnps')]
    for i in range(chk.n(480, 4000)):
        want, ks = kinds[i % len(kinds)]
        p = gen.rand_tree(r, r.choice([1, 2, 3]), kinds=ks, want=want,
                          maxlen=r.choice([12, 20, 30]))
        if i % 30 == 7:
            p = gen.big_tree(r)
        if r.random() < .5:
            gen.set_defaults(r, p)
        ops, opts = [], []
        for far in (0.0, 0.4):
            xs = gen.rand_free(r, p, far)
            v = gen.unflatten(p, [rj(x) for x in gen.fold(p, xs)])
            raw = [rj(x) for x in gen.fold(p, xs)]
            fx = gen.free_json(xs)
            tol = 1e-11 if not far else 3e-10
            if not _finite32(raw + [q[1:3] for q in fx]):
                continue
            for o in (flatten_op(v, 'T'), flatten_op(v, 'F'),
                      fold_op(fx, 'T', interior=True), fold_op(raw, 'F')):
                ops.append(o)
                opt = {'how': r.choice(HOWS), 'tol': tol, 'back': True}
                if o['op'] == 'flatten':
                    opt['back'] = v
                if o['op'] == 'flatten' and r.random() < .15:
                    opt['how'] = 'list'
                opts.append(opt)
            for f in 'TF':
                ops.append(op('len', free=f))
                opts.append({})
        ops.append(op('empty'))
        opts.append({})
        bs.append({'p': p, 'ops': ops, 'opts': opts})
    conform(chk, 'round trips', 'OrigamiReplay', bs, run_session)
    scaled(chk, r, 'round trips of extreme values', scale.run_pairs, chk.n(200, 2000))


def scaled(chk, r, part, runner, n, jac=False, **kw):
    """Values over many orders of magnitude (Scale.tla)."""
    conform(chk, part, 'ScaleReplay', [scale.rand_case(r, jac=jac, **kw) for _ in range(n)], runner)


def _finite32(rs):
    return all(abs(a) < 2 ** 30 and 0 < b < 2 ** 30 for a, b in rs)


# ------------------------------------------------------------------ C02
BIGS = [720.0, 800.0, 1e4, 1e8, 1e15]


def c02(chk):
    r = gen.rng_for(chk.seed, 'C02')
    bs = []
    kinds = [('leaf', 'n'), ('leaf', 's'), ('leaf', 'p'), ('parr', 'nps'), ('dict', 'nnps')]
    for i in range(chk.n(300, 3000)):
        want, ks = kinds[i % len(kinds)]
        p = gen.rand_tree(r, r.choice([1, 2, 3]), kinds=ks, want=want, maxlen=20)
        if i % 30 == 7:
            p = gen.big_tree(r)
        ops, opts = [op('empty')], [{}]
        for _ in range(3):
            xs = limits(r, p)
            # far entries with different finite parts need a BIG they survive
            big = r.choice(BIGS if all(x[0] == 're' or not x[3] or x[1] == x[2] for x in xs)
                           else BIGS[:3])
            ops.append(fold_op(xs, 'T'))
            opts.append({'big': big, 'tol': 1e-9, 'how': r.choice(['', 'reused', 'list', 'strided']),
                         'valid': True})
        bs.append({'p': p, 'ops': ops, 'opts': opts})
    conform(chk, 'limits of free vectors', 'OrigamiReplay', bs, run_session)
    scaled(chk, r, 'free vectors between the limits', scale.run_pairs, chk.n(150, 1500))
    # Recorded outcomes of large random vectors, random() and empty(valid=True):
    # the observed values are abstracted and the specification decides.
    cases = []
    for i in range(chk.n(160, 1600)):
        want, ks = kinds[i % len(kinds)]
        p = gen.rand_tree(r, r.choice([1, 2, 3]), kinds=ks, want=want, maxlen=30)
        if i % 16 == 7:
            p = gen.big_tree(r)
        psd = any(l['k'] == 'psd' for l in gen.leaves(p))
        # products of exponentials stay within the floating-point range up to 300
        cases.append({'p': p, 'seed': r.randrange(1 << 30), 'clip': 300.0 if psd else 1e300,
                      'scales': [0.1, 1.0, 30.0, 300.0] + (
                          [1e4] if psd else [1e4, 1e6, 1e12])})
    for i in range(chk.n(80, 600)):
        # bounds on either side of the numbers that random generators make
        p = gen.rand_num(r)
        lo, hi = r.choice([[], [0, 1], [1, 4], [-1, 1]]), r.choice([[], [1, 2], [3, 4], [1, 1], [1, 3]])
        p['lo'], p['hi'] = lo, hi
        cases.append({'p': p, 'seed': r.randrange(1 << 30), 'clip': 1e300, 'scales': [1.0], 'draws': 4})
    observed = record(chk, 'large random free vectors', cases)
    judge(chk, 'large random free vectors', observed)


def limits(r, p):
    """A free vector with finite and far entries."""
    out = []
    for l in gen.leaves(p):
        xs = gen.free_json(gen.rand_free_leaf(r, l))
        two = l['k'] == 'num' and l['lo'] and l['hi']
        t = 0
        for x in xs:
            if x[0] == 'ln':
                if l['k'] == 'psd':
                    far = r.choice([0, 0, -1])
                elif two or l['k'] == 'sim':
                    far = r.choice([0, 0, -1, 1, 1, -2, 2])
                else:
                    far = r.choice([0, 0, -1, 1])
                x[3] = far
                if far and r.random() < .5:
                    x[1] = x[2] = 1
        out += xs
    return out


def observe(case):
    """Values the real pattern produces, as records of entries."""
    import numpy as np
    from objects import build
    obj = build(case['p'])
    rng = np.random.RandomState(case['seed'])
    n = obj.flat_length(free=True)
    out = []
    for s in case['scales']:
        x = np.clip(rng.standard_normal(n) * s, -case['clip'], case['clip'])
        if rng.random_sample() < .3 and n:
            x[:] = x[0]                      # ties
        out.append(('fold of %r' % (x.tolist(),), obj.fold(x, free=True)))
    np.random.seed(case['seed'] % (1 << 31))
    for _ in range(case.get('draws', 2)):
        out.append(('random()', obj.random()))
    out.append(('empty(valid=True)', obj.empty(True)))
    return [(name, project(case['p'], v)) for name, v in out]


def project(p, v):
    """Abstract an observed folded value to the entries the specification knows.

    Entries are placed relative to the bounds of their leaf: equal to a bound,
    just outside it (an infinitesimal), or inside; NaN counts as outside.
    """
    import numpy as np
    if p['k'] == 'dict':
        return {'ks': [str(k) for k in v.keys()],
                'vs': [project(p['subs'][p['keys'].index(k)], v[k]) for k in v.keys()]}
    a = np.asarray(v)
    if list(a.shape) != gen.shape(p):
        return {'sh': list(a.shape), 'a': [[0, 1]] * a.size}
    return {'sh': list(a.shape), 'a': entries(p, a)}


def entries(p, a):
    import numpy as np
    if p['k'] == 'parr':
        n = gen.length(p['base'], False)
        f = a.reshape(gen.prod(p["sh"]), n)
        return [e for row in f for e in entries(p['base'], row.reshape(gen.shape(p['base'])))]
    if p['k'] == 'num':
        lo = Fr(*p['lo']) if p['lo'] else None
        hi = Fr(*p['hi']) if p['hi'] else None
        if lo is None and hi is None:
            mid = Fr(0)
        elif hi is None:
            mid = lo + 1
        elif lo is None:
            mid = hi - 1
        else:
            mid = (lo + hi) / 2
        out = []
        for x in a.ravel():
            if np.isnan(x):
                out.append(([*rj(lo)] if lo is not None else [*rj(hi)] if hi is not None else [0, 1]) + [
                    -1 if lo is not None else 1])
                if lo is None and hi is None:
                    raise_nan()
            elif lo is not None and x < float(lo):
                out.append(rj(lo) + [-1])
            elif hi is not None and x > float(hi):
                out.append(rj(hi) + [1])
            elif lo is not None and x == float(lo):
                out.append(rj(lo))
            elif hi is not None and x == float(hi):
                out.append(rj(hi))
            elif np.isinf(x) and ((lo is not None and hi is not None) or (lo is None and hi is None)):
                raise_nan()
            else:
                out.append(rj(mid))
        return out
    if p['k'] == 'psd':
        if not np.all(np.isfinite(a)):
            raise_nan()
        lb = Fr(*p['lb'])
        n = p['n']
        out = []
        for i in range(n):
            for j in range(n):
                if i == j:
                    x = a[i, i]
                    out.append(rj(lb) + [-1] if x < float(lb) else
                               rj(lb) if x == float(lb) else rj(lb + 1))
                else:
                    out.append([0, 1] if a[i, j] == a[j, i] else [i, 7])
        return out
    if not np.all(np.isfinite(a)):
        raise_nan()
    n = p['n']
    out = []
    for row in a.reshape(-1, n):
        bad = [x < 0 for x in row]
        if any(bad):
            out += [[0, 1, -1] if b else [1, n] for b in bad]
        elif abs(sum(row) - 1) > 1e-10:
            out += [[2, 1]] * n
        else:
            out += [[1, n]] * n
    return out


def raise_nan():
    from objects import Mismatch
    raise Mismatch('a value is not finite')


def record(chk, part, cases):
    from common import pmap_values
    out = []
    for case, (res, err) in zip(cases, pmap_values(observe, cases)):
        if err is not None:
            chk.validated(part)
            chk.violation('%s: %s on %s' % (part, err, case['p']), {'case': case})
        else:
            out.append((case, res))
    return out


def judge(chk, part, observed):
    """Let the specification decide whether observed values are valid."""
    import tlc
    bs = [{'p': c['p'], 'ops': [op('valid', v=v, vv='T') for _, v in res]} for c, res in observed]
    outs, stats = tlc.replay('OrigamiReplay', bs)
    chk.add_tlc(stats, part)
    for (c, res), o in zip(observed, outs):
        if o is None:
            continue
        chk.validated(part)
        for (name, v), rec in zip(res, o):
            if rec['out']['x'] != '':
                chk.violation('%s: %s of %s is not valid (%s)' % (
                    part, name, c['p'], rec['out']['x']), {'case': c, 'value': v})


# ------------------------------------------------------------------ C03
def disturb(r, p, v):
    """A folded value like v with some leaves moved to or over their bounds.

    Returns (value, kind): 'inside', 'edge' or 'out', and whether a simplex sum
    is off.
    """
    flat = []

    def collect(q, w):
        if q['k'] == 'dict':
            for key, s in zip(q['keys'], q['subs']):
                collect(s, w['vs'][w['ks'].index(key)])
        else:
            flat.extend(w['a'])
    collect(p, v)
    out = []
    kind = 'inside'
    sums = False
    o = 0
    lv = gen.leaves(p)
    hit = set(r.sample(range(len(lv)), min(len(lv), r.choice([0, 1, 1, 2])))) if lv else set()
    if len(lv) > 20 and r.random() < .5:
        hit = {len(lv) - 1 - r.choice([0, 0, 1, 2, 8])}
    for t, l in enumerate(lv):
        n = gen.length(l, False)
        a = [list(x) for x in flat[o:o + n]]
        o += n
        if t in hit and n:
            if l['k'] == 'num' and (l['lo'] or l['hi']):
                i = r.randrange(n)
                b, sgn = r.choice([(l[k], s) for k, s in (('lo', -1), ('hi', 1)) if l[k]])
                e = r.choice([0, 0, sgn, sgn, -sgn])
                a[i] = list(b) + [e]
                if r.random() < .15 and e == sgn:
                    a[i] = rj(Fr(*b) + sgn * r.choice([1, 5, 100]))
                kind = max(kind, 'out' if e == sgn else 'edge', key=['inside', 'edge', 'out'].index)
            elif l['k'] == 'psd':
                m = l['n']
                if m > 1 and r.random() < .5:
                    i, j = r.sample(range(m), 2)
                    e = r.choice([1, -1])
                    a[i * m + j] = a[i * m + j][:2] + [e]
                    if m > 2 and r.random() < .5:
                        # a second asymmetry that cancels the first in sums
                        k = next(t for t in range(m) if t not in (i, j))
                        t = r.choice([i * m + k, k * m + i, k * m + j, j * m + k])
                        a[t] = a[t][:2] + [-e]
                    kind = 'out'
                else:
                    i = r.randrange(m)
                    e = r.choice([0, -1, -1, 1])
                    a[i * m + i] = list(l['lb']) + [e]
                    kind = max(kind, 'out' if e < 0 else 'edge', key=['inside', 'edge', 'out'].index)
            elif l['k'] == 'sim':
                m = l['n']
                s = r.randrange(n // m) * m
                c = r.choice(['sum', 'neg', 'zero', 'swap', 'trade'])
                if c == 'trade' and n > m:
                    # errors of two simplexes that cancel between them
                    i, j = r.sample(range(n // m), 2)
                    for t, e in ((i, 1), (j, -1)):
                        t = t * m + r.randrange(m)
                        a[t] = a[t][:2] + [e]
                    kind, sums = 'out', True
                elif c in ('sum', 'trade'):
                    i = s + r.randrange(m)
                    a[i] = a[i][:2] + [r.choice([1, -1])]
                    kind, sums = 'out', True
                elif c == 'neg':
                    # negative entry, sum still one
                    a[s:s + m] = [[0, 1]] * m
                    i, j = r.sample(range(m), 2)
                    a[s + i] = [0, 1, -1]
                    a[s + j] = [1, 1, 1]
                    kind = 'out'
                elif c == 'zero':
                    a[s:s + m] = [[0, 1]] * m
                    a[s + r.randrange(m)] = [1, 1]
                    kind = max(kind, 'edge', key=['inside', 'edge', 'out'].index)
                else:
                    # compensating errors are no errors
                    i, j = r.sample(range(m), 2)
                    a[s + i] = a[s + i][:2] + [1]
                    a[s + j] = a[s + j][:2] + [-1]
        out += a
    return gen.unflatten(p, out), kind, sums


def mar(r, p, v):
    """The value with some entries infinite or not a number."""
    v = copy.deepcopy(v)
    spots = []

    def walk(w, q):
        if 'ks' in w:
            for key, s in zip(w['ks'], w['vs']):
                if key in q['keys']:
                    walk(s, q['subs'][q['keys'].index(key)])
        else:
            spots.extend((w['a'], i) for i in range(len(w['a'])))
            if q['k'] == 'num' and r.random() < .4 and w['a']:
                w['a'][r.randrange(len(w['a']))] = r.choice([[1, 0], [-1, 0]])
    walk(v, p)
    for a, i in r.sample(spots, min(len(spots), r.choice([0, 1, 1, 2, 3]))):
        a[i] = [0, 0]
    return v


def misshape(r, p, v):
    """The value with one array in a wrong shape, or a key missing."""
    v = copy.deepcopy(v)
    spots = []

    def walk(w, q):
        if 'ks' in w:
            if w['ks']:
                spots.append(('key', w, q))
            for key, s in zip(w['ks'], w['vs']):
                walk(s, q['subs'][q['keys'].index(key)])
        else:
            spots.append(('shape', w, q))
    walk(v, p)
    if not spots:
        return v
    what, w, q = r.choice(spots)
    if what == 'key':
        i = r.randrange(len(w['ks']))
        del w['ks'][i], w['vs'][i]
        return v
    n = len(w['a'])
    sh = w['sh']
    opts = [(sh + [1], w['a']), ([1] + sh, w['a']), ([n + 1], w['a'] + [[1, 2]]),
            (sh[:-1] + [sh[-1] + 1], (w['a'] + w['a'] + [[1, 1]] * 60)[:gen.prod(sh[:-1]) * (sh[-1] + 1)]),
            ([2] + sh, w['a'] * 2)]
    if n > 1:
        opts += [(sh[::-1], w['a']), ([n], w['a']), ([1, n], w['a']), ([n, 1], w['a'])]
        if sh[0] > 1:
            m = n // sh[0] * (sh[0] - 1)
            opts.append(([sh[0] - 1] + sh[1:], w['a'][:m]))
        opts.append(([], w['a'][:1]))
    if n == 1:
        opts.append(([], w['a']))
    w['sh'], w['a'] = r.choice(opts)
    return v


def c03(chk):
    r = gen.rng_for(chk.seed, 'C03')
    bs = []
    kinds = [('leaf', 'n'), ('leaf', 'p'), ('leaf', 's'), ('parr', 'nps'), ('dict', 'nnps')]
    for i in range(chk.n(500, 5000)):
        want, ks = kinds[i % len(kinds)]
        p = gen.rand_tree(r, r.choice([1, 2, 3]), kinds=ks, want=want, maxlen=r.choice([8, 16, 24]))
        if i % 20 == 7:
            p = gen.big_tree(r, r.choice([None, 'parr']))
        gen.set_defaults(r, p)
        p['fd'] = r.choice('NTF')
        ops, opts = [], []

        def add(o, **opt):
            ops.append(o)
            opt.setdefault('how', r.choice(['', 'reused', 'reused', 'fortran', 'strided', 'readonly', 'dict']))
            opt.setdefault('explicit_none', r.random() < .3)
            opts.append(opt)
        for _ in range(r.choice([3, 4, 5])):
            good = gen.rand_value(r, p)
            c = r.random()
            if c < .65:
                v, kind, sums = disturb(r, p, good)
                eps = r.choice([1e-3, 1e-5, 1e-6]) if sums else r.choice([1e-3, 1e-6, 1e-9, 1e-12])
            elif c < .85:
                v, kind, sums, eps = misshape(r, p, good), 'shape', False, 1e-6
            else:
                v, kind, sums, eps = gen.scramble(r, good), 'inside', False, 1e-6
            vv = r.choice('NTF')
            add(op('valid', v=v, vv=vv), eps=eps, how=r.choice(['', '', 'fortran', 'strided', 'list'])
                if kind != 'shape' else '')
            add(flatten_op(v, 'F', vv), eps=eps, tol=1e-14)
            if kind == 'shape':
                # may still be acceptable (a scalar for a length one array)
                add(flatten_op(v, 'F', r.choice('NTF')), eps=eps)
            elif kind == 'out':
                add(flatten_op(v, 'T', 'T'), eps=eps)
            elif kind == 'inside' and not _has_eps(v):
                add(flatten_op(v, 'T', vv))
            if kind != 'shape':
                raw = _collect(p, v)
                add(fold_op(raw, 'F', vv), eps=eps, tol=1e-14)
            if kind in ('out', 'edge', 'inside') and r.random() < .5:
                # entries beyond every number, or which are not numbers
                v = mar(r, p, v)
                vv = r.choice('NTTF')
                add(op('valid', v=v, vv=vv), eps=eps)
                add(flatten_op(v, 'F', vv), eps=eps, tol=1e-14)
                add(fold_op(_collect(p, v), 'F', vv), eps=eps, tol=1e-14)
            if r.random() < .4 and _dv_nodes(p):
                add(op('setdv', r.choice(_dv_nodes(p)), val=r.random() < .5))
            if r.random() < .4:
                # vectors of a wrong length or dimension
                free = r.choice('TF')
                n = gen.length(p, free == 'T')
                sh = r.choice([[n + 1], [max(n - 1, 0)], [1, n], [n, 1], [1, 1, n], [n + 3], [0], []])
                a = [['ln', 1, 1, 0] if k else [1, 2] for k in [free == 'T'] * gen.prod(sh)]
                if sh == [] and n == 1 or sh == [n]:
                    continue
                add(fold_op(a, free, r.choice('NTF'), sh=sh))
        bs.append({'p': p, 'ops': ops, 'opts': opts})
    conform(chk, 'accepted and rejected values', 'OrigamiReplay', bs, run_session)
    # Exhaustive: which setting decides, in a nested pattern.
    for name, p in VALID_TREES:
        from common import explore
        ops = []
        for path, node in gen.paths(p):
            if 'dv' in node:
                ops += [op('setdv', path, val=b) for b in (True, False)]
        good, bads = _good_and_bad(p)
        for v in [good] + bads:
            for vv in 'NTF':
                ops.append(op('valid', v=v, vv=vv))
                ops.append(flatten_op(v, 'F', vv))
                ops.append(fold_op(_collect(p, v), 'F', vv))
        explore(chk, 'who decides on checking (%s)' % name, 'OrigamiMC', {'p': p, 'ops': ops},
                run_states, r)


def _num(lo=None, hi=None, sh=(1,), cls='arr'):
    return {'k': 'num', 'cls': cls, 'sh': list(sh), 'lo': [] if lo is None else rj(lo),
            'hi': [] if hi is None else rj(hi), 'dv': True, 'fd': 'N'}


def _psd(n, lb=0):
    return {'k': 'psd', 'n': n, 'lb': rj(lb), 'dv': True, 'fd': 'N'}


def _sim(n, sh):
    return {'k': 'sim', 'n': n, 'sh': list(sh), 'dv': True, 'fd': 'N'}


def _dict(**subs):
    return {'k': 'dict', 'keys': list(subs), 'subs': list(subs.values()), 'fd': 'N'}


def _parr(sh, base):
    return {'k': 'parr', 'sh': list(sh), 'base': base, 'fd': 'N'}


VALID_TREES = [
    ('dict', _dict(z=_num(0, 2, (2,), 'vec'), a=_dict(s=_sim(2, ()), m=_psd(2, 1)),
                   q=_parr((2,), _num(None, 3, (1,), 'sca')))),
    ('arrays', _dict(p=_parr((2, 1), _psd(1, 0)), s=_parr((2,), _sim(2, (1,))), n=_num(-1, None, (1, 2)))),
]


def _good_and_bad(p):
    """A valid value, and for every leaf and array element one with just that bad."""
    r = gen.rng_for(7, 'gb')
    flat = [rj(x) for x in gen.fold(p, gen.rand_free(r, p))]
    bads = []
    o = 0
    for l in gen.leaves(p):
        n = gen.length(l, False)
        a = [list(x) for x in flat]
        if l['k'] == 'num':
            a[o + n - 1] = rj(Fr(*l['lo']) - 1) if l['lo'] else rj(Fr(*l['hi']) + 1)
        elif l['k'] == 'psd':
            a[o + n - 1] = rj(Fr(*l['lb']) - 1)
        else:
            a[o + n - 1] = [3, 1]
        bads.append(gen.unflatten(p, a))
        o += n
    return gen.unflatten(p, flat), bads


def _has_eps(v):
    if 'ks' in v:
        return any(_has_eps(s) for s in v['vs'])
    return any(len(x) == 3 and x[2] for x in v['a'])


def _collect(p, v):
    if p['k'] == 'dict':
        return [x for key, s in zip(p['keys'], p['subs'])
                for x in _collect(s, v['vs'][v['ks'].index(key)])]
    return list(v['a'])


def _dv_nodes(p):
    return [path for path, q in gen.paths(p) if 'dv' in q]


# ------------------------------------------------------------------ C04
def c04(chk):
    r = gen.rng_for(chk.seed, 'C04')
    bs = []
    for i in range(chk.n(300, 3000)):
        if i % 5 == 4:
            # many members, keys whose insertion order is not their sorted order
            ks = ['k%d' % j for j in range(12)]
            r.shuffle(ks)
            p = {'k': 'dict', 'keys': ks, 'fd': 'N', 'subs': [
                gen.rand_leaf(r, 'nnnps', 2) if r.random() < .5 else
                gen.rand_num(r, cls='sca') for _ in ks]}
            if gen.length(p, False) > 40:
                p['subs'] = [gen.rand_num(r, cls='sca') for _ in ks]
        elif i % 5 == 3:
            p = {'k': 'parr', 'sh': r.choice([[3, 2], [2, 3], [2, 1, 3], [4]]),
                 'base': r.choice([gen.rand_num(r, maxlen=4), gen.rand_psd(r, 2), gen.rand_sim(r, 3)]),
                 'fd': 'N'}
            while not 0 < gen.length(p, False) <= 40:
                p['base'] = gen.rand_num(r, maxlen=3)
        else:
            p = gen.rand_tree(r, 3, want='dict', maxlen=30)
        if i % 25 == 7:
            p = gen.big_tree(r, r.choice(['dict', 'parr', 'chain']))
        gen.set_defaults(r, p)
        p['fd'] = r.choice('TFN')
        v = gen.rand_value(r, p)
        ops, opts = [], []
        xs = gen.rand_free(r, p)
        raw = [rj(x) for x in gen.fold(p, xs)]
        for f in 'TFN':
            for w in (v, gen.scramble(r, v)):
                ops.append(flatten_op(w, f))
                opts.append({'how': r.choice(HOWS)})
            ops.append(op('len', free=f))
            opts.append({})
            if f == 'N' and p['fd'] == 'N':
                ops.append(fold_op(raw, f))
            else:
                t = f == 'T' or f == 'N' and p['fd'] == 'T'
                ops.append(fold_op(gen.free_json(xs) if t else raw, f, interior=t))
            opts.append({})
            if r.random() < .5:
                path, _ = r.choice(list(gen.paths(p)))
                ops.append(op('setfd', path, val=r.choice('NTF')))
                opts.append({})
                p2 = copy.deepcopy(p)
                _set(p2, path, ops[-1]['val'])
                p2, p_now = p, p2
                # later folds in this session use the new default of the root
                if not path:
                    break
        ops.append(op('empty'))
        opts.append({})
        bs.append({'p': p, 'ops': ops, 'opts': opts})
    conform(chk, 'container vectors', 'OrigamiReplay', bs, run_session)


def _set(p, path, val):
    for i in path:
        p = p['base'] if i == 0 else p['subs'][i - 1]
    p['fd'] = val


# ------------------------------------------------------------------ C06
MASK_TREES = [
    _num(0, None, (2, 2)), _num(None, None, (3,), 'vec'), _num(0, 1, (1,), 'sca'), _psd(2), _psd(1, 1),
    _sim(3, ()), _sim(2, (2,)), _parr((2,), _num(0, None, (2,))), _parr((2,), _psd(1)),
    _parr((2,), _sim(2, (1,))), _dict(b=_num(0, 1, (2,)), a=_sim(2, (1,))),
    _dict(z=_psd(1), a=_dict(y=_num(), b=_num(0, None)), c=_parr((2,), _num(cls='sca'))),
    _num(None, 2, (1, 2, 2)), _dict(m=_psd(2), n=_num(cls='sca')), _parr((1, 2), _sim(2, ())),
    _parr((2,), _parr((2,), _num(0, 2))),
]


def c06(chk):
    import itertools
    r = gen.rng_for(chk.seed, 'C06')
    # every mask of small patterns, both parametrisations
    bs = []
    for p in MASK_TREES:
        n = gen.length(p, False)
        masks = list(itertools.product([False, True], repeat=n))
        for lo in range(0, len(masks), 16):
            ops = [op('idx', m=gen.unflatten(p, list(m)), free=f) for m in masks[lo:lo + 16] for f in 'TF']
            bs.append({'p': p, 'ops': ops, 'opts': [{'exact': o['free'] == 'F'} for o in ops]})
    conform(chk, 'every mask of small patterns', 'OrigamiReplay', bs, run_session)
    chk.exhaustive['every mask of small patterns'] = True
    bs = []
    for i in range(chk.n(260, 2600)):
        p = gen.rand_tree(r, r.choice([1, 2, 3]), maxlen=30, want=[None, 'dict', 'parr'][i % 3])
        if i % 20 == 7:
            p = gen.big_tree(r)
        gen.set_defaults(r, p)
        ops, opts = [], []
        for _ in range(6):
            m = gen.rand_mask(r, p)
            if r.random() < .3:
                m = gen.scramble(r, m, extra=False)
            f = r.choice('TTFN')
            ops.append(op('idx', m=m, free=f))
            opts.append({'how': r.choice(['', 'reused', 'reused', 'fortran', 'readonly', 'dict'])})
        for path, q in gen.paths(p):
            if r.random() < .3:
                ops.append(op('idx', path, m=gen.rand_mask(r, q), free=r.choice('TF')))
                opts.append({})
        # masks of a wrong shape
        m = misshape_mask(r, p)
        if m is not None:
            ops.append(op('idx', m=m, free=r.choice('TF')))
            opts.append({})
        ops.append(op('empty'))
        opts.append({})
        for o, opt in zip(ops, opts):
            opt['exact'] = o.get('free') == 'F'
        bs.append({'p': p, 'ops': ops, 'opts': opts})
    conform(chk, 'random masks', 'OrigamiReplay', bs, run_session)


def misshape_mask(r, p):
    """A mask with the shape of one selected array changed."""
    m = gen.rand_mask(r, p, .9)
    spots = []

    def walk(w):
        if 'ks' in w:
            for s in w['vs']:
                walk(s)
        elif any(w['a']):
            spots.append(w)
    walk(m)
    if not spots:
        return None
    w = r.choice(spots)
    n = len(w['a'])
    sh = w['sh']
    w['sh'], w['a'] = r.choice([(sh + [1], w['a']), ([1] + sh, w['a']), ([n + 1], w['a'] + [True]),
                                ([2] + sh, w['a'] * 2)])
    return m


# ------------------------------------------------------------------ C07
def c07(chk):
    r = gen.rng_for(chk.seed, 'C07')
    bs = []
    kinds = [('leaf', 'n', 3), ('leaf', 'p', 3), ('leaf', 's', 2), ('parr', 'nps', 2), ('dict', 'nnps', 2),
             ('dict', 'n', 2)]
    for i in range(chk.n(240, 2400)):
        want, ks, pm = kinds[i % len(kinds)]
        p = gen.rand_tree(r, r.choice([1, 2]), kinds=ks, want=want, maxlen=14, psdmax=pm)
        if i % 24 == 7:
            p = gen.big_tree(r, maxlen=45)
        gen.set_defaults(r, p)
        numeric = all(q['k'] in ('num', 'dict') for _, q in gen.paths(p))
        ops, opts = [], []
        for _ in range(2):
            ops.append(op('jac', v=gen.rand_value(r, p)))
            opts.append({'logdet': numeric})
        bs.append({'p': p, 'ops': ops, 'opts': opts})
    conform(chk, 'Jacobians', 'OrigamiReplay', bs, run_session)
    scaled(chk, r, 'Jacobians of extreme values', scale.run_jac, chk.n(160, 1600), jac=True)


# ------------------------------------------------------------------ C08
DEFAULT_TREES = [
    _dict(a=_num(0, None, (2,), 'vec'), s=_dict(m=_parr((2,), _sim(2, ())))),
    _parr((2,), _parr((1,), _psd(1))),
    _dict(n=_num(0, 1), p=_psd(2), s=_sim(3, (2,))),
]


def c08(chk):
    from common import explore
    r = gen.rng_for(chk.seed, 'C08')
    trees = list(DEFAULT_TREES)
    if chk.thorough:
        trees += [_dict(x=_dict(y=_dict(z=_num(0, None))), w=_num(cls='sca')),
                  _dict(a=_parr((2,), _num(0, 1)), b=_psd(1), c=_sim(2, ()))]
    for t, p in enumerate(trees):
        ops, opts = [], {}
        for path, node in gen.paths(p):
            ops += [op('setfd', path, val=f) for f in 'NTF']
            xs = gen.rand_free(r, node)
            raw = [rj(x) for x in gen.fold(node, xs)]
            v = gen.unflatten(node, raw)
            m = gen.rand_mask(r, node, .7)
            for f in 'NTF':
                ops += [flatten_op(v, f, path=path), fold_op(gen.free_json(xs), f, path=path),
                        fold_op(raw, f, path=path), op('len', path, free=f),
                        op('idx', path, m=m, free=f)]
        # a raw vector folded as a free one (of the same length) and vice versa
        # has another meaning: only keep those whose reading is not ambiguous
        ops = [o for o in ops if not (o['op'] == 'fold' and not _fits(p, o))]
        for i in range(len(ops)):
            opts[i] = {'explicit_none': r.random() < .5}
        explore(chk, 'defaults of tree %d' % t, 'OrigamiMC', {'p': p, 'ops': ops, 'opts': opts},
                run_states, r)


    # patterns made with all sorts of defaults, some of them changed along the way
    bs = []
    for i in range(chk.n(300, 4000)):
        p = gen.rand_tree(r, r.choice([0, 1, 2, 2, 3]), maxlen=14, want=[None, 'dict', 'parr'][i % 3])
        gen.set_defaults(r, p)
        for _, q in gen.paths(p):
            if r.random() < .3:
                q['fd'] = 'N'
        ops, opts = [], []

        def ask(path, node):
            xs = gen.rand_free(r, node)
            raw = [rj(x) for x in gen.fold(node, xs)]
            v = gen.unflatten(node, raw)
            free = r.choice('NNNTF')
            # the parametrisation in force, and now and then the other one
            use = fds.get(tuple(path), node['fd']) if free == 'N' else free
            same = gen.length(node, True) == gen.length(node, False)
            asfree = use == 'T' or use == 'N' and r.random() < .5
            if not same and r.random() < .2:
                asfree = not asfree
            todo = [flatten_op(v, free, path=path), op('len', path, free=free),
                    fold_op(gen.free_json(xs) if asfree else raw, free, path=path),
                    op('idx', path, m=gen.rand_mask(r, node, .7), free=free)]
            for o in r.sample(todo, 3):
                ops.append(o)
                opts.append({'explicit_none': r.random() < .5})
        fds = {}
        nodes = list(gen.paths(p))
        for path, node in r.sample(nodes, min(len(nodes), 3)):
            ask(path, node)
        for _ in range(r.choice([0, 1, 2])):
            path, node = r.choice(nodes)
            fds[tuple(path)] = r.choice('NTF')
            ops.append(op('setfd', path, val=fds[tuple(path)]))
            opts.append({})
            ask(path, node)
            if path and r.random() < .7:
                ask((), p)
        bs.append({'p': p, 'ops': ops, 'opts': opts})
    conform(chk, 'random defaults', 'OrigamiReplay', bs, run_session)


def _fits(p, o):
    from session import node_of
    node = node_of(p, o['path'])
    return True if gen.length(node, True) != gen.length(node, False) else \
        isinstance(o['x']['a'][0][0], str) and o['free'] == 'T' or \
        not isinstance(o['x']['a'][0][0], str) and o['free'] == 'F'


# ------------------------------------------------------------------ C19
MODES_R = [('r',), ('rr',), ('hv',), ('J',), ('r', 'rr')]
MODES_F = [('f',), ('ff',), ('fr',), ('rf',), ('ffv',)]


def c19(chk):
    r = gen.rng_for(chk.seed, 'C19')
    bs = []
    kinds = [('leaf', 'n', 3), ('leaf', 'p', 2), ('leaf', 's', 2), ('parr', 'nps', 2), ('dict', 'nnps', 2)]
    for i in range(chk.n(240, 2400)):
        want, ks, pm = kinds[i % len(kinds)]
        p = gen.rand_tree(r, r.choice([1, 2]), kinds=ks, want=want, maxlen=12, psdmax=pm)
        gen.set_defaults(r, p)
        n = gen.length(p, False)
        if n == 0:
            continue
        ops, opts = [], []
        for f in ('T', 'T', 'F'):
            xs = gen.rand_free(r, p)
            m = gen.length(p, f == 'T')
            ops.append(op('dfold', free=f, x=gen.free_json(xs) if f == 'T' else
                          [rj(x) for x in gen.fold(p, xs)],
                          a=gen.rand_dir(r, m), b=gen.rand_dir(r, m), lin=gen.rand_dir(r, n),
                          quad=[[r.randint(1, n), r.randint(1, n), rj(r.choice([1, 2, -1]))]
                                for _ in range(r.choice([0, 1, 3]))]))
            opts.append({'modes': r.choice(MODES_R) + r.choice(MODES_F) + ('r', 'f'),
                         'wrapped': r.random() < .5})
        v = gen.rand_value(r, p)
        ops.append(op('dflat', v=v, a=gen.valid_dir(r, p), b=gen.valid_dir(r, p),
                      lin=gen.rand_dir(r, gen.length(p, True))))
        opts.append({'second': r.random() < .6})
        bs.append({'p': p, 'ops': ops, 'opts': opts})
    conform(chk, 'chain rule', 'OrigamiReplay', bs, run_session)
    bs = []
    for i in range(chk.n(120, 1600)):
        p = gen.rand_tree(r, r.choice([1, 2]), kinds='n', want=['leaf', 'dict'][i % 2], maxlen=10)
        if any(q['k'] == 'parr' for _, q in gen.paths(p)):
            continue
        gen.set_defaults(r, p)
        ops, opts = [], []
        for f in ('T', 'F'):
            xs = gen.rand_free(r, p)
            n = len(xs)
            if n:
                ops.append(op('dlogdet', free=f, x=gen.free_json(xs) if f == 'T' else
                              [rj(x) for x in gen.fold(p, xs)], a=gen.rand_dir(r, n), b=gen.rand_dir(r, n)))
                opts.append({'modes': r.choice([('r', 'f'), ('r', 'rr'), ('f', 'fr'), ('r', 'f', 'rr', 'fr')])})
        if ops:
            bs.append({'p': p, 'ops': ops, 'opts': opts})
    conform(chk, 'change of variables', 'OrigamiReplay', bs, run_session)
    scaled(chk, r, 'derivatives at extreme values', scale.run_grad, chk.n(120, 1200), jac=True, maxlen=8)


# ------------------------------------------------------------------ C20
def c20(chk):
    r = gen.rng_for(chk.seed, 'C20')
    bs = []
    for i in range(chk.n(300, 3000)):
        p = gen.rand_tree(r, r.choice([1, 2, 3]), maxlen=60, want=[None, 'dict', 'parr', 'leaf'][i % 4])
        if i % 20 == 7:
            p = gen.big_tree(r)
        gen.set_defaults(r, p)
        ops = []
        for path, q in gen.paths(p):
            for f in 'TF':
                ops.append(op('names', path, free=f, delim='_'))
                if q['k'] == 'dict' and r.random() < .6:
                    ops.append(op('names', path, free=f, delim=r.choice(['.', '', '//', '_-_'])))
        bs.append({'p': p, 'ops': ops, 'opts': [{}] * len(ops)})
    conform(chk, 'names', 'OrigamiReplay', bs, run_session)
