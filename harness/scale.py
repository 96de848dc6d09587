"""Behaviours of Scale.tla on the real patterns: values over many magnitudes.

Expected values are exact quotients of Laurent polynomials in B = 2^K; bounds on
the rounding error of each entry follow from its conditioning (the unit
roundoff of what is subtracted in it), so small entries must be right relative
to themselves, not relative to the largest ones.
"""
import copy
import math
from collections import OrderedDict
from fractions import Fraction as Fr

import numpy as np

import gen
from gen import rj
from objects import Mismatch, build, dense
from session import POOL, call, raw_flat, reused

U = 2.0 ** -53


# ---------------------------------------------------------------- inputs
QS = [Fr(1), Fr(2), Fr(1, 2), Fr(3), Fr(3, 2)]


def rand_case(r, maxlen=10, psdmax=2, depth=2, jac=False):
    for _ in range(100):
        p = gen.rand_tree(r, r.choice([0, 1, depth]), kinds=r.choice(['n', 'p', 's', 'nps']),
                          maxlen=maxlen, psdmax=psdmax)
        if gen.length(p, False):
            break
    for _, q in gen.paths(p):
        if q['k'] == 'num':
            q['bm'] = r.choice([0, 0, 0, 1, -1])
            z = r.random()
            if z < .3 and q['lo']:                      # sharp at zero
                if q['hi']:
                    q['hi'] = rj(Fr(*q['hi']) - Fr(*q['lo']))
                q['lo'] = [0, 1]
            elif z < .45 and q['hi']:
                if q['lo']:
                    q['lo'] = rj(Fr(*q['lo']) - Fr(*q['hi']))
                q['hi'] = [0, 1]
        elif q['k'] == 'psd':
            q['bm'] = 0
            if r.random() < .7:
                q['lb'] = [0, 1]
    psd = any(l['k'] == 'psd' for l in gen.leaves(p))
    plain = all(l['k'] == 'num' for l in gen.leaves(p))
    K = r.choice([20, 40, 60, 90, 130] + (
        [] if jac and psd else [200, 330] if jac else [200, 330, 480]) + ([960] if plain else []))
    if K == 960:
        for _, q in gen.paths(p):
            if q['k'] == 'num':
                q['bm'] = 0
    if r.random() < .5:
        K = -K
    ops, opts = [], []
    for _ in range(2):
        ops.append({'op': 'pair', 'x': [y for l in gen.leaves(p) for y in rand_leaf(r, l, K)],
                    'jac': jac})
        opts.append({})
    return {'p': p, 'ops': ops, 'opts': opts, 'K': K}


def rand_leaf(r, p, K):
    if p['k'] == 'num':
        kind = 'ln' if p['lo'] or p['hi'] else 're'
        return [[kind] + rj(r.choice(QS) * (r.choice([1, -1]) if kind == 're' else 1)) +
                [r.choice([-2, -1, -1, 0, 1, 1, 2] if abs(K) <= 130 else [-1, 0, 1])]
                for _ in range(gen.prod(p['sh']))]
    if p['k'] == 'sim':
        return [['ln'] + rj(r.choice(QS)) + [r.choice([-2, -1, 0, 0, 1, 2] if abs(K) <= 130 else [-1, 0, 1])]
                for _ in range(gen.prod(p['sh']) * (p['n'] - 1))]
    if p['lb'][0]:
        # the same scale everywhere, at least that of the bound
        s = [r.choice([0, 1 if K > 0 else -1])] * p['n']
    else:
        s = [r.choice([-1, 0, 1, 2]) if abs(K) <= 60 else r.choice([-1, 0, 1]) for _ in range(p['n'])]
    return [['ln' if i == j else 're'] + rj(r.choice(QS) * (1 if i == j else r.choice([1, -1]))) + [s[i]]
            for i in range(p['n']) for j in range(i + 1)]


# ---------------------------------------------------------------- numbers
def poly(a, B):
    return sum((Fr(c[0], c[1]) * B ** m for c, m in a), Fr(0))


def quot(x, B):
    return poly(x[0], B) / poly(x[1], B)


def exact(x, B):
    """The rational q B^m of a free number."""
    return Fr(x[1], x[2]) * B ** x[3]


def as_float(x, B):
    q = exact(x, B)
    if x[0] == 're':
        return float(q)
    return log(q)


def log(q):
    if Fr(1, 2) < q < 2:
        return math.log1p(float(q - 1))
    return math.log(q.numerator) - math.log(q.denominator)


def concrete(p, B):
    """The pattern with its bounds multiplied by B^bm."""
    p = copy.deepcopy(p)
    for _, q in gen.paths(p):
        if q['k'] == 'num':
            for f in ('lo', 'hi'):
                if q[f]:
                    b = Fr(*q[f]) * B ** q['bm']
                    q[f] = [b.numerator, b.denominator]
    return p


def check(name, got, want, tol):
    """Entrywise |got - want| <= tol; entries of infinite tolerance are free."""
    got = np.asarray(got, dtype=float)
    want, tol = np.asarray(want, dtype=float), np.asarray(tol, dtype=float)
    if got.shape != want.shape:
        raise Mismatch('%s: shape %s, expected %s' % (name, got.shape, want.shape))
    with np.errstate(all='ignore'):
        ok = (np.abs(got - want) <= tol) | np.isinf(tol) | (got == want)
    if not np.all(ok):
        i = tuple(np.argwhere(~ok)[0])
        raise Mismatch('%s: at %s got %r, expected %r within %r' % (name, i, got[i], want[i], tol[i]))


# ---------------------------------------------------------------- errors
def conditioning(l, xs, vs, B):
    """Absolute tolerances for the folded entries, for the free ones, and
    relative ones for the Jacobian (rows, columns) of one leaf."""
    es = [exact(x, B) for x in xs]
    xf = [as_float(x, B) for x in xs]
    rel = [1e-13 * (8 + abs(x)) for x in xf]
    big = float('inf')
    tv, tx = [], []
    if l['k'] == 'num':
        lo = Fr(*l['lo']) if l['lo'] else None
        hi = Fr(*l['hi']) if l['hi'] else None
        for e, x, v in zip(es, xf, vs):
            if lo is None and hi is None:
                tv.append(abs(float(v)) * 1e-15)
                tx.append(abs(float(v)) * 1e-15)
                continue
            mags = [abs(v)] + [abs(b) for b in (lo, hi) if b is not None]
            c = 4 * U * float(max(mags))
            dist = [v - lo] if lo is not None else []
            dist += [hi - v] if hi is not None else []
            # what is known of each distance: v and the bounds are rounded
            err = [4 * U * float(abs(v) + (0 if Fr(float(b)) == b else abs(b)) + abs(v - b))
                   for b in (lo, hi) if b is not None]
            # relative precision of the distance that sets the scale
            tv.append(1e-13 * (8 + abs(x)) * float(min(dist)) + c)
            t = 1e-12 * (1 + abs(x)) + sum(8 * e / float(d) for e, d in zip(err, dist))
            tx.append(t if t < 1e-2 else big)
        return tv, tx
    if l['k'] == 'sim':
        m = l['n'] - 1
        for s in range(gen.prod(l['sh'])):
            row = xf[s * m:(s + 1) * m]
            t = 1e-13 * (8 + max([abs(x) for x in row] + [0]) * 2)
            tv += [t * float(v) for v in vs[s * l['n']:(s + 1) * l['n']]]
        return tv, [1e-12 * (1 + abs(x)) for x in xf]
    n = l['n']
    s, kappa = psd_scales(l, xs, vs, B)
    lb = float(Fr(*l['lb']))
    tv = [1e-12 * s[i] * s[j] + (8 * U * float(vs[i * n + j]) if i == j else 0)
          for i in range(n) for j in range(n)]
    t = 1e-13 * kappa
    tx = []
    it = iter(xf)
    for i in range(n):
        for j in range(i + 1):
            x = next(it)
            tx.append(big if t > 1e-4 else (t + 1e-12 * (1 + abs(x)) if i == j else t * s[i]))
    return tv, tx


def psd_scales(l, xs, vs, B):
    """Row scales of the factor, and a bound on the conditioning of the rows."""
    n = l['n']
    L = np.zeros((n, n))
    it = iter(xs)
    for i in range(n):
        for j in range(i + 1):
            L[i, j] = float(exact(next(it), B))
    s = np.sqrt(np.sum(L ** 2, axis=1))
    kappa = 1.0
    for i in range(n):
        kappa = max(kappa, (s[i] / abs(L[i, i])) ** 2, float(vs[i * n + i]) / L[i, i] ** 2)
    return s, kappa ** max(1, n - 1) * 10


def jac_tol(l, xs, vs, u, B):
    """Absolute tolerances for U (rows x columns of the leaf)."""
    tv, tx = conditioning(l, xs, vs, B)
    want = np.array([[float(x) for x in row] for row in u]).reshape(len(vs), len(xs))
    if l['k'] == 'num':
        return want, np.abs(want) * (1e-11 + 8 * np.array(tx))[:, None]
    if l['k'] == 'sim':
        xf = np.array([as_float(x, B) for x in xs])
        return want, np.abs(want) * 1e-11 + 16 * U * np.array([float(v) for v in vs])[:, None] * (want != 0)
    n = l['n']
    s, kappa = psd_scales(l, xs, vs, B)
    pos = [(i, j) for i in range(n) for j in range(i + 1)]
    tol = np.zeros(want.shape)
    for a in range(n * n):
        for b, (i, j) in enumerate(pos):
            w = s[i] if i == j else 1.0
            x, y = a // n, a % n
            tol[a, b] = w * ((s[y] if x == i else 0) + (s[x] if y == i else 0))
    k = 1e-12 * kappa
    return want, tol * (k if k < 1e-4 else float('inf')) if k < 1e-4 else np.where(tol > 0, np.inf, 0)


# ---------------------------------------------------------------- running
def setup(case, op, rec):
    B = Fr(2) ** case['K'] if case['K'] >= 0 else Fr(1, 2 ** -case['K'])
    p = concrete(case['p'], B)
    ls = gen.leaves(p)
    xs, o = [], 0
    for l in ls:
        n = gen.length(l, True)
        xs.append(op['x'][o:o + n])
        o += n
    vs = [[quot(e, B) for e in leaf] for leaf in rec['out']['v']]
    return B, p, ls, xs, vs


def unflat(p, a):
    """A folded value from a flat float vector."""
    if p['k'] == 'dict':
        out, o = OrderedDict(), 0
        for k, s in zip(p['keys'], p['subs']):
            n = gen.length(s, False)
            out[k] = unflat(s, a[o:o + n])
            o += n
        return out
    return np.array(a, dtype=float).reshape(gen.shape(p))


def run_pairs(case, outs):
    """C01, C02: folding and flattening."""
    with np.errstate(all='ignore'):
        obj = None
        POOL.clear()
        for op, opt, rec in zip(case['ops'], case['opts'], outs):
            B, p, ls, xs, vs = setup(case, op, rec)
            obj = obj or build(p)
            where = '%s with B = 2^%d' % (obj, case['K'])
            try:
                pair(obj, p, ls, xs, vs, B)
            except Mismatch as e:
                raise Mismatch('%s: %s' % (where, e))


def pair(obj, p, ls, xs, vs, B):
    tvs, txs = [], []
    for l, x, v in zip(ls, xs, vs):
        tv, tx = conditioning(l, x, v, B)
        tvs += tv
        txs += tx
    xf = np.array([as_float(x, B) for leaf in xs for x in leaf])
    vf = np.array([float(v) for leaf in vs for v in leaf])
    got = call(lambda: obj.fold(reused(xf), free=True), 'ok', 'fold')
    check('fold', raw_flat(got), vf, tvs)
    ok, msg = obj.validate_folded(got, validate_value=True)
    if not ok:
        raise Mismatch('fold of %r is not valid: %s' % (xf.tolist(), msg))
    val = reused(unflat(p, vf))
    ok, msg = obj.validate_folded(val, validate_value=True)
    if not ok:
        raise Mismatch('%r is refused: %s' % (vf.tolist(), msg))
    raw = call(lambda: obj.flatten(val, free=False, validate_value=True), 'ok', 'flatten')
    check('non-free flatten', raw, vf, 0 * vf)
    back = call(lambda: obj.fold(vf.copy(), free=False, validate_value=True), 'ok', 'fold')
    check('non-free fold', raw_flat(back), vf, 0 * vf)
    if any(np.isinf(t) for leaf, x, v in zip(ls, xs, vs) if leaf['k'] == 'psd'
           for t in conditioning(leaf, x, v, B)[1]):
        return      # the factor may not even exist after rounding
    free = call(lambda: obj.flatten(val, free=True, validate_value=True), 'ok', 'flatten')
    check('flatten', free, xf, txs)


def run_jac(case, outs):
    """C07: Jacobians, relative to each entry."""
    with np.errstate(all='ignore'):
        obj = None
        POOL.clear()
        for op, opt, rec in zip(case['ops'], case['opts'], outs):
            B, p, ls, xs, vs = setup(case, op, rec)
            obj = obj or build(p)
            us = [[[quot(e, B) for e in row] for row in blk['m']] for blk in rec['out']['u']]
            try:
                jac(obj, p, ls, xs, vs, us, B)
            except Mismatch as e:
                raise Mismatch('%s with B = 2^%d: %s' % (obj, case['K'], e))


def blocks(ls, xs, vs, us, B):
    r, c = sum(map(len, vs)), sum(map(len, xs))
    want, tol = np.zeros((r, c)), np.zeros((r, c))
    i = j = 0
    for l, x, v, u in zip(ls, xs, vs, us):
        w, t = jac_tol(l, x, v, u, B)
        want[i:i + len(v), j:j + len(x)] = w
        tol[i:i + len(v), j:j + len(x)] = t
        i += len(v)
        j += len(x)
    return want, tol


def jac(obj, p, ls, xs, vs, us, B):
    want, tol = blocks(ls, xs, vs, us, B)
    if np.any(np.isinf(tol)):
        return
    val = reused(unflat(p, np.array([float(v) for leaf in vs for v in leaf])))
    mats = {}
    for name in ('unfreeing_jacobian', 'freeing_jacobian'):
        fn = getattr(obj, name)
        d = dense(call(lambda: fn(val, sparse=False), 'ok', name))
        for s in (call(lambda: fn(val), 'ok', name), call(lambda: fn(val, sparse=True), 'ok', name)):
            s = dense(s)
            check(name + ', sparse against dense', s, d, 1e-13 * np.abs(d))
        mats[name] = d
    u, f = mats['unfreeing_jacobian'], mats['freeing_jacobian']
    check('unfreeing_jacobian', u, want, tol)
    if f.shape != want.T.shape:
        raise Mismatch('freeing_jacobian has shape %s' % (f.shape,))
    # freeing . unfreeing = identity, relative to the terms of each sum
    err = np.abs(f) @ np.abs(want) * 1e-9 + np.abs(f) @ tol
    check('freeing . unfreeing', f @ want, np.eye(f.shape[0]), err)
    if all(l['k'] == 'num' for l in ls):
        ld = sum(log(abs(us[i][k][k])) for i in range(len(us)) for k in range(len(us[i])))
        t = float(np.sum(np.diag(tol) / np.abs(np.diag(want)))) + 1e-12 * (
            1 + sum(abs(log(abs(us[i][k][k]))) for i in range(len(us)) for k in range(len(us[i]))))
        if _all_numeric(p):
            check('log_abs_det_unfreeing_jacobian', obj.log_abs_det_unfreeing_jacobian(val), ld, t)
            check('log_abs_det_freeing_jacobian', obj.log_abs_det_freeing_jacobian(val), -ld, t)


def _all_numeric(p):
    return all(q['k'] in ('num', 'dict') for _, q in gen.paths(p))


def run_grad(case, outs):
    """C19: derivatives of fold at free vectors of large magnitude."""
    import autograd
    with np.errstate(all='ignore'):
        obj = None
        POOL.clear()
        for op, opt, rec in zip(case['ops'], case['opts'], outs):
            B, p, ls, xs, vs = setup(case, op, rec)
            obj = obj or build(p)
            us = [[[quot(e, B) for e in row] for row in blk['m']] for blk in rec['out']['u']]
            want, tol = blocks(ls, xs, vs, us, B)
            # derivatives at the free vector suffer no cancellation
            loose = np.abs(want) * 1e-10
            i = j = 0
            for l, x, v in zip(ls, xs, vs):
                if l['k'] != 'num':
                    loose[i:i + len(v), j:j + len(x)] = tol[i:i + len(v), j:j + len(x)]
                i += len(v)
                j += len(x)
            xf = reused(np.array([as_float(x, B) for leaf in xs for x in leaf]))
            f = lambda w: raw_flat(obj.fold(w, free=True))
            what = '%s with B = 2^%d at %r' % (obj, case['K'], xf.tolist())
            try:
                check('jacobian of fold, ' + what, autograd.jacobian(f)(xf), want, loose)
                for c in range(len(xf)):
                    e = np.zeros(len(xf))
                    e[c] = 1.0
                    check('jvp of fold, ' + what, autograd.make_jvp(f)(xf)(e)[1], want[:, c], loose[:, c])
            except Mismatch:
                raise
            except Exception as e:
                raise Mismatch('%s: differentiation failed with %s: %s' % (what, type(e).__name__, e))
