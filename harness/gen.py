"""Random pattern terms, values and operations (the inputs of the checks).

Nothing here decides anything: expected outcomes come from the specification.
The values are generated through a free vector so that they are inside the
constraints (the specification re-checks that).
"""
import copy
import random
from fractions import Fraction as Fr

F = Fr
KEYS = ['b', 'a', 'z', 'mu', 'x_1', 'Sigma', 'k', 'y 2', 'aa', 'c', '10', '', '\u03c3\u00b2',
        'a_rather_long_name_for_a_member_of_a_dictionary', 'Sigma_0', 'pattern', 'keys', 'contents',
        'free_default', 'quote"d', 'back\\slash', "it's", 'line\nbreak', '{0}', '%s', '[0]', 'a_[1]']


def rj(x):
    x = Fr(x)
    return [x.numerator, x.denominator]


def prod(s):
    n = 1
    for x in s:
        n *= x
    return n


def rng_for(seed, *names):
    return random.Random('%s/%s' % (seed, '/'.join(map(str, names))))


BOUNDS = [F(0), F(1), F(-1), F(2), F(-3), F(1, 2), F(-5, 4), F(7, 2), F(10), F(-20), F(1, 3), F(100)]


def rand_num(r, cls=None, sh=None, maxlen=8):
    cls = cls or r.choice(['arr', 'arr', 'vec', 'sca'])
    if sh is None:
        if cls == 'sca':
            sh = [1]
        elif cls == 'vec':
            sh = [r.choice([1, 2, 3, 5])]
        else:
            sh = r.choice([[1], [2], [3], [1, 1], [2, 1], [1, 3], [2, 2], [2, 3], [3, 2],
                           [2, 1, 2], [1, 2, 3], [2, 2, 2], [1, 1, 1, 2]])
            while prod(sh) > maxlen:
                sh = sh[:-1]
        if cls != 'sca' and r.random() < .04:
            sh = [0] if cls == 'vec' else r.choice([[0], [2, 0], [0, 3]])
    kind = r.choice(['none', 'lo', 'hi', 'both', 'both'])
    lo = hi = None
    if kind in ('lo', 'both'):
        lo = r.choice(BOUNDS)
    if kind == 'hi':
        hi = r.choice(BOUNDS)
    if kind == 'both':
        hi = lo + r.choice([F(1), F(1, 2), F(2), F(3), F(1, 4), F(16), F(5, 2)])
    return {'k': 'num', 'cls': cls, 'sh': sh, 'lo': [] if lo is None else rj(lo),
            'hi': [] if hi is None else rj(hi), 'dv': r.random() < .7, 'fd': 'N'}


def rand_psd(r, nmax=3):
    return {'k': 'psd', 'n': r.randint(1, nmax), 'lb': rj(r.choice([F(0), F(0), F(1), F(1, 2), F(3)])),
            'dv': r.random() < .7, 'fd': 'N'}


def rand_sim(r, nmax=4):
    return {'k': 'sim', 'n': r.randint(2, nmax), 'sh': r.choice([[1], [2], [3], [1, 2], [2, 2], [], [2, 1, 2]]),
            'dv': r.random() < .7, 'fd': 'N'}


def rand_leaf(r, kinds='nnps', psdmax=3):
    k = r.choice(kinds)
    if k == 'n':
        return rand_num(r)
    if k == 'p':
        return rand_psd(r, psdmax)
    return rand_sim(r)


def some_leaf(r, kinds='nnps', psdmax=3):
    """A leaf with at least one entry.  Arrays of patterns without entries
    are no part of the domain."""
    while True:
        p = rand_leaf(r, kinds, psdmax)
        if length(p, False):
            return p


def length(p, free):
    k = p['k']
    if k == 'num':
        return prod(p['sh'])
    if k == 'psd':
        return p['n'] * (p['n'] + 1) // 2 if free else p['n'] ** 2
    if k == 'sim':
        return prod(p['sh']) * (p['n'] - (1 if free else 0))
    if k == 'dict':
        return sum(length(s, free) for s in p['subs'])
    return prod(p['sh']) * length(p['base'], free)


def shape(p):
    k = p['k']
    if k == 'num':
        return list(p['sh'])
    if k == 'psd':
        return [p['n'], p['n']]
    if k == 'sim':
        return list(p['sh']) + [p['n']]
    return list(p['sh']) + shape(p['base'])


def rand_tree(r, depth=3, maxlen=24, kinds='nnps', psdmax=3, want=None):
    """A pattern term with free defaults unset."""
    for _ in range(200):
        p = _tree(r, depth, kinds, psdmax, want)
        if length(p, False) <= maxlen:
            return p
    return rand_num(r)


def _tree(r, depth, kinds, psdmax, want=None):
    c = want or (r.choice(['leaf', 'dict', 'dict', 'parr']) if depth > 0 else 'leaf')
    if c == 'dict':
        n = r.choice([1, 2, 2, 3, 3, 4]) if depth > 1 else r.choice([0, 1, 2, 2, 3])
        if want == 'dict':
            n = max(n, 2)
        keys = r.sample(KEYS, n)
        if n > 1 and r.random() < .2:
            # members easily mistaken for one another
            base = _tree(r, 0 if r.random() < .8 else depth - 1, kinds, psdmax)
            return {'k': 'dict', 'keys': keys, 'subs': [copy.deepcopy(base) for _ in keys], 'fd': 'N'}
        return {'k': 'dict', 'keys': keys,
                'subs': [_tree(r, depth - 1, kinds, psdmax) for _ in keys], 'fd': 'N'}
    if c == 'parr':
        sh = r.choice([[1], [2], [3], [2, 2], [1, 2], [2, 1, 2]])
        base = some_leaf(r, kinds, psdmax) if r.random() < .8 or depth < 2 else \
            {'k': 'parr', 'sh': r.choice([[2], [1, 2]]), 'base': some_leaf(r, kinds, min(psdmax, 2)), 'fd': 'N'}
        return {'k': 'parr', 'sh': sh, 'base': base, 'fd': 'N'}
    return rand_leaf(r, kinds, psdmax)


def big_tree(r, want=None, maxlen=340, kinds='nnps'):
    """A pattern with many entries, elements or members, or deep nesting."""
    for _ in range(200):
        p = _big(r, want or r.choice(['num', 'psd', 'sim', 'parr', 'parr', 'dict', 'chain', 'wide', 'wide']), kinds)
        if length(p, False) <= maxlen:
            return p
    return rand_num(r, cls='vec', sh=[maxlen])


def _big(r, what, kinds):
    if what == 'num':
        sh = r.choice([[40], [65], [130], [200], [257], [300], [12, 11], [2, 70], [130, 2], [5, 6, 7], [2, 2, 2, 2, 2, 2]])
        return rand_num(r, cls='vec' if len(sh) == 1 and r.random() < .5 else 'arr', sh=sh)
    if what == 'psd':
        p = rand_psd(r)
        p['n'] = r.choice([4, 5, 5, 6, 7, 8])
        return p
    if what == 'sim':
        p = rand_sim(r)
        p['n'], p['sh'] = r.choice([(11, []), (17, []), (12, [2]), (6, [7]), (3, [40]), (2, [130]), (2, [12, 5]),
                                    (3, [3, 4, 5]), (40, [1])])
        return p
    if what == 'parr':
        sh = r.choice([[33], [65], [130], [6, 7], [12, 11], [3, 4, 5]])
        base = some_leaf(r, kinds, 3)
        while length(base, False) > 6:
            base = some_leaf(r, kinds, 2)
        return {'k': 'parr', 'sh': sh, 'base': base, 'fd': 'N'}
    if what == 'chain':
        p = rand_leaf(r, kinds, 3)
        for _ in range(r.choice([5, 7, 9])):
            ks = r.sample(KEYS, r.choice([1, 2, 2]))
            subs = [rand_leaf(r, kinds, 2) for _ in ks]
            subs[r.randrange(len(ks))] = p
            p = {'k': 'dict', 'keys': ks, 'subs': subs, 'fd': 'N'}
        return p
    if what == 'wide':
        # few members, of which some are large: their places are far apart
        subs = [_big(r, r.choice(['num', 'num', 'sim', 'parr']), kinds) if r.random() < .7 else rand_leaf(r, kinds, 3)
                for _ in range(r.choice([2, 2, 3]))]
        return {'k': 'dict', 'keys': r.sample(KEYS, len(subs)), 'subs': subs, 'fd': 'N'}
    ks = ['k%d' % j for j in range(r.choice([20, 35, 70]))]
    r.shuffle(ks)
    return {'k': 'dict', 'keys': ks, 'subs': [
        rand_num(r, cls='sca') if r.random() < .7 else rand_leaf(r, kinds, 2) for _ in ks], 'fd': 'N'}


def paths(p, path=()):
    """All (path, node)."""
    yield list(path), p
    if p['k'] == 'dict':
        for i, s in enumerate(p['subs']):
            for x in paths(s, path + (i + 1,)):
                yield x
    elif p['k'] == 'parr':
        for x in paths(p['base'], path + (0,)):
            yield x


def leaves(p):
    if p['k'] == 'dict':
        return [l for s in p['subs'] for l in leaves(s)]
    if p['k'] == 'parr':
        return [l for _ in range(prod(p['sh'])) for l in leaves(p['base'])]
    return [p]


def set_defaults(r, p):
    """Random free defaults and validation defaults everywhere, in place."""
    p['fd'] = r.choice('NTF')
    if 'dv' in p:
        p['dv'] = r.random() < .5
    if p['k'] == 'parr':
        set_defaults(r, p['base'])
    if p['k'] == 'dict':
        alike = len(p['subs']) > 1 and all(q == p['subs'][0] for q in p['subs']) and r.random() < .6
        for i, q in enumerate(p['subs']):
            if alike and i:
                p['subs'][i] = copy.deepcopy(p['subs'][0])
            else:
                set_defaults(r, q)
    return p


Q_NUM = [F(1), F(2), F(1, 2), F(3), F(1, 3), F(3, 2), F(5, 4), F(7), F(1, 7), F(9, 8), F(11, 5)]
Q_FAR = [F(1, 1 << 20), F(1 << 16), F(1, 1000), F((1 << 20) - 1), F(1, (1 << 20) - 1), F(100)]
Q_PSD = [F(1), F(2), F(1, 2), F(3), F(3, 2)]
Q_SIM = [F(1), F(2), F(1, 2), F(3), F(1, 4), F(5), F(3, 2)]
RE = [F(0), F(1), F(-1), F(1, 2), F(-3, 2), F(2), F(-7, 3), F(10), F(-25)]
Q_BIG = [F(1), F(2), F(1, 2), F(4)]
RE_BIG = [F(0), F(1), F(-1), F(1, 2), F(2)]
RE_PSD = [F(0), F(1), F(-1), F(1, 2), F(-3, 2), F(2), F(-1, 2)]


def rand_free_leaf(r, p, far=0.0, distinct=True):
    """Free numbers of one leaf: ['re', x] or ['ln', q] with Fractions."""
    k = p['k']
    if k == 'num':
        if not p['lo'] and not p['hi']:
            pool = RE + [F(r.randint(-40, 40), r.choice([1, 2, 3, 4])) for _ in range(4)]
            return [('re', r.choice(pool)) for _ in range(prod(p['sh']))]
        dy = all(not b or (b[1] & (b[1] - 1)) == 0 for b in (p['lo'], p['hi']))
        out = []
        for _ in range(prod(p['sh'])):
            if far and dy and r.random() < far:
                if p['lo'] and p['hi']:
                    q = r.choice([F((1 << 16) - 1), F(1, (1 << 16) - 1), F(1023), F(1, 1023)])
                else:
                    q = r.choice([F(1, 1 << 16), F(1 << 12), F(1, 1 << 10)])
            else:
                q = r.choice(Q_NUM)
            out.append(('ln', q))
        return out
    if k == 'sim':
        return [('ln', r.choice(Q_SIM if p['n'] <= 5 else Q_BIG)) for _ in range(prod(p['sh']) * (p['n'] - 1))]
    out = []
    for i in range(p['n']):
        for j in range(i + 1):
            big = p['n'] > 3
            out.append(('ln', r.choice(Q_BIG[:3] if big else Q_PSD)) if i == j else
                       ('re', r.choice(RE_BIG if big else RE_PSD)))
    return out


def fold_leaf(p, xs):
    k = p['k']
    if k == 'num':
        out = []
        for t, q in xs:
            if not p['lo'] and not p['hi']:
                out.append(q)
            elif not p['hi']:
                out.append(Fr(*p['lo']) + q)
            elif not p['lo']:
                out.append(Fr(*p['hi']) - 1 / q)
            else:
                out.append(Fr(*p['lo']) + (Fr(*p['hi']) - Fr(*p['lo'])) * q / (1 + q))
        return out
    if k == 'sim':
        m = p['n'] - 1
        out = []
        for s in range(prod(p['sh'])):
            w = [F(1)] + [q for _, q in xs[s * m:(s + 1) * m]]
            out += [x / sum(w) for x in w]
        return out
    n = p['n']
    L = [[F(0)] * n for _ in range(n)]
    it = iter(xs)
    for i in range(n):
        for j in range(i + 1):
            L[i][j] = next(it)[1]
    return [sum(L[i][t] * L[j][t] for t in range(n)) + (Fr(*p['lb']) if i == j else 0)
            for i in range(n) for j in range(n)]


def free_json(xs):
    return [['re'] + rj(q) if t == 're' else ['ln'] + rj(q) + [0] for t, q in xs]


def rand_free(r, p, far=0.0):
    out, last = [], None
    for l in leaves(p):
        if last is not None and l == last[0] and l['k'] != 'psd' and r.random() < .4:
            xs = list(last[1])          # the numbers of the member before, in another order
            r.shuffle(xs)
        else:
            xs = rand_free_leaf(r, l, far)
        last = (l, xs)
        out += xs
    return out


def fold(p, xs):
    """Non-free flat list of Fractions for a free list."""
    out = []
    o = 0
    for l in leaves(p):
        n = length(l, True)
        out += fold_leaf(l, xs[o:o + n])
        o += n
    return out


def unflatten(p, a):
    """The folded value record for a non-free flat list of entries."""
    if p['k'] == 'dict':
        vs = []
        o = 0
        for s in p['subs']:
            n = length(s, False)
            vs.append(unflatten(s, a[o:o + n]))
            o += n
        return {'ks': list(p['keys']), 'vs': vs}
    return {'sh': shape(p), 'a': list(a)}


def rand_value(r, p, far=0.0):
    return unflatten(p, [rj(x) for x in fold(p, rand_free(r, p, far))])


def scramble(r, v, extra=True):
    """The same folded value with dictionary keys in another order (and extras)."""
    if 'ks' not in v:
        return v
    items = [(k, scramble(r, s, extra)) for k, s in zip(v['ks'], v['vs'])]
    if extra and r.random() < .5:
        items.append(('extra', {'sh': [2], 'a': [[1, 1], [2, 1]]}))
    r.shuffle(items)
    return {'ks': [k for k, _ in items], 'vs': [s for _, s in items]}


def rand_mask(r, p, prob=None):
    prob = r.choice([0.15, 0.5, 0.85]) if prob is None else prob
    # sometimes whole members are unselected
    if p['k'] == 'dict':
        return {'ks': list(p['keys']),
                'vs': [rand_mask(r, s, 0.0 if r.random() < .4 else prob) for s in p['subs']]}
    n = length(p, False)
    if p['k'] == 'parr':
        m = length(p['base'], False)
        a = []
        for _ in range(prod(p['sh'])):
            q = 0.0 if r.random() < .4 else prob
            a += [r.random() < q for _ in range(m)]
    else:
        a = [r.random() < prob for _ in range(n)]
    return {'sh': shape(p), 'a': a}


def rand_dir(r, n, small=True):
    pool = [F(0), F(1), F(-1), F(2), F(1, 2), F(-3, 2)]
    return [rj(r.choice(pool)) for _ in range(n)]


def valid_dir(r, p):
    """A direction in non-free coordinates along which the value stays valid."""
    pool = [F(0), F(1), F(-1), F(2), F(1, 2)]
    out = []
    for l in leaves(p):
        if l['k'] == 'num':
            out += [r.choice(pool) for _ in range(prod(l['sh']))]
        elif l['k'] == 'sim':
            for _ in range(prod(l['sh'])):
                t = [r.choice(pool) for _ in range(l['n'] - 1)]
                out += [-sum(t)] + t
        else:
            n = l['n']
            m = [[F(0)] * n for _ in range(n)]
            for i in range(n):
                for j in range(i + 1):
                    m[i][j] = m[j][i] = r.choice(pool)
            out += [x for row in m for x in row]
    return [rj(x) for x in out]
