"""C22: what patterns say about themselves, and which settings are refused (Build.tla)."""
import copy
import json
import random
from fractions import Fraction as Fr

import numpy as np

import gen
from common import conform, edges
from gen import rj
from objects import FREE, INF, Mismatch, close, same_shapes, same_value
from session import flat_expected

import paragami

CLASSES = {'arr': paragami.NumericArrayPattern, 'vec': paragami.NumericVectorPattern,
           'sca': paragami.NumericScalarPattern}
KINDS = {'psd': paragami.PSDSymmetricMatrixPattern, 'sim': paragami.SimplexArrayPattern,
         'dict': paragami.PatternDict, 'parr': paragami.PatternArray}


# ---------------------------------------------------------------- real side
def real(b, r):
    """A bound, in one of the forms a program may give it."""
    if b[1] == 0:
        return b[0] * r.choice([INF, np.inf, np.float64(INF)])
    x = Fr(*b)
    if x.denominator == 1:
        return r.choice([int, float, np.float64, np.int64])(int(x))
    return r.choice([float, np.float64])(float(x))


def sizes(sh, r, junk):
    kind = r.choice(['tuple', 'tuple', 'list', 'nptuple', 'array'])
    if kind == 'tuple':
        return tuple(sh)
    if kind == 'nptuple':
        return tuple(np.int64(n) for n in sh)
    x = list(sh) if kind == 'list' else np.array(sh, dtype=int)
    junk.append(x)
    return x


def settings(q, objs, r, junk):
    """(class, positional arguments) for the requested settings."""
    fd = FREE[q['fd']]
    if q['k'] == 'num':
        lo = real(q['lo'], r) if q['lo'] else -INF
        hi = real(q['hi'], r) if q['hi'] else INF
        names = ('lb', 'ub', 'default_validate', 'free_default')
        args = [lo, hi, q['dv'], fd]
        if q['cls'] == 'arr':
            names, args = ('shape',) + names, [sizes(q['sh'], r, junk)] + args
        elif q['cls'] == 'vec':
            names, args = ('length',) + names, [r.choice([int, np.int64])(q['sh'][0])] + args
        skip = {'lb': not q['lo'], 'ub': not q['hi'], 'default_validate': q['dv'], 'free_default': fd is None}
        return CLASSES[q['cls']], names, args, skip
    if q['k'] == 'psd':
        return (KINDS['psd'], ('size', 'diag_lb', 'default_validate', 'free_default'),
                [r.choice([int, np.int64])(q['n']), real(q['lb'], r), q['dv'], fd],
                {'diag_lb': q['lb'][0] == 0, 'default_validate': q['dv'], 'free_default': fd is None})
    if q['k'] == 'sim':
        return (KINDS['sim'], ('simplex_size', 'array_shape', 'default_validate', 'free_default'),
                [r.choice([int, np.int64])(q['n']), sizes(q['sh'], r, junk), q['dv'], fd],
                {'default_validate': q['dv'], 'free_default': fd is None})
    if q['k'] == 'parr':
        return (KINDS['parr'], ('array_shape', 'base_pattern', 'free_default'),
                [sizes(q['sh'], r, junk), objs[q['base'] - 1], fd], {'free_default': fd is None})
    return KINDS['dict'], ('free_default',), [fd], {'free_default': fd is None}


def make(q, objs, r):
    junk = []
    cls, names, args, skip = settings(q, objs, r, junk)
    cut = r.randint(0, len(names))              # positional up to here, then by name
    kw = {n: a for n, a in zip(names[cut:], args[cut:]) if not (skip.get(n) and r.random() < .5)}
    obj = cls(*args[:cut], **kw)
    for x in junk:                              # the lists remain the caller's
        x[:] = [7] * len(x)
    return obj


def same(got, want, what):
    if not (type(got) is type(want) or np.isscalar(got)) or got != want:
        raise Mismatch('%s is %r, expected %r' % (what, got, want))


def limit(b):
    return b[0] * INF if b[1] == 0 else float(Fr(*b))


def about(obj, d, what):
    """Compare everything a pattern says about itself."""
    k = d['k']
    cls = CLASSES[d['cls']] if k == 'num' else KINDS[k]
    if type(obj) is not cls:
        raise Mismatch('%s is a %s, expected a %s' % (what, type(obj).__name__, cls.__name__))
    for free, n in zip((True, False), d['lens']):
        same(int(obj.flat_length(free=free)), n, '%s.flat_length(free=%s)' % (what, free))
    if obj.free_default is not FREE[d['fd']]:
        raise Mismatch('%s.free_default is %r, expected %r' % (what, obj.free_default, FREE[d['fd']]))
    if 'dv' in d and bool(obj.default_validate) is not d['dv']:
        raise Mismatch('%s.default_validate is %r, expected %r' % (what, obj.default_validate, d['dv']))
    if 'shape' in d:
        same(tuple(obj.shape()), tuple(d['shape']), what + '.shape()')
    if k == 'num':
        lo, hi = obj.bounds()
        same(float(lo), limit(d['lo']), what + '.bounds()[0]')
        same(float(hi), limit(d['hi']), what + '.bounds()[1]')
        if d['cls'] == 'vec':
            same(int(obj.length()), d['shape'][0], what + '.length()')
    elif k == 'psd':
        same(int(obj.size()), d['n'], what + '.size()')
        same(float(obj.diag_lb()), limit(d['lb']), what + '.diag_lb()')
    elif k == 'sim':
        same(int(obj.simplex_size()), d['n'], what + '.simplex_size()')
        same(tuple(obj.array_shape()), tuple(d['sh']), what + '.array_shape()')
    elif k == 'parr':
        same(tuple(obj.array_shape()), tuple(d['sh']), what + '.array_shape()')
        about(obj.base_pattern(), d['base'], what + '.base_pattern()')
    else:
        same(list(obj.keys()), list(d['keys']), what + '.keys()')
        for key, sub in zip(d['keys'], d['subs']):
            about(obj[key], sub, '%s[%r]' % (what, key))


def run_build(case, outs):
    objs = []
    r = random.Random(json.dumps(case['ops'], sort_keys=True))
    for n, (o, rec) in enumerate(zip(case['ops'], outs)):
        out = rec['out']
        st = out['st']
        what = 'op %d (%s)' % (n, json.dumps(o))
        try:
            if o['op'] == 'make':
                obj = make(o['q'], objs, r)
            elif o['op'] == 'put':
                objs[o['i'] - 1][o['key']] = objs[o['j'] - 1]
            elif o['op'] == 'setfd':
                objs[o['i'] - 1].free_default = FREE[o['val']]
            elif o['op'] == 'setdv':
                objs[o['i'] - 1].default_validate = o['val']
        except (ValueError, NotImplementedError) as e:
            name = 'ValueError' if isinstance(e, ValueError) else 'NotImplementedError'
            if name != st:
                raise Mismatch('%s raised %s: %s, expected %s' % (what, type(e).__name__, e, st))
            continue
        if st != 'ok':
            raise Mismatch('%s was accepted, expected %s' % (what, st))
        if o['op'] == 'make':
            objs.append(obj)
            if len(objs) != out['x']:
                raise Mismatch('%s: object numbers differ' % what)
        elif o['op'] in ('ask', 'coded'):
            obj = objs[o['i'] - 1]
            if o['op'] == 'coded':
                text = obj.to_json()
                obj = type(obj).from_json(text) if r.random() < .5 else paragami.get_pattern_from_json(text)
            about(obj, out['x'], what + ': pattern')
        elif o['op'] == 'use':
            obj, x = objs[o['i'] - 1], out['x']
            v = obj.empty(valid=True)
            same_value(v, x['v'], 1e-14, what + ': empty(valid=True)')
            same_shapes(obj.empty(valid=False), x['skel'], what + ': empty(valid=False)')
            close(obj.flatten(v, free=True), flat_expected(x['free']), 1e-8, what + ': flatten(free=True)')
            close(obj.flatten(v, free=False), flat_expected(x['raw']), 1e-13, what + ': flatten(free=False)')
            same_value(obj.fold(obj.flatten(v, free=True), free=True), x['v'], 1e-11, what + ': fold')


# --------------------------------------------------------------- generation
def scalar_settings(q):
    """A leaf term as a request."""
    return {k: copy.deepcopy(v) for k, v in q.items()}


def spoilt(r, q):
    """Settings that may be illegal, near the legal ones."""
    q = copy.deepcopy(q)
    if q['k'] == 'num':
        z = r.random()
        a = r.choice(gen.BOUNDS)
        if z < .3:
            q['lo'], q['hi'] = rj(a), rj(a)
        elif z < .5:
            q['lo'], q['hi'] = rj(a + Fr(1, 10 ** r.randint(0, 4))), rj(a)
        elif z < .65:
            q['lo'], q['hi'] = rj(a), rj(a + Fr(1, 10 ** r.randint(0, 4)))
        elif z < .8:
            q['lo'], q['hi'] = [1, 0], r.choice([[], [1, 0], rj(a)])
        elif z < .9:
            q['lo'], q['hi'] = r.choice([[], [-1, 0], rj(a)]), [-1, 0]
        else:
            q['lo'], q['hi'] = r.choice([[], [-1, 0], rj(a)]), [1, 0]
    elif q['k'] == 'psd':
        q['lb'] = rj(r.choice([Fr(-1, 10 ** r.randint(0, 9)), Fr(-3), Fr(-1, 2), Fr(1, 10 ** r.randint(0, 9)), Fr(0)]))
    elif q['k'] == 'sim':
        q['n'] = r.choice([1, 1, 0, -1, 2])
    return q


def legal(q):
    if q['k'] == 'num':
        lo = -INF if not q['lo'] else limit(q['lo'])
        hi = INF if not q['hi'] else limit(q['hi'])
        return lo < hi
    return q['lb'][0] >= 0 if q['k'] == 'psd' else q['n'] >= 2


def requests(r, p, ops, objs):
    """Operations that build the tree p; returns the number of its object."""
    def add(q, term):
        ops.append({'op': 'make', 'q': q})
        objs.append(term)
        return len(objs)
    if p['k'] not in ('dict', 'parr') and r.random() < .3:
        q = spoilt(r, p)
        ops.append({'op': 'make', 'q': q})
        if legal(q):
            objs.append(q)
    if p['k'] == 'dict':
        i = add({'k': 'dict', 'fd': p['fd']}, p)
        for key, sub in zip(p['keys'], p['subs']):
            j = requests(r, sub, ops, objs)
            ops.append({'op': 'put', 'i': i, 'key': key, 'j': j})
            if r.random() < .1:
                ops.append({'op': r.choice(['ask', 'coded', 'use']), 'i': i})
        if r.random() < .3:
            ops.append({'op': 'make', 'q': {'k': 'parr', 'sh': r.choice([[1], [2], [1, 2]]), 'base': i, 'fd': 'N'}})
        return i
    if p['k'] == 'parr':
        j = requests(r, p['base'], ops, objs)
        return add({'k': 'parr', 'sh': list(p['sh']), 'base': j, 'fd': p['fd']}, p)
    return add(scalar_settings(p), p)


def behaviour(r, n):
    p = gen.big_tree(r) if n % 20 == 7 else gen.rand_tree(r, r.choice([0, 1, 2, 3]), maxlen=60)
    gen.set_defaults(r, p)
    for _, q in gen.paths(p):                   # "use" is about patterns with entries
        if q['k'] == 'num' and not gen.length(q, False):
            q['sh'] = [2] if q['cls'] == 'vec' else [1, 2]
    ops, objs = [], []
    requests(r, p, ops, objs)
    for _ in range(r.choice([2, 4, 8])):
        i = r.randint(1, len(objs))
        z = r.random()
        if z < .35:
            ops.append({'op': 'ask', 'i': i})
        elif z < .5:
            ops.append({'op': 'coded', 'i': i})
        elif z < .65:
            ops.append({'op': 'use', 'i': i})
        elif z < .8:
            ops.append({'op': 'setfd', 'i': i, 'val': r.choice('NTF')})
        elif objs[i - 1]['k'] not in ('dict', 'parr'):
            ops.append({'op': 'setdv', 'i': i, 'val': r.random() < .5})
        else:
            ops.append({'op': 'ask', 'i': i})
    for i in range(1, len(objs) + 1):
        if objs[i - 1]['k'] in ('dict', 'parr') or r.random() < .5:
            ops += [{'op': 'ask', 'i': i}] + ([{'op': 'coded', 'i': i}] if r.random() < .5 else [])
    return {'ops': ops}


def leaf_requests():
    """Leaves with every combination of legal, limiting and illegal settings."""
    ops = []
    bounds = [[], [-1, 1], [0, 1], [1, 2], [1, 1], [1, 0], [-1, 0]]
    for cls, sh in (('arr', [2, 3]), ('arr', [2]), ('vec', [3]), ('sca', [1])):
        for lo in bounds:
            for hi in bounds:
                ops.append({'op': 'make', 'q': {'k': 'num', 'cls': cls, 'sh': sh, 'lo': lo, 'hi': hi,
                                                'dv': len(ops) % 2 == 0, 'fd': 'NTF'[len(ops) % 3]}})
    for n in (1, 2, 3):
        for lb in ([0, 1], [1, 2], [3, 1], [-1, 2], [-1, 1000000], [1, 1000000]):
            ops.append({'op': 'make', 'q': {'k': 'psd', 'n': n, 'lb': lb, 'dv': len(ops) % 2 == 0,
                                            'fd': 'NTF'[len(ops) % 3]}})
    for n in (-1, 0, 1, 2, 3, 4):
        for sh in ([], [1], [2], [2, 3]):
            ops.append({'op': 'make', 'q': {'k': 'sim', 'n': n, 'sh': sh, 'dv': len(ops) % 2 == 0,
                                            'fd': 'NTF'[len(ops) % 3]}})
    ops += [{'op': o, 'i': 1} for o in ('ask', 'coded', 'use')]
    ops += [{'op': 'setfd', 'i': 1, 'val': v} for v in 'NTF']
    ops += [{'op': 'setdv', 'i': 1, 'val': v} for v in (True, False)]
    return {'ops': ops, 'max': 1}


def container_requests(thorough):
    """Containers of containers, shared parts, settings changed in between."""
    leaves = [{'k': 'num', 'cls': 'arr', 'sh': [2], 'lo': [0, 1], 'hi': [], 'dv': True, 'fd': 'N'},
              {'k': 'sim', 'n': 2, 'sh': [2], 'dv': False, 'fd': 'T'}]
    if thorough:
        leaves.append({'k': 'psd', 'n': 2, 'lb': [1, 2], 'dv': True, 'fd': 'F'})
    ops = [{'op': 'make', 'q': q} for q in leaves] + [{'op': 'make', 'q': {'k': 'dict', 'fd': 'T'}}]
    for i in (1, 2):
        ops += [{'op': 'make', 'q': {'k': 'parr', 'sh': sh, 'base': i, 'fd': 'F'}} for sh in ([2], [3, 2])[0 if thorough else i - 1:i]]
        if thorough or i == 1:
            ops += [{'op': 'setfd', 'i': i, 'val': v} for v in ('NT' if thorough else 'F')]
    ops += [{'op': 'put', 'i': i, 'key': key, 'j': j} for i, j, key in
            ((1, 2, 'b'), (2, 3, 'b'), (3, 1, 'b'), (3, 2, 'a'), (1, 3, 'a'), (2, 1, 'a'), (3, 2, 'b'))
            [:7 if thorough else 4]]
    ops += [{'op': o, 'i': i} for o in ('ask', 'coded', 'use') for i in (1, 2, 3)]
    return {'ops': ops, 'max': 3}


def c22(chk):
    r = gen.rng_for(chk.seed, 'C22')
    ask = lambda o: o['op'] in ('ask', 'coded')
    edges(chk, 'every setting of a leaf', 'BuildMC', leaf_requests(), run_build, r, ('ops', 'max'),
          lambda f: f == [], suffix=ask)
    edges(chk, 'every short history of containers', 'BuildMC', container_requests(chk.thorough), run_build, r,
          ('ops', 'max'), lambda f: f == [], suffix=ask, limit=None if chk.thorough else 12000)
    conform(chk, 'random trees', 'BuildReplay', [behaviour(r, n) for n in range(chk.n(300, 2000))], run_build,
            send=('ops',))
