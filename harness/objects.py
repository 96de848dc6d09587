"""Build real paragami objects from the specification's terms, and back."""
import math
import zlib
import os
import sys
import warnings
from collections import OrderedDict
from fractions import Fraction

REPO = os.environ.get('PARAGAMI_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'     # never trust stale bytecode

import numpy as np            # noqa: E402
import paragami               # noqa: E402

FREE = {'N': None, 'T': True, 'F': False}
INF = float('inf')
USER = int(os.environ.get('PARAGAMI_USER', '6'))     # one array in how many is a user's pattern


def fr(r):
    return Fraction(r[0], r[1])


def num(r, eps=1e-9):
    """An exact entry as a float."""
    if r[1] == 0:
        return INF * r[0] if r[0] else math.nan
    x = r[0] / r[1]
    if len(r) == 3 and r[2]:
        y = x + r[2] * eps
        if y == x:
            y = math.nextafter(x, INF * r[2])
        return y
    return x


def free_num(x, big=800.0):
    if x[0] == 're':
        return x[1] / x[2]
    return math.log(x[1]) - math.log(x[2]) + x[3] * big


def bound(b, default):
    if len(b) == 0:
        return default
    x = fr(b)
    return int(x) if x.denominator == 1 and x.numerator % 2 == 0 else float(x)


def whole(n, h):
    """A size, in one of the forms in which Python programs write one."""
    return (int, np.int64, int, np.int32)[h % 4](n)


def shape(s, h):
    """A shape, likewise: a tuple or a list of integers, or an integer array."""
    return (tuple, list, lambda x: tuple(np.int64(i) for i in x),
            lambda x: np.array(x, dtype=int), tuple)[h % 5](s)


class UserArray(paragami.base_patterns.Pattern):
    """A pattern class as users write them: an array that says what the abstract methods
    ask for, and leaves the rest to the base class.  Containers, wrappers and the JSON
    registry know it by its methods only."""

    def __init__(self, dims, low=-INF, high=INF, check=True, free_default=None):
        self.leaf = paragami.NumericArrayPattern(tuple(dims), low, high, check)
        super().__init__(self.leaf.flat_length(False), self.leaf.flat_length(True), free_default)

    default_validate = property(
        lambda self: self.leaf.default_validate,
        lambda self, x: setattr(self.leaf, 'default_validate', x))

    def __str__(self):
        return 'UserArray %s' % (self.leaf.shape(),)

    def as_dict(self):
        low, high = self.leaf.bounds()
        return {'pattern': self.json_typename(), 'dims': list(self.leaf.shape()),
                'low': low, 'high': high,
                'check': self.default_validate, 'free_default': self.free_default}

    def shape(self):
        return self.leaf.shape()

    def bounds(self):
        return self.leaf.bounds()

    def empty(self, valid):
        return self.leaf.empty(valid)

    def validate_folded(self, folded_val, validate_value=None):
        return self.leaf.validate_folded(folded_val, validate_value)

    def fold(self, flat_val, free=None, validate_value=None):
        if free is None:
            free = self.free_default
        return self.leaf.fold(flat_val, free, validate_value)

    def flatten(self, folded_val, free=None, validate_value=None):
        if free is None:
            free = self.free_default
        return self.leaf.flatten(folded_val, free, validate_value)

    def flat_indices(self, folded_bool, free=None):
        if free is None:
            free = self.free_default
        return self.leaf.flat_indices(folded_bool, free)

    def flat_names(self, free):
        return self.leaf.flat_names(free)

    def freeing_jacobian(self, folded_val, sparse=True):
        return self.leaf.freeing_jacobian(folded_val, sparse)

    def unfreeing_jacobian(self, folded_val, sparse=True):
        return self.leaf.unfreeing_jacobian(folded_val, sparse)

    def log_abs_det_freeing_jacobian(self, folded_val):
        return self.leaf.log_abs_det_freeing_jacobian(folded_val)

    def log_abs_det_unfreeing_jacobian(self, folded_val):
        return self.leaf.log_abs_det_unfreeing_jacobian(folded_val)


paragami.register_pattern_json(UserArray)


def users(p):
    """Is this array one of the user's own patterns?  The description alone says so."""
    return (zlib.crc32(repr((p['sh'], p['lo'], p['hi'])).encode()) >> 5) % USER == 0


def build(p, reg=None, path=()):
    """The real pattern for a pattern record.  reg collects path -> object.
    Sizes and shapes are given in different forms, by position or by name;
    which form follows from the record alone."""
    fd = FREE[p['fd']]
    h = zlib.crc32(repr((p['k'], p.get('sh'), p.get('n'), p['fd'], path)).encode()) >> 3
    k = p['k']
    if k == 'num':
        kw = dict(lb=bound(p['lo'], -INF), ub=bound(p['hi'], INF),
                  default_validate=p['dv'], free_default=fd)
        if p['cls'] == 'arr':
            sh = shape(p['sh'], h)
            if users(p):
                obj = UserArray(sh, kw['lb'], kw['ub'], p['dv'], fd)
            elif h % 7 < 3:
                obj = paragami.NumericArrayPattern(sh, kw['lb'], kw['ub'], p['dv'], fd)
            else:
                obj = paragami.NumericArrayPattern(shape=sh, **kw)
        elif p['cls'] == 'vec':
            obj = paragami.NumericVectorPattern(length=whole(p['sh'][0], h), **kw)
        else:
            obj = paragami.NumericScalarPattern(**kw)
    elif k == 'psd':
        obj = paragami.PSDSymmetricMatrixPattern(
            size=whole(p['n'], h), diag_lb=num(p['lb']), default_validate=p['dv'], free_default=fd)
    elif k == 'sim':
        obj = paragami.SimplexArrayPattern(
            simplex_size=whole(p['n'], h), array_shape=shape(p['sh'], h), default_validate=p['dv'],
            free_default=fd)
    elif k == 'dict':
        obj = paragami.PatternDict(free_default=fd)
        for i, (key, sub) in enumerate(zip(p['keys'], p['subs'])):
            obj[key] = build(sub, reg, path + (i + 1,))
    elif k == 'parr':
        obj = paragami.PatternArray(
            array_shape=shape(p['sh'], h), base_pattern=build(p['base'], reg, path + (0,)),
            free_default=fd)
    else:
        raise ValueError(k)
    if reg is not None:
        reg[path] = obj
    return obj


def array(a, sh, conv=num):
    x = np.empty(len(a))
    for i, r in enumerate(a):
        x[i] = conv(r)
    return x.reshape(tuple(sh))


def value(v, conv=num):
    """A folded value from its record."""
    if 'ks' in v:
        return OrderedDict((k, value(s, conv)) for k, s in zip(v['ks'], v['vs']))
    return array(v['a'], v['sh'], conv)


def mask(m):
    if 'ks' in m:
        return OrderedDict((k, mask(s)) for k, s in zip(m['ks'], m['vs']))
    return np.array(m['a'], dtype=bool).reshape(tuple(m['sh']))


def flat(x, big=800.0, eps=1e-9):
    """A flat vector from its record {sh, a} (free or non-free numbers)."""
    if len(x['a']) and isinstance(x['a'][0][0], str):
        return array(x['a'], x['sh'], lambda r: free_num(r, big))
    return array(x['a'], x['sh'], lambda r: num(r, eps))


class Mismatch(Exception):
    """The code did not do what the specification says."""


def close(got, want, tol=1e-11, what='value'):
    """Compare an array with the list of expected floats (inf = beyond range)."""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Mismatch('%s: shape %s, expected %s' % (what, got.shape, want.shape))
    huge = np.isinf(want)
    nan = np.isnan(want)
    if np.any(nan):
        if not np.array_equal(nan, np.isnan(got)):
            raise Mismatch('%s: not a number at %s, expected at %s' % (
                what, np.argwhere(np.isnan(got)).tolist(), np.argwhere(nan).tolist()))
        got, want = np.where(nan, 0.0, got), np.where(nan, 0.0, want)
    ok = np.where(huge, np.sign(want) * got > 1e300,
                  np.abs(got - np.where(huge, 0, want)) <=
                  tol * (1 + np.abs(np.where(huge, 0, want))))
    if not np.all(ok):
        i = tuple(np.argwhere(~ok)[0])
        raise Mismatch('%s: at %s got %r, expected %r' % (what, i, got[i], want[i]))


def same_value(got, v, tol=1e-11, what='value', conv=num):
    """Compare a folded value with its record, keys in order."""
    if 'ks' in v:
        if list(got.keys()) != list(v['ks']):
            raise Mismatch('%s: keys %s, expected %s' % (what, list(got.keys()), v['ks']))
        for k, s in zip(v['ks'], v['vs']):
            same_value(got[k], s, tol, '%s[%s]' % (what, k), conv)
        return
    if not isinstance(got, np.ndarray):
        raise Mismatch('%s: not an array: %r' % (what, got))
    close(got, array(v['a'], v['sh'], conv), tol, what)


def same_shapes(got, s, what='value'):
    if 'ks' in s:
        if list(got.keys()) != list(s['ks']):
            raise Mismatch('%s: keys %s, expected %s' % (what, list(got.keys()), s['ks']))
        for k, t in zip(s['ks'], s['vs']):
            same_shapes(got[k], t, '%s[%s]' % (what, k))
        return
    if np.shape(got) != tuple(s['sh']):
        raise Mismatch('%s: shape %s, expected %s' % (what, np.shape(got), s['sh']))


def dense(m):
    m = m.toarray() if hasattr(m, 'toarray') else m
    return np.asarray(m)


def rmat(b):
    """A {r, c, m} block as an array."""
    out = np.zeros((b['r'], b['c']))
    for i, row in enumerate(b['m']):
        for j, x in enumerate(row):
            out[i, j] = num(x)
    return out
