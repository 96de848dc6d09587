"""C16, C17 and C18: what paragami adds to autograd (Diff.tla and Gamma.tla)."""
import itertools
import math
import warnings
from fractions import Fraction as Fr

import autograd
import autograd.numpy as anp
import autograd.scipy.special as asp
import numpy as np
import scipy.sparse
import scipy.special
import scipy.sparse.linalg

import gen
from checks_opt import inverse, mat, mj, rand_matrix, vec
from common import conform, edges
from gen import rj
from objects import Mismatch, close, num

import paragami
from paragami import autograd_supplement_lib as al

warnings.simplefilter('ignore')
FMTS = ['csr', 'csc', 'coo', 'lil', 'dok', 'dia', 'bsr']


def tensor(v, sh):
    return np.array([num(x) for x in v], dtype=float).reshape(sh)


# ------------------------------------------------------- derivatives
def nested(scalar, dirs, modes):
    """The mixed derivative of a scalar function, one mode per direction."""
    def wrap(s, v, m):
        if m == 'f':
            return lambda x: autograd.make_jvp(s)(x)(v)[1]
        if m == 'g':
            return lambda x: anp.dot(autograd.grad(s)(x), v)
        return lambda x: anp.dot(autograd.make_vjp(s)(x)[0](1.0), v)
    for v, m in zip(dirs, modes):
        scalar = wrap(scalar, v, m)
    return scalar


def check_derivatives(fun, x, dirs, coefs, tol, modes='fr'):
    """fun maps a vector to a vector; coefs[s] are its exact mixed derivatives
    in the directions of the set s (a bit mask)."""
    k = len(dirs)
    keep = x.copy()
    close(fun(x), coefs[0], tol, 'value')
    n = len(coefs[0])
    w = np.array([(-1.0) ** i * (1 + i % 3) for i in range(n)])
    for j in range(k):
        want = coefs[1 << j]
        if 'f' in modes:
            y, d = autograd.make_jvp(fun)(x)(dirs[j])
            close(y, coefs[0], tol, 'value in forward mode')
            close(d, want, tol, 'forward derivative %d' % j)
        if 'r' in modes:
            vjp, y = autograd.make_vjp(fun)(x)
            close(y, coefs[0], tol, 'value in reverse mode')
            g = vjp(w)
            if g.shape != x.shape:
                raise Mismatch('gradient of shape %s' % (g.shape,))
            close(np.dot(g, dirs[j]), np.dot(w, want), tol * n, 'reverse derivative %d' % j)
            close(np.dot(vjp(2 * w), dirs[j]), 2 * np.dot(w, want), tol * n, 'reverse derivative, again')
            if j == 0:
                close(np.dot(autograd.jacobian(fun)(x), dirs[j]), want, tol, 'Jacobian')
    scalar = lambda y: anp.dot(w, fun(y))
    for size in (2, 3):
        for sub in itertools.combinations(range(k), size):
            mask = sum(1 << j for j in sub)
            want = np.dot(w, coefs[mask])
            for ms in itertools.product(modes, repeat=size):
                got = nested(scalar, [dirs[j] for j in sub], ms)(x)
                close(got, want, tol * 10 * n, 'derivative %s in modes %s' % (sub, ''.join(ms)))
    if not np.array_equal(x, keep):
        raise Mismatch('the argument was changed')


# ------------------------------------------------------- Diff.tla
def as_matrix(z, fmt, dtype):
    z = z.astype(dtype)
    if fmt == 'dense':
        return z
    if fmt == 'fortran':
        return np.asfortranarray(z)
    if fmt.endswith('_array'):
        return getattr(scipy.sparse, fmt)(z)
    return getattr(scipy.sparse, fmt + '_matrix')(z)


def as_plain(z):
    return z.toarray() if hasattr(z, 'toarray') else np.array(z)


class DiffRun:
    def __init__(self):
        self.env = []       # pairs of functions
        self.mats = []

    def make(self, o, opt, out):
        z = tensor([x for row in o['z'] for x in row], [len(o['z']), len(o['z'][0])])
        if len(o['sh']) != 2:
            try:
                al.get_sparse_product(tensor(o['z'][0], o['sh']))
            except ValueError:
                return
            raise Mismatch('get_sparse_product accepted an array of shape %s' % o['sh'])
        if o['kind'] == 'product':
            m = as_matrix(z, opt['fmt'], opt['dtype'])
            pair = al.get_sparse_product(m)
        else:
            m = z
            if opt['fmt'] == 'splu':
                lu = scipy.sparse.linalg.splu(scipy.sparse.csc_matrix(z))
                fs = lu.solve, lambda b: lu.solve(b, trans='T')
            elif opt['fmt'] == 'factorized':
                fs = (scipy.sparse.linalg.factorized(scipy.sparse.csc_matrix(z)),
                      scipy.sparse.linalg.factorized(scipy.sparse.csc_matrix(z.T)))
            else:
                fs = lambda b: np.linalg.solve(z, b), lambda b: np.linalg.solve(z.T, b)
            pair = al.get_differentiable_solver(*fs)
        if len(pair) != 2:
            raise Mismatch('%d functions instead of two' % len(pair))
        self.env.append(pair)
        self.mats.append((m, as_plain(m).copy()))

    def function(self, o, opt):
        given = []

        def keep(x):
            given.append((x, np.array(x)))
            return x
        env = self.env
        nodes = []
        for n, p in zip(o['prog'], opt['nodes']):
            f = n['f']
            if f == 'in':
                def node(x, r, n=n, p=p, end=n['off'] + int(np.prod(n['sh']))):
                    t = anp.reshape(x[n['off']:end], tuple(n['sh']))
                    return t
            elif f == 'const':
                c = keep(np.asarray(tensor(n['v'], n['sh']), dtype=p.get('dtype', 'float')))
                node = lambda x, r, c=c: c
            elif f == 'add':
                node = lambda x, r, n=n: r[n['a'] - 1] + r[n['b'] - 1]
            elif f == 'mul':
                node = lambda x, r, n=n: r[n['a'] - 1] * r[n['b'] - 1]
            elif f == 'op':
                node = lambda x, r, n=n: env[n['k'] - 1][1 if n['tr'] else 0](r[n['a'] - 1])
            elif f == 'gs':
                g = np.array(n['g'], dtype=p.get('dtype', 'int'))
                if len(n['gsh']) != 1:
                    g = g.reshape(n['gsh'])
                if p.get('list'):
                    g = g.tolist()
                    if len(n['gsh']) == 1:
                        g = {'tuple': tuple, 'floats': lambda g: [float(i) for i in g]}.get(p.get('form'), list)(g)
                        if p.get('form') == 'single' and len(g) == 1:
                            g = g[0]
                else:
                    keep(g)
                kw = {}
                if n['num'] != -1:
                    kw['num_groups'] = n['num']
                elif p.get('none'):
                    kw['num_groups'] = None
                if p.get('positional') and kw:
                    args = (kw.pop('num_groups'),)
                else:
                    args = ()
                node = lambda x, r, n=n, g=g, kw=kw, args=args: al.grouped_sum(r[n['a'] - 1], g, *args, **kw)
            elif f == 'rep':
                i = np.array(n['inds'], dtype=int)
                if p.get('list') and n['inds']:
                    i = i.tolist()
                else:
                    keep(i)
                node = lambda x, r, n=n, i=i: al.replace(r[n['a'] - 1], r[n['b'] - 1], i)
            elif f == 'inv':
                node = lambda x, r, n=n: anp.linalg.inv(r[n['a'] - 1])
            elif f == 'solve':
                node = lambda x, r, n=n: anp.linalg.solve(r[n['a'] - 1], r[n['b'] - 1])
            elif f == 'logdet':
                node = lambda x, r, n=n: anp.linalg.slogdet(r[n['a'] - 1])[1]
            elif f == 'detsign':
                node = lambda x, r, n=n: anp.linalg.slogdet(r[n['a'] - 1])[0] + 0.0
            nodes.append(node)

        def fun(x):
            r = []
            for node in nodes:
                r.append(node(x, r))
            return r[-1]
        return fun, given

    def step(self, o, opt, out):
        if o['op'] == 'make':
            self.make(o, opt, out)
            return
        x = vec(o['x'])
        dirs = [vec(d) for d in o['dirs']]
        fun, given = self.function(o, opt)
        if out['st'] == 'ok':
            got = fun(x)
            if np.shape(got) != tuple(out['sh']):
                raise Mismatch('shape %s, expected %s' % (np.shape(got), out['sh']))
            flat = lambda y: anp.reshape(fun(y), (-1,))
            m = 1 << len(dirs)
            coefs = [np.array([num(c[s]) for c in out['c']]) for s in range(m)]
            if 'det' in out:
                coefs[0] = np.array([math.log(abs(num(d))) for d in out['det']])
            check_derivatives(flat, x, dirs, coefs, opt.get('tol', 1e-9), opt.get('modes', 'fr'))
        else:
            if o['dirs']:
                self.refused(lambda: autograd.make_jvp(fun)(x)(dirs[0]), 'forward mode')
            if o['prog'][-1]['f'] != 'logdet':
                self.refused(lambda: fun(x), 'the call')
        for a, b in given:
            if not (a.dtype == b.dtype and np.array_equal(a, b)):
                raise Mismatch('an argument was changed from %s to %s' % (b.tolist(), a.tolist()))
        for m, z in self.mats:
            if not np.array_equal(as_plain(m), z):
                raise Mismatch('a matrix was changed')

    def refused(self, call, what):
        try:
            got = call()
        except ValueError:
            return
        raise Mismatch('%s gave %s instead of ValueError' % (what, np.asarray(got).tolist()))


def run_diff(b, outs):
    run = DiffRun()
    for o, opt, rec in zip(b['ops'], b['opts'], outs):
        try:
            run.step(o, opt, rec['out'])
        except Mismatch as e:
            raise Mismatch('%s with %s: %s' % (o, opt, e))
        except Exception as e:
            raise Mismatch('%s with %s: unexpected %s: %s' % (o, opt, type(e).__name__, e))


# ---- inputs ----
class Prog:
    """A program under construction; shapes are known."""
    def __init__(self, r, small=False):
        self.r, self.nodes, self.opts, self.shapes, self.x = r, [], [], [], []
        self.vals = [Fr(-1), Fr(1), Fr(2), Fr(0), Fr(1), Fr(-2)] + ([] if small else [Fr(1, 2), Fr(3), Fr(-3, 2)])

    def add(self, n, sh, **opt):
        self.nodes.append(n)
        self.opts.append(opt)
        self.shapes.append(list(sh))
        return len(self.nodes)

    def pick(self):
        return self.r.choice(self.vals)

    def inp(self, sh, vals=None):
        off = len(self.x)
        size = gen.prod(sh)
        self.x += vals if vals is not None else [self.pick() for _ in range(size)]
        return self.add({'f': 'in', 'off': off, 'sh': sh}, sh)

    def const(self, sh, vals=None):
        size = gen.prod(sh)
        vals = vals if vals is not None else [self.pick() for _ in range(size)]
        whole = all(v.denominator == 1 for v in vals)
        return self.add({'f': 'const', 'sh': sh, 'v': [rj(v) for v in vals]}, sh,
                        dtype='int' if whole and self.r.random() < .3 else 'float')

    def both(self, f, a, b):
        return self.add({'f': f, 'a': a, 'b': b}, self.shapes[a - 1])

    def square(self, a):
        return self.both('mul', a, a)

    def bend(self, a):
        """A non-linear or affine change of the same shape."""
        c = self.r.random()
        if c < .4:
            return self.square(a)
        if c < .6:
            return self.both('mul', self.const(self.shapes[a - 1]), a)
        if c < .7:
            return self.both('mul', a, self.both('add', a, self.const(self.shapes[a - 1])))
        return a

    def request(self, k, modes='fr', tol=1e-9):
        r = self.r
        dirs = []
        for _ in range(k):
            dirs.append([rj(Fr(r.choice([-1, 0, 0, 1, 1, 2]))) for _ in self.x])
        return {'op': 'run', 'x': [rj(v) for v in self.x], 'dirs': dirs, 'prog': self.nodes}, \
            {'nodes': self.opts, 'modes': modes, 'tol': tol}


def rand_z(r, rows, cols):
    whole = r.random() < .5
    dens = r.choice([.3, .6, 1.0])
    pick = lambda: Fr(r.choice([-2, -1, 1, 1, 2, 3]), 1 if whole else r.choice([1, 1, 2]))
    return [[pick() if r.random() < dens else Fr(0) for _ in range(cols)] for _ in range(rows)]


def relative(r, z):
    """A matrix that is easily mistaken for z."""
    rows, cols = len(z), len(z[0])
    flat = [x for row in z for x in row]
    c = r.random()
    if c < .4:
        # the same entries, in this order, at other places
        nz = [x for x in flat if x]
        at = sorted(r.sample(range(len(flat)), len(nz)))
        flat = [Fr(0)] * len(flat)
        for i, x in zip(at, nz):
            flat[i] = x
    elif c < .6 and rows == cols:
        return [list(x) for x in zip(*z)]
    elif c < .8:
        flat[r.randrange(len(flat))] += 1
    elif c < .9:
        flat = [-x for x in flat]
    return [flat[i * cols:(i + 1) * cols] for i in range(rows)]


def make_op(r, kind, rows, cols, like=None):
    if kind == 'solver':
        z = rand_matrix(r, rows)
        if like is not None and r.random() < .5:
            z = [list(x) for x in zip(*like)] if r.random() < .5 else [[-x for x in row] for row in like]
    elif like is not None:
        z = relative(r, like)
    else:
        z = rand_z(r, rows, cols)
    whole = all(v.denominator == 1 for row in z for v in row)
    fmts = FMTS + ['dense', 'fortran', 'csr_array', 'csc_array', 'coo_array'] if kind == 'product' else \
        ['splu', 'factorized', 'dense']
    return {'op': 'make', 'kind': kind, 'sh': [rows, cols], 'z': mj(z)}, \
        {'fmt': r.choice(fmts), 'dtype': 'int' if whole and r.random() < .4 else 'float'}


def op_run(r, dims, k):
    """A chain of operators; dims[i] = (kind, rows, cols, vectors only)."""
    p = Prog(r, small=True)
    # choose a chain backwards compatible in sizes
    steps = r.choice([1, 1, 2, 3])
    chain, size = [], None
    for _ in range(steps):
        fits = [(i, tr) for i, d in enumerate(dims) for tr in (False, True)
                if size is None or (d[1] if tr else d[2]) == size]
        if not fits:
            break
        i, tr = r.choice(fits)
        chain.append((i, tr))
        size = dims[i][2] if tr else dims[i][1]
    i, tr = chain[0]
    n = dims[i][1] if tr else dims[i][2]
    vec_only = any(dims[i][3] for i, _ in chain)
    sh = [n] if vec_only or r.random() < .6 else [n, r.choice([1, 2, 3])]
    a = p.inp(sh)
    if r.random() < .3:
        a = p.both('add', a, p.inp(sh))
    budget = 1
    for i, tr in chain:
        if budget and r.random() < .7:
            a = p.bend(a)
            budget -= 1
        out = dims[i][2] if tr else dims[i][1]
        a = p.add({'f': 'op', 'k': i + 1, 'tr': tr, 'a': a}, [out] + p.shapes[a - 1][1:])
    if r.random() < .5:
        a = p.square(a)
        if r.random() < .3:
            i, tr = r.choice([(i, tr) for i, d in enumerate(dims) for tr in (False, True)
                              if not (d[3] and len(sh) > 1)])
            if (dims[i][1] if tr else dims[i][2]) == p.shapes[a - 1][0]:
                a = p.add({'f': 'op', 'k': i + 1, 'tr': tr, 'a': a},
                          [dims[i][2] if tr else dims[i][1]] + p.shapes[a - 1][1:])
    return p.request(k)


def op_case(r, count):
    ops, opts, dims = [], [], []
    bias = r.choice([[], ['csr'], ['csc'], ['coo'], ['dense']])

    def make():
        old = [i for i, o in enumerate(ops) if o['op'] == 'make' and len(o['sh']) == 2]
        if old and r.random() < .6:
            i = r.choice(old)
            kind = ops[i]['kind']
            rows, cols = ops[i]['sh']
            o, opt = make_op(r, kind, rows, cols, [[Fr(*x) for x in row] for row in ops[i]['z']])
            if r.random() < .7:
                opt['fmt'] = opts[i]['fmt']
        else:
            kind = r.choice(['product', 'product', 'solver'])
            rows = r.choice([1, 2, 2, 3])
            cols = rows if kind == 'solver' else r.choice([1, 2, 2, 3, 4])
            o, opt = make_op(r, kind, rows, cols)
            if bias and kind == 'product':
                opt['fmt'] = bias[0]
        ops.append(o)
        opts.append(opt)
        dims.append((kind, rows, cols, opt['fmt'] == 'factorized'))
    make()
    make()
    for _ in range(count):
        c = r.random()
        if c < .1:
            make()
        elif c < .16:
            n = r.choice([1, 2, 4])
            sh = r.choice([[n], [1, n, 1], [n, 1, 1, 1], []])
            if sh == []:
                n = 1
            ops.append({'op': 'make', 'kind': 'product', 'sh': sh, 'z': mj(rand_z(r, 1, n))})
            opts.append({})
        elif c < .26:
            prods = [i for i, d in enumerate(dims) if d[0] == 'product']
            if not prods:
                continue
            i = r.choice(prods)
            tr = r.random() < .5
            n = dims[i][1] if tr else dims[i][2]
            p = Prog(r)
            a = p.inp(r.choice([[n, 1, 1], [n, 2, 1], [1, n, 1], [1, n, 2], [n, 1, 1, 1]]))
            p.add({'f': 'op', 'k': i + 1, 'tr': tr, 'a': a}, [])
            o, opt = p.request(0)
            ops.append(o)
            opts.append(opt)
        else:
            o, opt = op_run(r, dims, r.choice([1, 2, 2, 3]))
            ops.append(o)
            opts.append(opt)
    return {'ops': ops, 'opts': opts}


def op_big(r):
    """Operators that are far from 3 x 3."""
    ops, opts, dims = [], [], []
    for _ in range(r.choice([1, 2])):
        if r.random() < .7:
            rows, cols = r.randint(5, 40), r.randint(5, 40)
            if r.random() < .3:
                rows, cols = r.choice([(1, r.randint(40, 90)), (r.randint(40, 90), 1)])
            dens = r.choice([.05, .2, .8])
            z = [[Fr(r.choice([-2, -1, 1, 1, 2, 3])) if r.random() < dens else Fr(0) for _ in range(cols)]
                 for _ in range(rows)]
            opt = {'fmt': r.choice(FMTS + ['dense', 'fortran', 'csr_array', 'csc_array', 'coo_array']),
                   'dtype': r.choice(['int', 'float'])}
            kind = 'product'
        else:
            rows = cols = r.choice([4, 5, 6])
            z = triangular(r, rows)
            kind, opt = 'solver', {'fmt': r.choice(['splu', 'factorized', 'dense']), 'dtype': 'float'}
        ops.append({'op': 'make', 'kind': kind, 'sh': [rows, cols], 'z': mj(z)})
        opts.append(opt)
        dims.append((kind, rows, cols, opt['fmt'] == 'factorized'))
    for _ in range(2):
        i = r.randrange(len(dims))
        kind, rows, cols, vec_only = dims[i]
        tr = r.random() < .5
        n = rows if tr else cols
        p = Prog(r, small=True)
        a = p.inp([n] if vec_only or n > 12 or r.random() < .6 else [n, r.randint(2, 12)])
        if r.random() < .5:
            a = p.square(a)
        p.add({'f': 'op', 'k': i + 1, 'tr': tr, 'a': a}, [])
        o, opt = p.request(r.choice([1, 2]))
        ops.append(o)
        opts.append(opt)
    return {'ops': ops, 'opts': opts}


def triangular(r, n):
    """With the determinant 1 or -1, its rows and columns shuffled."""
    z = [[Fr(r.choice([1, 1, -1])) if i == j else Fr(r.choice([0, 0, 1, -1])) if j < i else Fr(0)
          for j in range(n)] for i in range(n)]
    if r.random() < .7:
        r.shuffle(z)
    if r.random() < .5:
        z = [list(x) for x in zip(*z)]
        if r.random() < .5:
            r.shuffle(z)
    return z


def c16(chk):
    r = gen.rng_for(chk.seed, 'C16')
    bs = [op_case(r, chk.n(8, 10)) for _ in range(chk.n(500, 6000))]
    bs += [op_big(r) for _ in range(chk.n(20, 200))]
    conform(chk, 'products and solvers', 'DiffReplay', bs, run_diff, send=('ops',))


# ---- C17 ----
def group_run(r, k, bad=False):
    p = Prog(r)
    n = r.choice([1, 1, 2, 3, 3, 4, 5])
    sh = [n] + r.choice([[], [], [1], [2], [3], [2, 2], [1, 2, 1], [2, 1, 2]])
    a = p.inp(sh)
    if r.random() < .3:
        a = p.both('add', a, p.const(sh))
    if r.random() < .6:
        a = p.bend(a)
    top = r.choice([1, 2, 3, 4])
    g = [r.randrange(top) for _ in range(n)]
    if r.random() < .1:
        g = [2] * n
    num_g = r.choice([-1, max(g) + 1, max(g) + 2, max(g) + 4])
    gsh = [n]
    if bad:
        c = r.choice(['len', 'len', 'rank', 'num', 'num'])
        if c == 'len':
            g = g + [r.randrange(top)] * r.choice([1, 2]) if n == 1 or r.random() < .5 else g[:-1]
            num_g = r.choice([-1, max(g) + 1])
            gsh = [len(g)]
        elif c == 'rank':
            gsh = r.choice([[n, 1], [1, n], [1, 1, n]])
        else:
            num_g = r.randint(0, max(g))
    whole = r.random() < .2
    a = p.add({'f': 'gs', 'a': a, 'gsh': gsh, 'g': g, 'num': num_g}, [max(g) + 1 if num_g < 0 else num_g] + sh[1:],
              dtype=r.choice(['int', 'int', 'int32', 'int8', 'uint8', 'float']), list=r.random() < .3,
              form=r.choice(['', 'tuple', 'floats', 'single']),
              none=r.random() < .5, positional=r.random() < .4)
    if bad:
        return p.request(0)
    if r.random() < .5:
        a = p.square(a)
    if r.random() < .3:
        m = p.shapes[a - 1][0]
        g2 = [r.randrange(2) for _ in range(m)]
        a = p.add({'f': 'gs', 'a': a, 'gsh': [m], 'g': g2, 'num': -1}, [max(g2) + 1] + sh[1:])
    return p.request(k)


def replace_run(r, k):
    p = Prog(r)
    n = r.choice([1, 2, 3, 4, 5])
    d = r.choice([0] + list(range(1, n + 1)) * 2)
    inds = r.sample(range(n), d)
    if r.random() < .3:
        inds = [i - n if r.random() < .5 else i for i in inds]
    which = r.choice(['both', 'both', 'sub', 'x', 'same'])
    if which == 'sub' and d == 0:
        p.inp([1])      # a derivative with respect to nothing
    sub = p.inp([d]) if which in ('both', 'sub') or d == 0 and which == 'same' else p.const([d]) if which == 'x' else None
    x = p.inp([n]) if which != 'sub' else p.const([n])
    if sub is None:     # the replacement comes from x itself
        sub = p.add({'f': 'gs', 'a': p.square(x), 'gsh': [n], 'g': [r.randrange(d) for _ in range(n)], 'num': d}, [d])
    if r.random() < .4:
        sub = p.bend(sub)
    if r.random() < .4:
        x = p.bend(x)
    a = p.add({'f': 'rep', 'a': sub, 'b': x, 'inds': inds}, [n], list=r.random() < .4)
    if r.random() < .5:
        a = p.square(a)
    if r.random() < .3:
        m = r.randint(1, n)
        i2 = r.sample(range(n), m)
        y = p.inp([m])
        a = p.add({'f': 'rep', 'a': y, 'b': a, 'inds': i2}, [n], list=r.random() < .4)
    return p.request(k)


def group_big(r):
    """Many rows, many groups."""
    p = Prog(r, small=True)
    n = r.choice([20, 60, 150, 200, 270])
    sh = [n] + (r.choice([[], [2]]) if n > 100 else r.choice([[], [3], [2, 2]]))
    a = p.inp(sh)
    if r.random() < .4:
        a = p.bend(a)
    top = r.choice([5, n // 2 + 1, n, n + 30, 400])
    g = [r.randrange(top) for _ in range(n)]
    if r.random() < .4:
        g = sorted(g)
    if r.random() < .3:
        g = r.sample(range(n), n)
    p.add({'f': 'gs', 'a': a, 'gsh': [n], 'g': g, 'num': r.choice([-1, max(g) + 1, max(g) + 20])}, [],
          dtype=r.choice(['int', 'int32', 'int16', 'uint16', 'float']), form=r.choice(['', 'tuple', 'floats']), list=r.random() < .3, none=r.random() < .5,
          positional=r.random() < .4)
    return p.request(r.choice([1, 1, 2]), 'fr')


def replace_big(r):
    p = Prog(r, small=True)
    n = r.choice([12, 40, 140, 270])
    d = r.choice([1, 2, n // 2, n - 1, n])
    inds = r.sample(range(n), d)
    if r.random() < .4:
        inds = sorted(inds)
    if r.random() < .3:
        inds = [i - n if r.random() < .5 else i for i in inds]
    sub = p.inp([d]) if r.random() < .7 else p.const([d])
    x = p.inp([n])
    if r.random() < .3:
        x = p.bend(x)
    p.add({'f': 'rep', 'a': sub, 'b': x, 'inds': inds}, [n], list=r.random() < .4)
    return p.request(r.choice([1, 1, 2]))


def c17(chk):
    r = gen.rng_for(chk.seed, 'C17')
    # every assignment of up to four rows to up to three groups, in one go
    bs = []
    for n in (1, 2, 3, 4):
        for g in itertools.product(range(3), repeat=n):
            for tail in ([], [2]):
                for num_g in (-1, 0, 2, 3, 4):
                    p = Prog(r)
                    a = p.inp([n] + tail)
                    p.add({'f': 'gs', 'a': a, 'gsh': [n], 'g': list(g), 'num': num_g}, [])
                    o, opt = p.request(1)
                    bs.append((o, opt))
    for n in (1, 2, 3, 4):
        for d in range(n + 1):
            for inds in itertools.permutations(range(n), d):
                p = Prog(r)
                a, b = p.inp([d]), p.inp([n])
                p.add({'f': 'rep', 'a': a, 'b': b, 'inds': list(inds)}, [n])
                bs.append(p.request(1))
    for n in (1, 2, 3):
        for m in (1, 2, 3, 4):
            for gsh in ([m], [m, 1], [1, m]):
                p = Prog(r)
                a = p.inp([n])
                p.add({'f': 'gs', 'a': a, 'gsh': gsh, 'g': [i % 2 for i in range(m)], 'num': -1}, [])
                bs.append(p.request(1))
    cases = [{'ops': [o for o, _ in bs[i::40]], 'opts': [q for _, q in bs[i::40]]} for i in range(40)]
    conform(chk, 'all small groupings and replacements', 'DiffReplay', cases, run_diff, send=('ops',))
    chk.exhaustive['all small groupings and replacements'] = True
    bs = []
    for _ in range(chk.n(500, 6000)):
        prs = [replace_run(r, r.choice([1, 2, 3])) if r.random() < .4 else
               group_run(r, r.choice([1, 2, 3]), bad=r.random() < .15) for _ in range(6)]
        bs.append({'ops': [q[0] for q in prs], 'opts': [q[1] for q in prs]})
    for _ in range(chk.n(20, 200)):
        prs = [group_big(r), replace_big(r), group_big(r)]
        bs.append({'ops': [q[0] for q in prs], 'opts': [q[1] for q in prs]})
    conform(chk, 'random programs', 'DiffReplay', bs, run_diff, send=('ops',))


# ---- C18 ----
def flat_entries(m):
    return [v for row in m for v in row]


def matrix_run(r, k):
    p = Prog(r, small=True)
    kind = r.choice(['inv', 'inv', 'solve', 'solve', 'solve', 'logdet', 'logdet'])
    n = r.choice([1, 2, 2, 2, 3]) if k < 3 else r.choice([1, 2])
    stack = [] if r.random() < (.85 if kind == 'logdet' else .6) else \
        r.choice([[1], [2], [3], [1, 2], [2, 1], [2, 2], [2, 1, 1]])
    base = []
    for _ in range(gen.prod(stack)):
        m = rand_matrix(r, n)
        base += flat_entries(m)
    sh = stack + [n, n]
    how = r.choice(['in', 'in', 'sum', 'const'] if kind == 'solve' else ['in', 'in', 'sum'])
    if how == 'const':
        a = p.const(sh, base)
    elif how == 'sum':
        # base = u * u + (base - u * u): the matrix depends non-linearly on x
        u = [r.choice([Fr(0), Fr(1), Fr(-1)]) for _ in base]
        i = p.inp(sh, u)
        a = p.both('add', p.square(i), p.const(sh, [v - w * w for v, w in zip(base, u)]))
    else:
        a = p.inp(sh, base)
    if kind == 'inv':
        y = p.add({'f': 'inv', 'a': a}, sh)
        if r.random() < .25 and n < 3 and k < 3:
            y = p.square(y)
    elif kind == 'logdet':
        if how == 'in' and r.random() < .2 and n < 3:
            a = p.add({'f': 'inv', 'a': a}, sh)
        if not stack and r.random() < .25:
            sign = p.add({'f': 'detsign', 'a': a}, [])
            y = p.both('mul', sign, p.square(p.inp([], [Fr(2)])))
        else:
            y = p.add({'f': 'logdet', 'a': a}, [])
        if stack:
            k = r.choice([0, 1])
    else:
        bsh = stack + (r.choice([[n], [n, 1], [n, 2]]) if not stack or r.random() < .25
                       else r.choice([[n, 1], [n, 2], [n, n]]))
        bkind = r.choice(['in', 'in', 'const', 'bent']) if how != 'const' else r.choice(['in', 'bent'])
        b = p.const(bsh) if bkind == 'const' else p.inp(bsh)
        if bkind == 'bent':
            b = p.square(b)
        y = p.add({'f': 'solve', 'a': a, 'b': b}, bsh)
        if r.random() < .2 and k < 3 and n < 3:
            y = p.square(y)
    return p.request(k, tol=1e-8)


def matrix_big(r):
    """4 x 4 and 5 x 5 matrices with a small determinant."""
    p = Prog(r, small=True)
    n = r.choice([4, 4, 5])
    kind = r.choice(['inv', 'solve', 'solve', 'logdet'])
    stack = r.choice([0, 0, 2]) if kind != 'logdet' and n == 4 else 0
    if r.random() < .2 and kind != 'logdet':
        n, stack = 2, r.choice([5, 8, 12])      # many small ones
    base = []
    for _ in range(max(1, stack)):
        base += flat_entries(triangular(r, n))
    sh = ([stack] if stack else []) + [n, n]
    a = p.inp(sh, base)
    if kind == 'inv':
        p.add({'f': 'inv', 'a': a}, sh)
    elif kind == 'logdet':
        p.add({'f': 'logdet', 'a': a}, [])
    else:
        bsh = ([stack] if stack else []) + (r.choice([[n, 1], [n, 2], [n, n + 1]]) if stack
                                            else r.choice([[n], [n, 1], [n, 3], [n, n + 2]]))
        b = p.const(bsh) if r.random() < .3 else p.inp(bsh)
        p.add({'f': 'solve', 'a': a, 'b': b}, bsh)
    return p.request(1 if n == 5 else r.choice([1, 1, 2]), tol=1e-8)


ZETA = [None, None] + [float(scipy.special.zeta(i)) for i in range(2, 8)]
# Dirichlet's beta function, by the Hurwitz zeta function
BETA = [math.pi / 4, 0.91596559417721901505] + [
    float(scipy.special.zeta(i, .25) - scipy.special.zeta(i, .75)) / 4 ** i for i in range(3, 8)]
SYMBOLS = [math.sqrt(math.pi), 0.57721566490153286061, math.log(2.0)] + ZETA[2:] + BETA \
    + [3.6256099082219083119, 1.2254167024651776451]


def poly(p):
    return math.fsum(num(c) * math.prod(s ** e for s, e in zip(SYMBOLS, m)) for m, c in p)


def run_gamma(b, outs):
    for o, opt, rec in zip(b['ops'], b['opts'], outs):
        out = rec['out']
        fn = {'gamma': asp.gamma, 'rgamma': asp.rgamma, 'gammaln': asp.gammaln, 'psi': asp.psi,
              'digamma': asp.digamma, 'gammasgn': asp.gammasgn,
              'polygamma': lambda y: asp.polygamma(o['n'], y)}[o['fn']]
        l, c = mat([a['l'] for a in o['arg']]), vec([a['c'] for a in o['arg']])
        ml, mc = mat([a['l'] for a in o['mul']]), vec([a['c'] for a in o['mul']])
        sh = opt['shape']

        def fun(x):
            arg = anp.reshape(anp.dot(l, x) + c, sh)
            if sh == ():
                arg = arg + 0.0
            return anp.reshape(fn(arg), (-1,)) * (anp.dot(ml, x) + mc)
        coefs = []
        for s in range(1 << len(o['dirs'])):
            v = [poly(e[s]) for e in out['c']]
            if o['fn'] == 'gammaln':
                v = [a + num(m[s]) * math.log(abs(poly(g))) for a, m, g in zip(v, out['mul'], out['base'])]
            coefs.append(np.array(v))
        try:
            check_derivatives(fun, vec(o['x']), [vec(d) for d in o['dirs']], coefs, 1e-8)
        except Mismatch as e:
            raise Mismatch('%s with %s: %s' % (o, opt, e))
        except Exception as e:
            raise Mismatch('%s with %s: unexpected %s: %s' % (o, opt, type(e).__name__, e))


def gamma_run(r, k):
    fn = r.choice(['gamma', 'rgamma', 'gammaln', 'psi', 'digamma', 'polygamma', 'polygamma', 'gammasgn'])
    n = r.choice([1, 1, 2, 3]) if fn == 'polygamma' else 0
    if fn == 'polygamma' and r.random() < .15:
        n = 0
    k = min(k, 4 - n) if fn == 'polygamma' else k
    m = r.choice([1, 1, 2, 3, 4])
    dim = r.choice([1, 2, 2, 3])
    pool = [Fr(1), Fr(2), Fr(3), Fr(1, 2), Fr(3, 2), Fr(5, 2)]
    if k + n < 4:
        pool += [Fr(4), Fr(7, 2), Fr(-1, 2), Fr(-3, 2), Fr(-1, 2), Fr(-3, 2)]
    pool += [Fr(1, 4), Fr(-1, 4), Fr(-3, 4)]
    if k + n < 4:
        pool += [Fr(3, 4), Fr(5, 4), Fr(7, 4), Fr(-5, 4)]
    x = [Fr(r.choice([-1, 1, 2, 3]), r.choice([1, 2])) for _ in range(dim)]
    arg, mul = [], []
    for _ in range(m):
        l = [Fr(r.choice([0, 1, 1, -1, 2])) for _ in range(dim)]
        if not any(l):
            l[r.randrange(dim)] = Fr(1)
        arg.append({'l': [rj(v) for v in l], 'c': rj(r.choice(pool) - sum(u * v for u, v in zip(l, x)))})
        ml = [Fr(r.choice([0, 0, 1, -1])) for _ in range(dim)]
        mul.append({'l': [rj(v) for v in ml], 'c': rj(Fr(r.choice([1, 1, 2, -1])))})
    sh = r.choice([(m,)] + ([()] if m == 1 else [(m, 1), (1, m)]) + ([(2, 2)] if m == 4 else []))
    dirs = [[rj(Fr(r.choice([-1, 0, 1, 1, 2]))) for _ in range(dim)] for _ in range(k)]
    return {'op': 'gamma', 'fn': fn, 'n': n, 'x': [rj(v) for v in x], 'dirs': dirs, 'arg': arg, 'mul': mul}, \
        {'shape': sh}


def c18(chk):
    r = gen.rng_for(chk.seed, 'C18')
    bs = []
    for _ in range(chk.n(600, 6000)):
        prs = [matrix_run(r, r.choice([1, 2, 2, 3])) for _ in range(3)]
        bs.append({'ops': [q[0] for q in prs], 'opts': [q[1] for q in prs]})
    for _ in range(chk.n(20, 200)):
        prs = [matrix_big(r) for _ in range(2)]
        bs.append({'ops': [q[0] for q in prs], 'opts': [q[1] for q in prs]})
    conform(chk, 'matrices', 'DiffReplay', bs, run_diff, send=('ops',))
    bs = []
    for _ in range(chk.n(400, 5000)):
        prs = [gamma_run(r, r.choice([1, 2, 2, 3])) for _ in range(4)]
        bs.append({'ops': [q[0] for q in prs], 'opts': [q[1] for q in prs]})
    conform(chk, 'gamma functions', 'GammaReplay', bs, run_gamma, send=('ops',))
