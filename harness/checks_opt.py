"""C13 (Objective.tla), C14 and C15 (Precond.tla)."""
import contextlib
import io
import re
import sys
import types
import warnings
from fractions import Fraction as Fr

import autograd
import autograd.numpy as anp
import numpy as np
import scipy.sparse

import gen
from common import conform, edges
from gen import rj
from objects import Mismatch, close, num
from session import POOL, reused

import paragami
from paragami import optimization_lib as ol

warnings.simplefilter('ignore')


def vec(v):
    return np.array([num(x) for x in v], dtype=float)


def mat(m):
    return np.array([[num(x) for x in row] for row in m], dtype=float)


def cubic(f):
    """The objective of the specification, for autograd."""
    l, h, c, x0 = vec(f['l']), mat(f['h']), mat(f['c']), vec(f['x0'])

    def fun(x):
        u = x - x0
        return anp.dot(l, u) + anp.dot(u, anp.dot(h, u)) / 2 + anp.dot(u * u, anp.dot(c, u))
    return fun


def scalar_cubic(f):
    l, h, c, x0 = num(f['l'][0]), num(f['h'][0][0]), num(f['c'][0][0]), num(f['x0'][0])

    def fun(x):
        u = x - x0
        return l * u + h * u * u / 2 + c * u ** 3
    return fun


# ------------------------------------------------------------ objective
class Recorder(paragami.OptimizationObjective):
    """Custom progress reports, as the documentation suggests."""
    def print_value(self, num_f_evals, x, f_val):
        self.__dict__.setdefault('printed', []).append((num_f_evals, np.array(x), f_val))

    def log_value(self, num_f_evals, x, f_val):
        self.__dict__.setdefault('logged', []).append((num_f_evals, np.array(x), f_val))
        super().log_value(num_f_evals, x, f_val)


def numbers_in(s):
    return [float(t) for t in re.findall(r'-?\d+\.?\d*(?:e[-+]?\d+)?', s)]


class Bomb(Exception):
    """Raised by an objective in the middle of an evaluation."""


class ObjectiveRun:
    def __init__(self, b):
        opt = b['opt']
        self.scalar = opt.get('scalar', False)
        inner = scalar_cubic(b['f']) if self.scalar else cubic(b['f'])
        self.armed = False

        def fun(x):
            v = inner(x)
            if self.armed:
                raise Bomb()
            return v
        self.custom = opt.get('custom', False)
        cls = Recorder if self.custom else paragami.OptimizationObjective
        if opt.get('positional'):
            self.obj = cls(fun, b['pe'], b['le'])
        elif b['pe'] == 1 and b['le'] == 0 and opt.get('defaults'):
            self.obj = cls(fun)
        else:
            self.obj = cls(objective_fun=fun, log_every=b['le'], print_every=b['pe'])
        self.buf = vec(b['f']['x0'])

    def arg(self, opt):
        if self.scalar:
            return float(self.buf[0])
        how = opt.get('arg', 'buf')
        if how == 'copy':
            return self.buf.copy()
        if how == 'readonly':
            x = self.buf.copy()
            x.setflags(write=False)
            return x
        if how == 'view':
            return self.buf[:]
        return self.buf

    def same_x(self, got, want, what):
        close(np.atleast_1d(np.asarray(got, dtype=float)), vec(want), 0.0, what)

    def step(self, o, opt, out, tol=1e-11):
        obj, op = self.obj, o['op']
        text = io.StringIO()
        for a in ('printed', 'logged'):
            obj.__dict__.pop(a, None)
        got = None
        with contextlib.redirect_stdout(text):
            if op == 'f':
                got = obj.f(self.arg(opt))
            elif op == 'grad':
                got = obj.grad(self.arg(opt))
            elif op == 'hess':
                got = obj.hessian(self.arg(opt))
            elif op == 'hvp':
                v = vec(o['v'])
                got = obj.hessian_vector_product(self.arg(opt), float(v[0]) if self.scalar else v)
            elif op == 'setp':
                obj.set_print_every(o['n'])
            elif op == 'setl':
                obj.set_log_every(o['n'])
            elif op == 'reset':
                obj.reset()
            elif op == 'resetc':
                obj.reset_iteration_count()
            elif op == 'resetl':
                obj.reset_log()
            elif op == 'write':
                self.buf[...] = vec(o['x'])
            elif op == 'fail':
                self.armed = True
                try:
                    if o['of'] == 'hvp':
                        obj.hessian_vector_product(self.arg(opt), 1.0 if self.scalar else np.ones(len(self.buf)))
                    else:
                        {'f': obj.f, 'grad': obj.grad, 'hess': obj.hessian}[o['of']](self.arg(opt))
                except Bomb:
                    pass
                else:
                    raise Mismatch('the exception of the objective did not reach the caller of %s' % o['of'])
                finally:
                    self.armed = False
        lines = [s for s in text.getvalue().split('\n') if s.strip()]
        if op == 'f':
            close(got, num(out['x']), tol, 'f')
            if self.custom:
                for name, due in (('printed', out['printed']), ('logged', out['logged'])):
                    evs = obj.__dict__.get(name, [])
                    if len(evs) != (1 if due else 0):
                        raise Mismatch('evaluation %d was %s %d times' % (out['n'], name, len(evs)))
                    for n, x, v in evs:
                        if n != out['n']:
                            raise Mismatch('evaluation %d is %s as number %r' % (out['n'], name, n))
                        close(np.atleast_1d(x), self.buf, 0.0, name + ' argument')
                        close(v, num(out['x']), tol, name + ' value')
                if lines:
                    raise Mismatch('printed although print_value is overloaded: %r' % lines)
            else:
                if len(lines) != (1 if out['printed'] else 0):
                    raise Mismatch('evaluation %d printed %r' % (out['n'], lines))
                if lines:
                    ns = numbers_in(lines[0])
                    v = num(out['x'])
                    if not any(n == out['n'] for n in ns) or \
                            not any(abs(n - v) <= 1e-7 * (1 + abs(v)) for n in ns):
                        raise Mismatch('evaluation %d with value %r printed %r' % (out['n'], v, lines))
        else:
            if lines or any(obj.__dict__.get(a) for a in ('printed', 'logged')):
                raise Mismatch('%s printed or logged %r' % (op, lines))
            if op == 'grad':
                close(np.atleast_1d(got), vec(out['x']), tol, 'grad')
            elif op == 'hess':
                close(np.reshape(got, (len(self.buf),) * 2), mat(out['x']), tol, 'hessian')
            elif op == 'hvp':
                close(np.atleast_1d(got), vec(out['x']), tol, 'hessian_vector_product')
        if op == 'look':
            self.look(out['x'], tol)

    def look(self, x, tol):
        if self.obj.num_iterations() != x['count']:
            raise Mismatch('num_iterations() is %r, expected %d' % (self.obj.num_iterations(), x['count']))
        log = self.obj.optimization_log
        if len(log) != len(x['log']):
            raise Mismatch('the log has %d entries, expected %d' % (len(log), len(x['log'])))
        for i, (e, w) in enumerate(zip(log, x['log'])):
            if e[0] != w['n']:
                raise Mismatch('log entry %d is of iteration %r, expected %d' % (i, e[0], w['n']))
            self.same_x(e[1], w['x'], 'argument in log entry %d' % i)
            close(e[2], num(w['v']), tol, 'value in log entry %d' % i)


def run_objective(b, outs):
    run = ObjectiveRun(b)
    for i, (o, opt, rec) in enumerate(zip(b['ops'], b['opts'], outs)):
        try:
            run.step(o, opt, rec['out'])
            if 'count' in rec and run.obj.num_iterations() != rec['count']:
                raise Mismatch('num_iterations() is %r, expected %d' % (run.obj.num_iterations(), rec['count']))
            if 'len' in rec and len(run.obj.optimization_log) != rec['len']:
                raise Mismatch('the log has %d entries, expected %d' % (
                    len(run.obj.optimization_log), rec['len']))
        except Mismatch as e:
            raise Mismatch('print_every %d, log_every %d, after %s: %s' % (
                b['pe'], b['le'], b['ops'][:i + 1], e))


def ints(r, n, lo=-3, hi=3):
    return [rj(r.randint(lo, hi)) for _ in range(n)]


def fracs(r, n):
    return [rj(Fr(r.randint(-6, 6), r.choice([1, 1, 2, 4]))) for _ in range(n)]


def rand_cubic(r, n, h=None, x0=None):
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            m[i][j] = m[j][i] = r.randint(-3, 3)
    return {'l': ints(r, n), 'h': h or [[rj(x) for x in row] for row in m],
            'c': [[rj(r.choice([0, 0, 1, -1, 2])) for _ in range(n)] for _ in range(n)],
            'x0': x0 or ints(r, n)}


def c13(chk):
    r = gen.rng_for(chk.seed, 'C13')
    f = rand_cubic(r, 2)
    q = lambda **kw: kw
    ops = [q(op='f'), q(op='grad'), q(op='hess'), q(op='hvp', v=[[1, 1], [-2, 1]]),
           q(op='setp', n=0), q(op='setp', n=1), q(op='setp', n=2), q(op='setl', n=0), q(op='setl', n=1),
           q(op='setl', n=2), q(op='reset'), q(op='resetc'), q(op='resetl'),
           q(op='write', x=[[1, 2], [-1, 1]]), q(op='write', x=[[3, 1], [1, 4]]), q(op='fail', of='f'),
           q(op='look')]
    ops2 = [o for o in ops if o['op'] not in ('setp', 'setl')] + [
        q(op='setp', n=-1), q(op='setp', n=3), q(op='setl', n=-2), q(op='setl', n=3)]
    for part, os, custom in (('every history', ops, False), ('every history, other intervals', ops2, True)):
        edges(chk, part, 'ObjectiveMC',
              {'f': f, 'pe': 1, 'le': 1, 'ops': os, 'maxc': chk.n(2, 3), 'maxl': chk.n(2, 3), 'opt': {'custom': custom}},
              run_objective, r, ('f', 'pe', 'le', 'ops', 'maxc', 'maxl'),
              lambda s: s[0] == 0 and s[1] == [] and s[2:4] == [1, 1] and s[4] == f['x0'],
              suffix=lambda o: o['op'] == 'look', limit=chk.n(40000, None))
    bs = []
    for _ in range(chk.n(300, 4000)):
        n = r.choice([1, 1, 2, 3])
        b = {'f': rand_cubic(r, n), 'pe': r.choice([0, 1, 1, 2, 3, -1]), 'le': r.choice([0, 0, 1, 2, 3, 5])}
        b['opt'] = {'custom': r.random() < .4, 'scalar': n == 1 and r.random() < .5,
                    'positional': r.random() < .5, 'defaults': r.random() < .5}
        ops = []
        for _ in range(chk.n(40, 60)):
            c = r.random()
            if c < .4:
                ops.append(q(op='f'))
            elif c < .5:
                ops.append(q(op=r.choice(['grad', 'hess'])))
            elif c < .55:
                ops.append(q(op='hvp', v=ints(r, n)))
            elif c < .63:
                ops.append(q(op='setp', n=r.choice([0, 1, 2, 3, 4, -1, 10])))
            elif c < .71:
                ops.append(q(op='setl', n=r.choice([0, 1, 1, 2, 3, 4, -1])))
            elif c < .75:
                ops.append(q(op=r.choice(['reset', 'resetc', 'resetl'])))
            elif c < .90:
                ops.append(q(op='write', x=fracs(r, n)))
            elif c < .95:
                ops.append(q(op='fail', of=r.choice(['f', 'f', 'f', 'grad', 'hess', 'hvp'])))
            else:
                ops.append(q(op='look'))
        b['ops'] = ops + [q(op='look')]
        b['opts'] = [{'arg': r.choice(['buf', 'buf', 'copy', 'readonly', 'view'])} for _ in b['ops']]
        bs.append(b)
    conform(chk, 'random histories', 'ObjectiveReplay', bs, run_objective, send=('f', 'pe', 'le', 'ops'))
    # Many evaluations: nothing may be lost or thinned out however long it takes.
    bs = []
    for i in range(chk.n(2, 6)):
        b = {'f': rand_cubic(r, 1), 'pe': [100, 1, 7][i % 3], 'le': [1, 3, 1][i % 3],
             'opt': {'custom': i % 2 == 1, 'scalar': False, 'positional': False, 'defaults': False}}
        ops = []
        while sum(o['op'] == 'f' for o in ops) < chk.n(1300, 3000):
            ops.append(q(op='write', x=fracs(r, 1)) if r.random() < .2 else
                       q(op='grad') if r.random() < .02 else q(op='f'))
        b['ops'] = ops + [q(op='look')]
        b['opts'] = [{'arg': r.choice(['buf', 'copy'])} for _ in b['ops']]
        bs.append(b)
    conform(chk, 'long histories', 'ObjectiveReplay', bs, run_objective, send=('f', 'pe', 'le', 'ops'), cfg='ObjectiveLong')


# ------------------------------------------------------------ preconditioners
SPARSE = ['csr', 'csc', 'coo', 'lil', 'dia', 'bsr', 'dok', 'csr_array', 'csc_array']


def sparse(m, fmt):
    if fmt.endswith('_array'):
        return getattr(scipy.sparse, fmt)(m)
    return getattr(scipy.sparse, fmt + '_matrix')(m)


def install_cholmod():
    """A stand-in for sksparse.cholmod (which is not installed here).

    It follows the documented contract: for a factor of A, L() L()' = P A P',
    apply_P(b) = P b, apply_Pt(b) = P' b.  The ordering is ours to choose.
    """
    if 'sksparse' in sys.modules:
        return sys.modules['sksparse.cholmod']
    pkg, mod = types.ModuleType('sksparse'), types.ModuleType('sksparse.cholmod')

    class Factor:
        def __init__(self, a):
            n = a.shape[0]
            p = getattr(mod, 'order', None)
            self.p = np.array(p if p is not None and len(p) == n else range(n))
            a = np.asarray(a.todense(), dtype=float)
            self.a = a
            self.l = np.linalg.cholesky(a[np.ix_(self.p, self.p)])

        def L(self):
            return scipy.sparse.csc_matrix(self.l)

        def P(self):
            return self.p.copy()

        def D(self):
            return np.diag(self.l) ** 2

        def L_D(self):
            d = np.diag(self.l)
            return scipy.sparse.csc_matrix(self.l / d), scipy.sparse.dia_matrix(np.diag(d ** 2))

        def _rows(self, b, ix):
            return b.tocsr()[ix].tocsc() if scipy.sparse.issparse(b) else b[ix]

        def apply_P(self, b):
            return self._rows(b, self.p)

        def apply_Pt(self, b):
            return self._rows(b, np.argsort(self.p))

        def solve_A(self, b):
            return np.linalg.solve(self.a, b)

        __call__ = solve_A

        def solve_L(self, b, use_LDLt_decomposition=True):
            return np.linalg.solve(self.L_D()[0].toarray() if use_LDLt_decomposition else self.l, b)

        def solve_Lt(self, b, use_LDLt_decomposition=True):
            return np.linalg.solve((self.L_D()[0].toarray() if use_LDLt_decomposition else self.l).T, b)

        def logdet(self):
            return 2 * np.sum(np.log(np.diag(self.l)))

        def inv(self):
            return scipy.sparse.csc_matrix(np.linalg.inv(self.a))

    mod.cholesky = lambda a, *args, **kw: Factor(a)
    mod.Factor = Factor
    pkg.cholmod = mod
    sys.modules['sksparse'], sys.modules['sksparse.cholmod'] = pkg, mod
    return mod


def limit(x, square=True):
    if not x:
        return None
    return num(x) if x[1] == 0 or not square else num(x) ** 2


def hessian_matrix(o):
    q, s = [[Fr(*x) for x in row] for row in o['q']], [Fr(*x) for x in o['s']]
    n = len(s)
    return np.array([[float(sum(q[i][k] * s[k] * abs(s[k]) * q[j][k] for k in range(n)))
                      for j in range(n)] for i in range(n)])


class PrecondRun:
    def __init__(self, b):
        self.f = b['f']
        # units of the argument of f and of the preconditioned one (powers of two)
        self.c, self.d = [2.0 ** e for e in b.get('units') or (0, 0)]
        fun = cubic(b['f'])
        self.pf = paragami.PreconditionedFunction(
            fun if self.c == 1.0 else lambda x: fun(x / self.c))
        self.n = len(b['f']['l'])

    def set(self, o, opt):
        pf, op = self.pf, o['op']
        if op == 'ident':
            pf.set_identitity_preconditioner()
        elif op == 'matrix':
            fmt = opt.get('fmt', '')
            a = mat(o['a']) * (self.c / self.d)
            inv = mat(o['inv']) * (self.d / self.c) if o['inv'] else None
            if opt.get('order') == 'F':
                a = np.asfortranarray(a)
            if fmt:
                a, inv = sparse(a, fmt), None if inv is None else sparse(inv, opt.get('fmt2', 'csc'))
            f = pf.set_preconditioner if opt.get('old') else pf.set_preconditioner_matrix
            if inv is None and not opt.get('explicit'):
                f(a)
            else:
                f(a, inv)
        elif op == 'funs':
            a, inv = mat(o['a']) * (self.c / self.d), mat(o['inv']) * (self.d / self.c)
            if opt.get('buffer'):
                # functions that return the same array every time
                ta, ti = np.zeros(self.n), np.zeros(self.n)

                def fa(x):
                    if type(x) is not np.ndarray:
                        return anp.dot(a, x)
                    np.dot(a, x, out=ta)
                    return ta

                def fi(x):
                    if type(x) is not np.ndarray:
                        return anp.dot(inv, x)
                    np.dot(inv, x, out=ti)
                    return ti
                pf.set_preconditioner_functions(fa, fi)
            else:
                pf.set_preconditioner_functions(lambda x: anp.dot(a, x), lambda x: anp.dot(inv, x))
        elif op == 'hess':
            kw = {}
            for k, x in (('ev_min', limit(o['lo'])), ('ev_max', limit(o['hi']))):
                if x is not None or opt.get('explicit'):
                    kw[k] = x if x is None else x * (self.d / self.c) ** 2
            if o['x']:
                pf.set_preconditioner_with_hessian(x=reused(vec(o['x']) * self.c), **kw)
            else:
                h = hessian_matrix(o) * (self.d / self.c) ** 2
                h = h.tolist() if opt.get('list') else reused(h)
                pf.set_preconditioner_with_hessian(hessian=h, **kw)
        elif op == 'bad':
            kw = {}
            if o['what'] == 'both':
                kw = {'x': np.ones(self.n), 'hessian': 2 * np.eye(self.n)}
            elif o['what'] == 'sparse':
                kw = {'hessian': sparse(3.0 * np.eye(self.n), opt.get('fmt2', 'csc'))}
            if opt.get('explicit'):
                kw['ev_min'] = 0.5
            pf.set_preconditioner_with_hessian(**kw)

    def step(self, o, opt, out):
        pf, op = self.pf, o['op']
        if op in ('trunc', 'eig', 'sparse'):
            return getattr(self, op)(o, opt, out)
        st = out['st']
        tol = 1e-8
        if op in ('ident', 'matrix', 'funs', 'hess', 'bad'):
            try:
                self.set(o, opt)
                got = 'ok'
            except NotImplementedError:
                got = 'NotImplementedError'
            except ValueError:
                got = 'ValueError'
            if got != st:
                raise Mismatch('%s gave %s, expected %s' % (o, got, st))
            return
        c, d = self.c, self.d
        x = vec(o['x']) if 'x' in o else None
        if x is not None:
            x = reused(x * (c if op in ('pre', 'check') else d))
        keep = None if x is None else x.copy()
        if op == 'call':
            close(pf(x), num(out['x']), tol, 'preconditioned function')
        elif op == 'grad':
            close(autograd.grad(pf)(x) * d, vec(out['x']), tol, 'gradient')
            v = np.arange(1.0, len(x) + 1)
            close(autograd.make_jvp(pf)(x)(v)[1] * d, vec(out['x']) @ v, tol, 'forward derivative')
        elif op == 'hessian':
            close(autograd.hessian(pf)(x) * d ** 2, mat(out['x']), tol, 'Hessian')
            v = np.arange(1.0, len(x) + 1)
            close(autograd.hessian_vector_product(pf)(x, v) * d ** 2, mat(out['x']) @ v, tol, 'Hessian-vector product')
        elif op == 'unpre':
            close(pf.unprecondition(x) / c, vec(out['x']), tol, 'unprecondition')
        elif op == 'pre':
            close(pf.precondition(x) / d, vec(out['x']), tol, 'precondition')
        elif op == 'both':
            close(pf.precondition(np.array(pf.unprecondition(x))) / d, vec(out['x']['pu']), tol, 'precondition(unprecondition)')
            close(pf.unprecondition(np.array(pf.precondition(x * (c / d)))) / c, vec(out['x']['up']), tol, 'unprecondition(precondition)')
        elif op == 'mats':
            n = self.n
            opt_copy = [np.array(pf.get_preconditioner(n)) * (d / c), np.array(pf.get_preconditioner_inv(n)) * (c / d)]
            close(opt_copy[0], mat(out['x']['a']), tol, 'get_preconditioner')
            close(opt_copy[1], mat(out['x']['ai']), tol, 'get_preconditioner_inv')
        elif op == 'check':
            # a tolerance of 0 in the request stands for the default 1e-8
            # (whose square TLC cannot hold)
            e, t = num(out['e']), num(o['tol']) or 1e-8
            if abs(e - t * t) < 1e-6 * (e + t * t):
                return          # too close to call in floating point
            try:
                if t == 1e-8 and c == 1.0 and not opt.get('explicit'):
                    pf.check_preconditioner(x)
                else:
                    pf.check_preconditioner(x, t * c)
                got = 'ok'
            except ValueError:
                got = 'ValueError'
            if got != st:
                raise Mismatch('check_preconditioner gave %s, expected %s (error %r)' % (got, st, e ** .5))
        if keep is not None and not np.array_equal(x, keep):
            raise Mismatch('%s changed its argument' % op)

    # ---- helpers of C15 ----
    def trunc(self, o, opt, out):
        ev = vec(o['ev'])
        if opt.get('int') and np.all(ev == np.round(ev)):
            ev = ev.astype(int)
        keep = ev.copy()
        kw = {}
        for k, x in (('ev_min', o['lo']), ('ev_max', o['hi'])):
            x = limit(x, False)
            if x is not None or opt.get('explicit'):
                if opt.get('intlimit') and x is not None and x == np.round(x) and np.isfinite(x):
                    x = int(x)
                kw[k] = x
        got = ol.truncate_eigenvalues(ev, **kw)
        if not np.array_equal(ev, keep) or ev.dtype != keep.dtype:
            raise Mismatch('truncate_eigenvalues changed its input')
        close(got, vec(out['x']), 1e-13, 'truncate_eigenvalues')
        inside = np.array([a == b for a, b in zip(o['ev'], out['x'])], dtype=bool)
        if not np.array_equal(np.asarray(got)[inside], keep[inside]):
            raise Mismatch('truncate_eigenvalues changed values within the limits')

    def eig(self, o, opt, out):
        q = mat(o['q'])[:, :o['k']]
        ev = vec(o['ev'][:o['k']])
        fn = {'square': lambda x: x * x, 'inverse': lambda x: 1 / x, 'negate': lambda x: -x,
              'zero': lambda x: 0 * x, 'same': lambda x: x, 'plus': lambda x: x + 2}[o['fn']]
        if o['bad'] == 'number':
            ev = np.append(ev, 1.0)
        elif o['bad'] == 'fewer':
            ev = ev[:-1]
        elif o['bad'] == 'vecs1d':
            q = q[:, 0]
        elif o['bad'] == 'vals2d':
            ev = ev.reshape((1, -1))
        keep = q.copy(), ev.copy()
        v = vec(o['v'])
        try:
            mult = ol.transform_eigenspace(q, ev, fn)
            got = 'ok'
        except ValueError:
            got = 'ValueError'
        if got != out['st']:
            raise Mismatch('transform_eigenspace gave %s, expected %s (%s)' % (got, out['st'], o['bad']))
        if got == 'ok':
            kv = v.copy()
            close(mult(v), vec(out['x']), 1e-9, 'transform_eigenspace')
            close(mult(v), vec(out['x']), 1e-9, 'transform_eigenspace, again')
            if not np.array_equal(v, kv):
                raise Mismatch('the operator changed its argument')
        if not (np.array_equal(q, keep[0]) and np.array_equal(ev, keep[1])):
            raise Mismatch('transform_eigenspace changed its arguments')

    def sparse(self, o, opt, out):
        chol = install_cholmod()
        from paragami import sparse_preconditioners_lib as sl
        h = mat(out['x'])
        chol.order = opt.get('perm2') or list(np.argsort(np.array(o['perm']) - 1))
        hs = sparse(h, opt.get('fmt', 'csc'))
        mult, solve = sl.get_sym_matrix_inv_sqrt_funcs(hs)
        if abs(hs - sparse(h, 'csc')).sum() != 0:
            raise Mismatch('the Hessian was changed')
        n = len(h)
        eye = np.eye(n)
        s = np.array([np.array(mult(eye[i])) for i in range(n)]).T
        si = np.array([np.array(solve(eye[i])) for i in range(n)]).T
        close(s.T @ s, h, 1e-9, "S' S")
        close(si @ s, eye, 1e-8, 'inverse times S')
        close(s @ si, eye, 1e-8, 'S times inverse')
        x = vec(o['v'])
        close(mult(x), s @ x, 1e-9, 'S times a vector')
        close(solve(x), si @ x, 1e-8, 'inverse times a vector')
        # as a preconditioner: the Hessian becomes the identity
        pf = paragami.PreconditionedFunction(lambda y: anp.dot(y, anp.dot(h, y)) / 2 + anp.sum(y))
        pf.set_preconditioner_functions(solve, mult)
        close(autograd.hessian(pf)(x), eye, 1e-7, 'preconditioned Hessian')
        close(autograd.grad(pf)(x), si.T @ (h @ (si @ x) + 1), 1e-7, 'preconditioned gradient')
        w = vec(o['v'])[::-1].copy() + 1.0
        for name, fn, m in (('S', mult, s), ('its inverse', solve, si)):
            close(autograd.make_jvp(fn)(x)(w)[1], m @ w, 1e-8, 'forward derivative of ' + name)
            close(autograd.grad(lambda y: anp.dot(w, fn(y)))(x), m.T @ w, 1e-8, 'reverse derivative of ' + name)


def run_precond(b, outs):
    POOL.clear()
    run = PrecondRun(b)
    for i, (o, opt, rec) in enumerate(zip(b['ops'], b['opts'], outs)):
        try:
            run.step(o, opt, rec['out'])
        except Mismatch as e:
            done = [p for p in b['ops'][:i] if p['op'] in ('ident', 'matrix', 'funs', 'hess', 'bad')]
            raise Mismatch('after %s, %s with %s: %s' % (done, o, opt, e))
        except Exception as e:
            raise Mismatch('%s with %s: unexpected %s: %s' % (o, opt, type(e).__name__, e))


# ---- inputs ----
def mmul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def ident(n):
    return [[Fr(int(i == j)) for j in range(n)] for i in range(n)]


def rand_matrix(r, n, kind=None):
    """An invertible matrix with small entries and a small inverse."""
    m = ident(n)
    for _ in range(r.choice([1, 2, 3, 4])):
        e = ident(n)
        i, j = r.randrange(n), r.randrange(n)
        if i == j:
            e[i][i] = r.choice([Fr(2), Fr(-1), Fr(1, 2), Fr(3), Fr(-2)])
        else:
            e[i][j] = r.choice([Fr(1), Fr(-1), Fr(2), Fr(1, 2)])
        m = mmul(m, e)
    if n > 1 and r.random() < .4:
        r.shuffle(m)
    return m


def mj(m):
    return [[rj(x) for x in row] for row in m]


def inverse(m):
    n = len(m)
    a = [list(row) + e for row, e in zip(m, ident(n))]
    for i in range(n):
        p = next(k for k in range(i, n) if a[k][i] != 0)
        a[i], a[p] = a[p], a[i]
        a[i] = [x / a[i][i] for x in a[i]]
        for k in range(n):
            if k != i:
                a[k] = [x - a[k][i] * y for x, y in zip(a[k], a[i])]
    return [row[n:] for row in a]


def orthogonal(r, n):
    """A rational orthogonal matrix."""
    q = ident(n)
    if n == 1:
        return [[Fr(r.choice([1, -1]))]]
    kinds = r.choice([0, 1, 1, 1, 2])
    for _ in range(kinds):
        if r.random() < .5:
            i, j = r.sample(range(n), 2)
            c, s = r.choice([(Fr(3, 5), Fr(4, 5)), (Fr(-4, 5), Fr(3, 5)), (Fr(0), Fr(1))])
            e = ident(n)
            e[i][i], e[i][j], e[j][i], e[j][j] = c, -s, s, c
        else:
            while True:
                v = [r.choice([0, 1, 1, -1, 2]) for _ in range(n)]
                d = sum(x * x for x in v)
                if d in (1, 2, 3, 4, 5, 6, 9):
                    break
            e = [[Fr(int(i == j)) - Fr(2 * v[i] * v[j], d) for j in range(n)] for i in range(n)]
        q = mmul(q, e)
        if max(x.denominator for row in q for x in row) > (25 if n < 3 else 9 if n == 3 else 5):
            return orthogonal(r, n)
    return q


def orthogonal_big(r, n):
    """A permutation, with reflections and rotations of a few coordinates each."""
    q = [[x * r.choice([1, 1, -1]) for x in row] for row in ident(n)]
    r.shuffle(q)
    free = list(range(n))
    r.shuffle(free)
    for _ in range(r.choice([0, 1, 2, 3])):
        m = r.choice([2, 2, 3])
        if len(free) < m:
            break
        at, free = free[:m], free[m:]
        e = orthogonal(r, m)
        while max(x.denominator for row in e for x in row) > 5:
            e = orthogonal(r, m)
        p = ident(n)
        for i, u in enumerate(at):
            for j, v in enumerate(at):
                p[u][v] = e[i][j]
        q = mmul(q, p)
    return q


ROOTS = [Fr(1), Fr(2), Fr(3), Fr(1, 2), Fr(4), Fr(1), Fr(5), Fr(3, 2)]


def rand_hess(r, n, clip=True):
    s = [r.choice(ROOTS) for _ in range(n)]
    o = {'op': 'hess', 'q': mj((orthogonal if n < 5 else orthogonal_big)(r, n)), 's': [rj(x) for x in s], 'lo': [], 'hi': [], 'x': []}
    if clip:
        pool = sorted(set(s) | {Fr(1, 4), Fr(6), Fr(2), Fr(1), Fr(5, 2)})
        k = r.choice(['', 'lo', 'hi', 'both', 'both'])
        a, b = sorted([r.choice(pool), r.choice(pool)])
        if k in ('lo', 'both'):
            o['lo'] = rj(a)
        if k in ('hi', 'both'):
            o['hi'] = rj(b)
        if r.random() < .1:
            o['hi'] = [1, 0]
        if r.random() < .1:
            o['lo'] = [-1, 0] if r.random() < .5 else [0, 1]
        if r.random() < .1 and o['lo'] and o['hi']:
            o['lo'], o['hi'] = o['hi'], o['lo']
            if o['lo'] == [1, 0] or o['hi'][0] <= 0:
                o['lo'], o['hi'] = o['hi'], o['lo']
        if o['lo'] and o['lo'][0] > 0 and o['lo'][1] and r.random() < .3:
            # not positive definite: negative eigenvalues are raised to ev_min
            i = r.randrange(n)
            o['s'][i] = rj(-s[i])
    return o


def hess_matrix(o):
    q = [[Fr(*x) for x in row] for row in o['q']]
    s = [Fr(*x) for x in o['s']]
    d = [[s[i] * abs(s[i]) if i == j else Fr(0) for j in range(len(s))] for i in range(len(s))]
    return mmul(mmul(q, d), [list(c) for c in zip(*q)])


def precond_ops(r, n, f, count, point_hess, settings):
    """point_hess: a 'hess' operation whose matrix is the Hessian of f at x0."""
    ops, opts = [], []
    for _ in range(count):
        opt = {'explicit': r.random() < .5}
        if r.random() < settings:
            k = r.choice(['ident', 'matrix', 'matrix', 'matrix', 'funs', 'hess', 'bad', 'bad', 'point'])
            if k == 'ident':
                o = {'op': 'ident'}
            elif k == 'matrix':
                a = rand_matrix(r, n)
                o = {'op': 'matrix', 'a': mj(a), 'inv': []}
                c = r.random()
                if c < .4:
                    o['inv'] = mj(inverse(a))
                elif c < .55:
                    o['inv'] = mj(rand_matrix(r, n))        # not the inverse
                opt.update(fmt=r.choice([''] * 6 + SPARSE), fmt2=r.choice(SPARSE), old=r.random() < .2,
                           order=r.choice('CF'))
            elif k == 'funs':
                a = rand_matrix(r, n)
                o = {'op': 'funs', 'a': mj(a), 'inv': mj(inverse(a) if r.random() < .7 else rand_matrix(r, n))}
                opt['buffer'] = r.random() < .2
            elif k == 'hess':
                o = rand_hess(r, n)
                opt['list'] = r.random() < .2
            elif k == 'point':
                o = dict(point_hess)
            else:
                o = {'op': 'bad', 'what': r.choice(['both', 'neither', 'sparse'])}
                opt['fmt2'] = r.choice(SPARSE)
        else:
            k = r.choice(['call', 'grad', 'hessian', 'unpre', 'pre', 'both', 'mats', 'check', 'check'])
            o = {'op': k}
            if k != 'mats':
                o['x'] = [rj(Fr(r.randint(-3, 3), r.choice([1, 1, 2]))) for _ in range(n)]
            if k == 'check':
                o['tol'] = rj(r.choice([Fr(1, 10 ** 8), Fr(1, 1000), Fr(1, 10), Fr(1), Fr(4)]))
                if r.random() < .2:
                    o['x'] = ints(r, n, 0, 0)
        ops.append(o)
        opts.append(opt)
    return ops, opts


UNITS = [0, 0, 3, -3, 12, -12, 30, -30, 55, -55, 100, -100]


def with_units(r, b):
    """The history in other units, which the specification does not mention.

    The argument x of f is measured in units of c = 2^i and the preconditioned
    argument y in units of d = 2^j: the function is f(x / c), a preconditioner
    is a c / d, a Hessian it is made from H d^2 / c^2.
    """
    ops = [o['op'] for o in b['ops']]
    c, d = r.choice(UNITS), r.choice(UNITS)
    if 'ident' in ops or r.random() < .2:
        d = c
    if any(o['op'] == 'hess' and o['x'] for o in b['ops']):
        d = 0
        if 'ident' in ops:
            c = 0
    b['units'] = [c, d]
    return b


def separable(r, n):
    """A cubic whose Hessian is diagonal, and operations that use its Hessian at
    several points."""
    hs = [r.choice([-2, 0, 1, 2, 3]) for _ in range(n)]
    cs = [r.choice([1, -1, 2]) for _ in range(n)]
    diag = lambda v: [[rj(v[i] if i == j else 0) for j in range(n)] for i in range(n)]
    f = rand_cubic(r, n, h=diag(hs))
    f['c'] = diag(cs)
    points = []
    for _ in range(3):
        o = rand_hess(r, n)
        o['q'] = mj(ident(n))
        s = [Fr(*x) for x in o['s']]
        o['x'] = [rj(Fr(*x0) + (t * abs(t) - h) / (6 * c)) for x0, t, h, c in zip(f['x0'], s, hs, cs)]
        points.append(o)
    return f, points


def precond_case(r, n, count, settings=.35):
    if r.random() < .3:
        f, points = separable(r, n)
        ops, opts = precond_ops(r, n, f, count, points[0], settings)
        for i, o in enumerate(ops):
            if o['op'] == 'hess' and r.random() < .8:
                ops[i] = dict(r.choice(points))
        return {'f': f, 'ops': ops, 'opts': opts}
    h = rand_hess(r, n)
    if any(x[0] < 0 for x in h['s']) and n > 3:
        h = rand_hess(r, n, clip=False)
    f = rand_cubic(r, n, h=mj(hess_matrix(h)))
    h['x'] = f['x0']
    ops, opts = precond_ops(r, n, f, count, h, settings)
    return {'f': f, 'ops': ops, 'opts': opts}


def fix_ops(b):
    """A tolerance of 0 stands for the default 1e-8 (whose square TLC cannot hold)."""
    for o in b['ops']:
        if o['op'] == 'check' and o['tol'][1] > 40000:
            o['tol'] = [0, 1]
    return b


def c14(chk):
    r = gen.rng_for(chk.seed, 'C14')
    q = lambda **kw: kw
    n = 2
    hp = rand_hess(r, n, clip=False)
    f = rand_cubic(r, n, h=mj(hess_matrix(hp)))
    hp['x'] = f['x0']
    a1, a2 = [[Fr(1), Fr(2)], [Fr(0), Fr(-1)]], [[Fr(2), Fr(1)], [Fr(1), Fr(1)]]
    ops = [q(op='ident'), q(op='matrix', a=mj(a1), inv=[]), q(op='matrix', a=mj(a2), inv=mj(inverse(a2))),
           q(op='matrix', a=mj(a2), inv=mj(a1)), q(op='matrix', a=mj(rand_matrix(r, n)), inv=[]),
           q(op='funs', a=mj(a1), inv=mj(inverse(a1))), q(op='funs', a=mj(a1), inv=mj(a2)),
           rand_hess(r, n), hp, q(op='bad', what='both'), q(op='bad', what='neither'), q(op='bad', what='sparse')]
    opts = [{}, {}, {}, {'fmt': 'csr'}, {'fmt': 'coo'}, {}, {'buffer': True}, {}, {}, {}, {}, {}]
    xs = [[[1, 1], [-2, 1]], [[0, 1], [1, 2]]]
    for x in xs:
        ops += [q(op=k, x=x) for k in ('call', 'grad', 'hessian', 'unpre', 'pre', 'both')]
        ops += [q(op='check', x=x, tol=t) for t in ([0, 1], [1, 10], [3, 1])]
    ops.append(q(op='mats'))
    opts += [{}] * (len(ops) - len(opts))
    req = {'f': f, 'ops': ops, 'opts': opts}
    fix_ops(req)
    ident_j = mj(ident(n))
    edges(chk, 'every pair of settings', 'PrecondMC', req, run_precond, r, ('f', 'ops'),
          lambda s: s == [ident_j, ident_j], suffix=lambda o: o['op'] in ('mats', 'grad'))
    bs = [precond_case(r, r.choice([1, 2, 2, 3, 3]), chk.n(20, 30)) for _ in range(chk.n(250, 4000))]
    for i, b in enumerate(bs):
        fix_ops(b)
        if i % 2:
            b['ops'], b['opts'] = zip(*[(o, p) for o, p in zip(b['ops'], b['opts'])
                                        if o['op'] != 'ident' and (o['op'] != 'hess' or not o['x'])])
            # the identity one starts with has no units
            b['ops'] = [{'op': 'matrix', 'a': mj(rand_matrix(r, len(b['f']['l']))), 'inv': []}] + list(b['ops'])
            b['opts'] = [{}] + list(b['opts'])
            with_units(r, b)
    conform(chk, 'random histories', 'PrecondReplay', bs, run_precond, send=('f', 'ops'))
    bs = [fix_ops(precond_case(r, r.choice([5, 6, 8, 10, 12]), 12, .4)) for _ in range(chk.n(30, 300))]
    conform(chk, 'many dimensions', 'PrecondReplay', bs, run_precond, send=('f', 'ops'), cfg='PrecondLarge')


def trunc_op(r):
    n = r.choice([0, 1, 2, 3, 4, 6]) if r.random() < .95 else r.choice([20, 70, 140])
    whole = r.random() < .5
    pick = lambda: Fr(r.randint(-6, 6), 1 if whole else r.choice([1, 2, 3, 8]))
    ev = [pick() for _ in range(n)]
    if ev and r.random() < .4:
        ev.append(r.choice(ev))
    pool = ev + [Fr(0), Fr(-2), Fr(3), pick(), Fr(100), Fr(-100), Fr(1, 3)]
    lo, hi = r.choice(pool), r.choice(pool)
    if lo > hi and r.random() < .8:
        lo, hi = hi, lo
    k = r.choice(['', 'lo', 'hi', 'both', 'both', 'both'])
    o = {'op': 'trunc', 'ev': [rj(x) for x in ev], 'lo': rj(lo) if k in ('lo', 'both') else [],
         'hi': rj(hi) if k in ('hi', 'both') else []}
    if r.random() < .08:
        o['lo'] = [-1, 0]
    if r.random() < .08:
        o['hi'] = [1, 0]
    return o, {'explicit': r.random() < .5, 'int': whole and r.random() < .6, 'intlimit': r.random() < .5}


def eig_op(r):
    n = r.choice([1, 2, 3, 3, 4]) if r.random() < .97 else r.choice([6, 9])
    k = r.randint(0, n)
    fn = r.choice(['square', 'inverse', 'negate', 'zero', 'same', 'plus'])
    ev = [r.choice([Fr(1), Fr(2), Fr(-1), Fr(1, 2), Fr(3), Fr(-5, 2)]) for _ in range(n)]
    bad = r.choice([''] * 8 + ['number', 'fewer', 'vecs1d', 'vals2d'])
    if bad == 'fewer' and k == 0 or bad == 'vecs1d' and k == 0:
        bad = ''
    if bad == 'vecs1d' and n == k:
        k = max(1, k)
    return {'op': 'eig', 'q': mj((orthogonal if n < 5 else orthogonal_big)(r, n)), 'k': k, 'ev': [rj(x) for x in ev], 'fn': fn,
            'v': fracs(r, n), 'bad': bad}, {}


def sparse_op(r):
    n = r.choice([1, 2, 3, 4, 5]) if r.random() < .95 else r.choice([8, 12, 20])
    dens = r.choice([.2, .5, .9]) if n < 6 else .1
    l = [[Fr(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if r.random() < dens:
                l[i][j] = r.choice([Fr(1), Fr(-1), Fr(2), Fr(1, 2)])
        l[i][i] = r.choice([Fr(1), Fr(2), Fr(1, 2), Fr(3)])
    perm = list(range(1, n + 1))
    r.shuffle(perm)
    perm2 = list(range(n))
    r.shuffle(perm2)
    return {'op': 'sparse', 'l': mj(l), 'perm': perm, 'v': fracs(r, n)}, \
        {'fmt': r.choice(['csc', 'csc', 'csr', 'coo']), 'perm2': perm2 if r.random() < .7 else None}


def hess_case(r, n=None):
    """Hessian preconditioners only, looked at from all sides."""
    n = n or r.choice([1, 2, 2, 3, 3, 4])
    h = rand_hess(r, n, clip=False)
    points = []
    if r.random() < .3:
        f, points = separable(r, n)
    else:
        f = rand_cubic(r, n, h=mj(hess_matrix(h)))
    ops, opts = [], []
    for t in range(3):
        o = rand_hess(r, n)
        if points:
            o = points[t]
        elif r.random() < .5:
            o = dict(rand_hess(r, n), q=h['q'], s=h['s'], x=f['x0'])
        ops.append(o)
        opts.append({'explicit': r.random() < .5, 'list': r.random() < .2})
        ops += [{'op': 'mats'}] + [{'op': k, 'x': ints(r, n)} for k in ('both', 'unpre', 'pre')]
        ops.append({'op': r.choice(['hessian', 'grad']), 'x': ints(r, n, -1, 1)})
        opts += [{}] * 5
    return {'f': f, 'ops': ops, 'opts': opts}


def c15(chk):
    r = gen.rng_for(chk.seed, 'C15')
    bs = [hess_case(r) for _ in range(chk.n(250, 3000))]
    for b in bs:
        if r.random() < .5:
            with_units(r, b)
    conform(chk, 'Hessian preconditioners', 'PrecondReplay', bs, run_precond, send=('f', 'ops'))
    bs = [hess_case(r, r.choice([5, 6, 8, 10, 12, 15])) for _ in range(chk.n(30, 300))]
    conform(chk, 'many dimensions', 'PrecondReplay', bs, run_precond, send=('f', 'ops'), cfg='PrecondLarge')
    f1 = rand_cubic(r, 1)
    for part, make, count in (('truncation', trunc_op, chk.n(250, 3000)), ('eigenspaces', eig_op, chk.n(200, 3000)),
                              ('sparse Hessians', sparse_op, chk.n(150, 2000))):
        bs = []
        for _ in range(count):
            prs = [make(r) for _ in range(4)]
            bs.append({'f': f1, 'ops': [p[0] for p in prs], 'opts': [p[1] for p in prs]})
        conform(chk, part, 'PrecondReplay', bs, run_precond, send=('f', 'ops'))
