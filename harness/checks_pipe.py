"""C23 (Pipeline.tla): whole chains from a folded parameter to an objective."""
import contextlib
import io
from collections import OrderedDict
from fractions import Fraction as Fr

import autograd
import autograd.numpy as anp
import numpy as np

import gen
from checks_opt import (PrecondRun, Recorder, cubic, hess_matrix, ident, ints, mat, mj, precond_case,
                        rand_cubic, rand_hess, vec)
from common import conform, edges
from gen import rj
from objects import Mismatch, build, close, fr, num
from session import POOL, reused

import paragami

MIDDLE = ('ident', 'matrix', 'funs', 'hess', 'bad')


# ------------------------------------------------ the user's side, in his own terms
def coordinates(p, v):
    """The free coordinates of a folded value, one array per leaf, as a user who knows
    the constraints would compute them."""
    k = p['k']
    if k == 'dict':
        return [z for key, s in zip(p['keys'], p['subs']) for z in coordinates(s, v[key])]
    if k == 'parr':
        return [z for i in np.ndindex(*p['sh']) for z in coordinates(p['base'], v[i])]
    if k == 'num':
        v = anp.reshape(v, (-1,))
        lo = float(fr(p['lo'])) if p['lo'] else None
        hi = float(fr(p['hi'])) if p['hi'] else None
        if lo is None and hi is None:
            return [v]
        if hi is None:
            return [anp.log(v - lo)]
        if lo is None:
            return [-anp.log(hi - v)]
        return [anp.log(v - lo) - anp.log(hi - v)]
    if k == 'sim':
        q = anp.log(v)
        return [anp.reshape(q[..., 1:] - q[..., :1], (-1,))]
    l = anp.linalg.cholesky(v - num(p['lb']) * np.eye(p['n']))
    return [anp.log(l[i:i + 1, i]) if i == j else l[i:i + 1, j]
            for i in range(p['n']) for j in range(i + 1)]


def read(p, v):
    return anp.concatenate(coordinates(p, v))


def fill(p, z):
    """The folded value with the free coordinates z (an iterator of floats)."""
    k = p['k']
    if k == 'dict':
        return OrderedDict((key, fill(s, z)) for key, s in zip(p['keys'], p['subs']))
    if k == 'parr':
        return np.array([fill(p['base'], z) for _ in np.ndindex(*p['sh'])]).reshape(gen.shape(p))
    if k == 'num':
        x = np.array([next(z) for _ in range(gen.prod(p['sh']))])
        lo = float(fr(p['lo'])) if p['lo'] else None
        hi = float(fr(p['hi'])) if p['hi'] else None
        if lo is not None and hi is not None:
            x = lo + (hi - lo) / (1 + np.exp(-x))
        elif lo is not None:
            x = lo + np.exp(x)
        elif hi is not None:
            x = hi - np.exp(-x)
        return x.reshape(p['sh'])
    if k == 'sim':
        out = []
        for _ in range(gen.prod(p['sh'])):
            e = np.exp([0.0] + [next(z) for _ in range(p['n'] - 1)])
            out.append(e / e.sum())
        return np.array(out).reshape(gen.shape(p))
    l = np.zeros((p['n'], p['n']))
    for i in range(p['n']):
        for j in range(i + 1):
            l[i, j] = np.exp(next(z)) if i == j else next(z)
    return l @ l.T + num(p['lb']) * np.eye(p['n'])


class PipeRun:
    def __init__(self, b):
        opt = b['opt']
        self.p = p = b['p']
        self.pattern = build(p)
        inner = cubic(b['f'])
        self.seen = []

        def original(folded):
            return inner(read(p, folded))
        if opt['where'] == 0:
            self.flat = paragami.FlattenFunctionInput(original, patterns=self.pattern, free=opt['free'])
            end = self.flat
        else:
            # the parameter is one of several arguments
            self.flat = paragami.FlattenFunctionInput(
                lambda *args, **kw: args[0] * original(args[opt['where']]) + kw['plus'],
                patterns=[self.pattern], free=opt['free'], argnums=[opt['where']])
            rest = (0.0,) * (opt['where'] - 1)
            end = lambda x: self.flat(2.0, *rest, x, plus=3.0) / 2.0 - 1.5
        self.mid = PrecondRun.__new__(PrecondRun)
        self.mid.f, self.mid.c, self.mid.d, self.mid.n = b['f'], 1.0, 1.0, len(b['f']['l'])
        self.mid.pf = paragami.PreconditionedFunction(end)
        self.custom = opt['custom']
        cls = Recorder if self.custom else paragami.OptimizationObjective
        self.obj = cls(self.mid.pf, print_every=b['pe'], log_every=b['le'])
        self.solve = paragami.FoldFunctionOutput(
            self.mid.pf.unprecondition, patterns=self.pattern, free=opt['free'], retnums=0)
        self.begin = paragami.FlattenFunctionInput(
            lambda v: v, patterns=self.pattern, free=opt['free'])

    def step(self, o, opt, out, tol=1e-7):
        op, obj, pf = o['op'], self.obj, self.mid.pf
        if op in MIDDLE or op in ('call', 'unpre', 'pre', 'both', 'mats'):
            o2 = dict(o)
            if op == 'call':
                close(pf(reused(vec(o['x']))), num(out['x']), tol, 'the preconditioned function')
                return
            self.mid.step(o2, opt, out)
            return
        for a in ('printed', 'logged'):
            obj.__dict__.pop(a, None)
        x = reused(vec(o['x'])) if 'x' in o else None
        keep = None if x is None else x.copy()
        text = io.StringIO()
        got = None
        with contextlib.redirect_stdout(text):
            if op == 'f':
                got = obj.f(x)
            elif op == 'grad':
                got = obj.grad(x)
            elif op == 'hessian':
                got = obj.hessian(x)
            elif op == 'hvp':
                got = obj.hessian_vector_product(x, vec(o['v']))
            elif op == 'setp':
                obj.set_print_every(o['n'])
            elif op == 'setl':
                obj.set_log_every(o['n'])
            elif op == 'reset':
                obj.reset()
        lines = [s for s in text.getvalue().split('\n') if s.strip()]
        if op == 'f':
            close(got, num(out['x']), tol, 'the objective')
            if self.custom:
                for name in ('printed', 'logged'):
                    if len(obj.__dict__.get(name, [])) != int(out[name]):
                        raise Mismatch('evaluation %d was %s %d times' % (
                            out['n'], name, len(obj.__dict__.get(name, []))))
            elif len(lines) != int(out['printed']):
                raise Mismatch('evaluation %d printed %r' % (out['n'], lines))
        elif lines:
            raise Mismatch('%s printed %r' % (op, lines))
        if op == 'grad':
            close(got, vec(out['x']), tol * 10, 'the gradient of the chain')
        elif op == 'hessian':
            close(got, mat(out['x']), tol * 100, 'the Hessian of the chain')
        elif op == 'hvp':
            close(got, vec(out['x']), tol * 100, 'the Hessian-vector product of the chain')
        elif op == 'solution':
            v = self.pattern.fold(pf.unprecondition(x), free=True) if opt.get('direct') else self.solve(x)
            if not self.pattern.validate_folded(v)[0]:
                raise Mismatch('the solution is no value of the pattern: %r' % (v,))
            close(read(self.p, v), vec(out['x']), tol, 'the solution')
        elif op == 'start':
            v = fill(self.p, iter(x.tolist()))
            z = self.pattern.flatten(v, free=True)
            close(z, x, tol, 'the free vector of the start')
            close(pf.precondition(z), vec(out['x']), tol, 'the start')
        elif op == 'look':
            if obj.num_iterations() != out['x']['count']:
                raise Mismatch('num_iterations() is %r, expected %d' % (obj.num_iterations(), out['x']['count']))
            log = obj.optimization_log
            if len(log) != len(out['x']['log']):
                raise Mismatch('the log has %d entries, expected %d' % (len(log), len(out['x']['log'])))
            for e, w in zip(log, out['x']['log']):
                if e[0] != w['n']:
                    raise Mismatch('a log entry is of iteration %r, expected %d' % (e[0], w['n']))
                close(e[1], vec(w['x']), 0.0, 'the argument in the log')
                close(e[2], num(w['v']), tol, 'the value in the log')
        if x is not None and not np.array_equal(x, keep):
            raise Mismatch('%s changed its argument' % op)


def run_pipe(b, outs):
    POOL.clear()
    run = PipeRun(b)
    for i, (o, opt, rec) in enumerate(zip(b['ops'], b['opts'], outs)):
        try:
            run.step(o, opt, rec['out'])
        except Mismatch as e:
            done = [x for x in b['ops'][:i] if x['op'] in MIDDLE]
            raise Mismatch('%s: after %s, %s with %s: %s' % (run.pattern, done, o, opt, e))
        except Exception as e:
            raise Mismatch('%s: %s with %s: unexpected %s: %s' % (run.pattern, o, opt, type(e).__name__, e))


# ------------------------------------------------------------ inputs
def pattern(r, sizes):
    while True:
        p = gen.rand_tree(r, depth=r.choice([0, 1, 1, 2, 2]), maxlen=16, psdmax=2)
        if gen.length(p, True) in sizes and all(gen.length(l, False) for l in gen.leaves(p)):
            return gen.set_defaults(r, p)


def small(r, n, psd):
    """Free coordinates other than zero, where C19 looks."""
    return [rj(Fr(r.choice([1, -1, 2, -2] if psd else [1, -1, 2, -2, 3, -3, 4, -4]), 2)) for _ in range(n)]


def tame(o, psd):
    """Only preconditioners that keep the free coordinates small: the user's way from
    a matrix back to its coordinates is badly conditioned for large ones (the small
    diagonal entries of the factor drown in the others), that from a number less so."""
    if o['op'] in ('matrix', 'funs'):
        return max(sum(abs(Fr(*x)) for x in row) for row in o['a']) <= (3 if psd else 5)
    if o['op'] == 'hess':
        c = [Fr(*x) for x in o['s']]
        lo = Fr(*o['lo']) if o['lo'] and o['lo'][1] else None
        hi = Fr(*o['hi']) if o['hi'] and o['hi'][1] else None
        if o['lo'] == [1, 0] or o['hi'] == [-1, 0]:
            return False
        c = [x if lo is None else max(x, lo) for x in c]
        c = [x if hi is None else min(x, hi) for x in c]
        # (the Hessian at a point is that of the chain, in floating point)
        return min(c) >= (1 if psd else Fr(1, 2)) and (
            not o['x'] or all(0 < abs(Fr(*t)) <= (2 if psd else 4) for t in o['x']))
    return True


def pipe_case(r, count, sizes=(1, 2, 3, 3, 4)):
    p = pattern(r, sizes)
    n = gen.length(p, True)
    psd = any(l['k'] == 'psd' for l in gen.leaves(p))
    base = precond_case(r, n, 3 * count, settings=.45)
    ops, opts = [], []
    for o, opt in zip(base['ops'], base['opts']):
        if o['op'] == 'check' or not tame(o, psd):
            continue
        if 'x' in o and o['op'] not in MIDDLE:
            o['x'] = small(r, n, psd)
        ops.append(o)
        opts.append(opt)
        for _ in range(r.choice([0, 1, 2, 3])):
            k = r.choice(['f', 'f', 'f', 'grad', 'hessian', 'hvp', 'solution', 'solution', 'start', 'setp', 'setl',
                          'reset', 'look'])
            q = {'op': k}
            if k in ('f', 'grad', 'hessian', 'hvp', 'solution', 'start'):
                q['x'] = small(r, n, psd)
            if k == 'hvp':
                q['v'] = ints(r, n)
            if k in ('setp', 'setl'):
                q['n'] = r.choice([0, 1, 1, 2, 3])
            ops.append(q)
            opts.append({'direct': r.random() < .5})
    ops, opts = ops[:count] + [{'op': 'look'}], opts[:count] + [{}]
    f = dict(base['f'])
    f['x0'] = [x if abs(Fr(*x)) <= 3 else [1, 1] for x in f['x0']] if not any(
        o['op'] == 'hess' and o['x'] for o in ops) else f['x0']
    if r.random() < .3 and not any(o['op'] == 'hess' and o['x'] and o['x'] != f['x0'] for o in ops):
        # a quadratic function: one step solves it (see NewtonStep)
        f['c'] = [[[0, 1]] * n for _ in range(n)]
        ops, opts = newton(r, n, psd, f, ops, opts)
    return {'f': f, 'p': p, 'ops': ops, 'opts': opts, 'pe': r.choice([0, 1, 2]), 'le': r.choice([0, 1, 1, 2]),
            'opt': {'where': r.choice([0, 0, 1, 2]), 'custom': r.random() < .4,
                    'free': None if p['fd'] == 'T' and r.random() < .7 else True}}


def newton(r, n, psd, f, ops, opts):
    """Let some Hessian settings that belong to f be unclipped, and gradients follow."""
    out, outs = [], []
    for o, opt in zip(ops, opts):
        if o['op'] == 'hess' and o['x'] == f['x0']:
            o = dict(o, lo=[], hi=[])
            if not tame(o, psd):
                continue
            out += [o, {'op': 'grad', 'x': small(r, n, psd)}]
            outs += [opt, {}]
        else:
            out.append(o)
            outs.append(opt)
    return out, outs


def c23(chk):
    r = gen.rng_for(chk.seed, 'C23')
    q = lambda **kw: kw
    while True:
        p = pattern(r, (2,))
        if p['k'] == 'dict' and len(p['subs']) == 2:
            break
    hp = rand_hess(r, 2, clip=False)
    f = rand_cubic(r, 2, h=mj(hess_matrix(hp)), x0=[[1, 1], [-1, 2]])
    hp['x'] = f['x0']
    a, x = [[Fr(1), Fr(1, 2)], [Fr(0), Fr(-1)]], [[5, 8], [-3, 4]]
    ops = [q(op='matrix', a=mj(a), inv=[]), hp, q(op='ident'), q(op='bad', what='neither'), q(op='f', x=x),
           q(op='f', x=[[3, 8], [7, 8]]), q(op='grad', x=x), q(op='hessian', x=x), q(op='solution', x=x),
           q(op='start', x=x), q(op='setl', n=0), q(op='setl', n=1), q(op='setp', n=2), q(op='reset'), q(op='look')]
    edges(chk, 'every history', 'PipelineMC',
          {'f': f, 'p': p, 'pe': 1, 'le': 1, 'ops': ops, 'maxc': chk.n(1, 2),
           'opt': {'where': 1, 'custom': False, 'free': True}},
          run_pipe, r, ('f', 'pe', 'le', 'ops', 'maxc'),
          lambda s: s[0] == s[1] == mj(ident(2)) and s[2] == 0 and s[3] == [] and s[4:] == [1, 1],
          suffix=lambda o: o['op'] in ('look', 'grad'), limit=chk.n(6000, None))
    bs = [pipe_case(r, chk.n(24, 40)) for _ in range(chk.n(240, 2400))]
    conform(chk, 'random chains', 'PipelineReplay', bs, run_pipe, send=('f', 'pe', 'le', 'ops'))
