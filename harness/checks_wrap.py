"""C11, C12: function wrappers (Wrap.tla)."""
import collections
import functools
import queue
import threading

import numpy as np

import gen
import tlc
from common import conform, pmap
from objects import FREE, Mismatch, build, close, dense, flat, num, same_value, value
from session import POOL, dress, flat_expected, listy

import paragami


class Thing:
    """Something the wrappers must pass through untouched."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Thing(%d)' % self.n

    def __eq__(self, other):
        raise AssertionError('compared')

    __hash__ = None

    def __array__(self, *a, **k):
        raise AssertionError('converted to an array')

    def __copy__(self):
        raise AssertionError('copied')

    def __deepcopy__(self, memo):
        raise AssertionError('copied')


def thing(i, how):
    """The object for an undesignated value of identity i."""
    pool = [lambda: Thing(i), lambda: np.arange(3.0) + i, lambda: None, lambda: 'text%d' % i,
            lambda: [i, [i]], lambda: {'k': i}, lambda: (i, i + 1), lambda: float(i), lambda: np.array(2.0 * i)]
    return pool[(i + how) % len(pool)]()


class Holder:
    """A callable without a __name__."""
    def __init__(self, f):
        self.f = f

    def __call__(self, *args, **kwargs):
        return self.f(*args, **kwargs)

    def method(self, *args, **kwargs):
        return self.f(*args, **kwargs)


ABSENT = object()


def given(xs):
    return tuple(x for x in xs if x is not ABSENT)


def callables(f, how):
    """f with different signatures (not all of which mention all arguments)."""
    def some(first=ABSENT, second=ABSENT, *rest, **kwargs):
        return f(*given((first, second)), *rest, **kwargs)

    def one(first=ABSENT, *rest, kw=ABSENT, x=ABSENT, **kwargs):
        return f(*given((first, )), *rest, **{k: v for k, v in (('kw', kw), ('x', x)) if v is not ABSENT}, **kwargs)

    @functools.wraps(one)
    def wrapped(*args, **kwargs):
        return f(*args, **kwargs)

    class Static:
        @staticmethod
        def static(*args, **kwargs):
            return f(*args, **kwargs)
    many = eval('lambda %s, **kwargs: f(*given((%s, )), **kwargs)' % (
        ', '.join('_%d=ABSENT' % i for i in range(20)), ', '.join('_%d' % i for i in range(20))),
        {'f': f, 'given': given, 'ABSENT': ABSENT})
    return [f, Holder(f), Holder(f).method, functools.partial(f), some, one, wrapped, many, Static().static,
            lambda *args, **kwargs: f(*args, **kwargs)][how % 10]


class Side:
    """The constructor arguments of one side, in the requested form."""
    def __init__(self, s, pats, opt):
        form = opt.get('form', 0)
        n = len(pats)
        self.on = s['on']
        self.to_folded = s['dir'] == 'fold'
        p = list(pats)
        if s.get('pnd', 1) == 2:
            p = [p]
        elif n == 1 and form % 2:
            p = p[0]
        elif form % 3 == 1:
            q = np.empty(n, dtype=object)
            for i, x in enumerate(p):
                q[i] = x
            p = q
        elif form % 3 == 2:
            p = tuple(p)
        self.pats = p
        nums = list(s['nums'])
        if not s['given']:
            self.nums = None
        elif s.get('nnd', 1) == 2:
            self.nums = [nums]
        elif len(nums) == 1 and form % 4 in (1, 2):
            self.nums = nums[0]
        else:
            self.nums = [nums, np.array(nums), tuple(nums)][form % 3]
        fr = [FREE[f] for f in s['free']]
        if s['fk'] == 'one':
            fr = fr[0]
            if fr is not None and form % 5 == 1:
                fr = np.bool_(fr)
        elif s['fk'] == 'grid':
            fr = [fr]
        elif form % 3 == 1 and None not in fr:
            fr = np.array(fr)
        elif form % 3 == 2:
            fr = tuple(fr)
        self.free = fr
        self.kept = [frozen(x) for x in (self.pats, self.nums, self.free)]

    def changed(self):
        for what, x, y in zip(('patterns', 'positions', 'free'), (self.pats, self.nums, self.free), self.kept):
            if frozen(x) != y:
                return 'the %s given became %r' % (what, x)
        return None


def frozen(x):
    """What x holds, with patterns by identity."""
    if isinstance(x, (list, tuple, np.ndarray)):
        return (type(x), np.shape(x) if isinstance(x, np.ndarray) else len(x), [frozen(y) for y in x])
    if isinstance(x, paragami.base_patterns.Pattern):
        return id(x)
    return (type(x), x)


def make(f, ins, outs, opt):
    """The wrapper of f; the available classes are used in turn."""
    how = opt.get('cls', 0)
    if ins.on and outs.on and ins.to_folded != outs.to_folded and how % 3 == 0:
        # each class converts its inputs one way and its outputs the other
        c = paragami.FlattenFunctionInputAndOutput if ins.to_folded else \
            paragami.FoldFunctionInputAndOutput
        kw = {} if outs.nums is None and how % 2 else {'output_retnums': outs.nums}
        return c(original_fun=f, input_patterns=ins.pats, input_free=ins.free,
                 input_argnums=ins.nums, output_patterns=outs.pats, output_free=outs.free, **kw)

    def wrap_in(g):
        kw = {} if ins.nums is None and how % 2 else {'argnums': ins.nums}
        if how % 2:
            return paragami.TransformFunctionInput(g, ins.pats, ins.free, not ins.to_folded, **kw)
        c = paragami.FlattenFunctionInput if ins.to_folded else paragami.FoldFunctionInput
        return c(g, ins.pats, ins.free, **kw)

    def wrap_out(g):
        kw = {} if outs.nums is None and how % 2 else {'retnums': outs.nums}
        if how % 2:
            return paragami.TransformFunctionOutput(
                original_fun=g, patterns=outs.pats, free=outs.free,
                original_is_flat=outs.to_folded, **kw)
        c = paragami.FoldFunctionOutput if outs.to_folded else paragami.FlattenFunctionOutput
        return c(original_fun=g, patterns=outs.pats, free=outs.free, **kw)

    steps = ([wrap_in] if ins.on else []) + ([wrap_out] if outs.on else [])
    if how % 4 >= 2:
        steps.reverse()
    for s in steps:
        f = s(f)
    return f


def real(x, opt, slot=()):
    """(object, token?) for a value of the specification."""
    if x['t'] == 'v':
        return dress(value(x['v']), opt.get('how', ''), slot)
    if x['t'] == 'x':
        return dress(flat(x['v']), opt.get('how', ''), slot)
    return thing(x['v'], opt.get('things', 0))


def compare(got, want, tokens, what):
    if want['t'] == 'o':
        if got is not tokens[want['v']]:
            raise Mismatch('%s is %r, expected the very object %r' % (what, got, tokens[want['v']]))
    elif want['t'] == 'v':
        same_value(got, want['v'], 1e-10, what)
    else:
        close(got, flat_expected(want['v']['a']), 1e-10, what)


def check_call(fun, box, c, out, opt):
    """One call of a wrapped function.  box: the original's mailbox."""
    tokens = {}
    args, rets = [], []
    for src, dst in ((c['args'], args), (c['rets'], rets)):
        for x in src:
            o = real(x, opt, (src is c['args'], len(dst)))
            if x['t'] == 'o':
                o = tokens.setdefault(x['v'], o)
            dst.append(o)
    kwargs = {k: Thing(i) for i, k in enumerate(opt.get('kw', []))}
    if not c['tuple'] and isinstance(rets[0], tuple):
        # an undesignated single value must not be a tuple
        rets[0] = tokens[c['rets'][0]['v']] = list(rets[0])
    ret = rets[0]
    if c['tuple']:
        ret = tuple(rets)
        if opt.get('named'):
            # a tuple with names is a tuple
            ret = collections.namedtuple('Named', ['m%d' % i for i in range(len(rets))])(*rets)
    box['ret'] = ret
    box['calls'] = []
    try:
        got = fun(*args, **kwargs)
        st = 'ok'
    except ValueError:
        st, got = 'ValueError', None
    if st != out['st']:
        raise Mismatch('call gave %s (%r), expected %s' % (st, got, out['st']))
    if len(box['calls']) != len(out['seen']):
        raise Mismatch('the original was called %d times, expected %d' % (
            len(box['calls']), len(out['seen'])))
    for (a, k), want in zip(box['calls'], out['seen']):
        if len(a) != len(want):
            raise Mismatch('the original got %d arguments, expected %d' % (len(a), len(want)))
        for i, (x, y) in enumerate(zip(a, want)):
            compare(x, y, tokens, 'argument %d' % i)
        if set(k) != set(kwargs) or any(k[n] is not kwargs[n] for n in kwargs):
            raise Mismatch('keyword arguments %r became %r' % (kwargs, k))
    if st != 'ok':
        return
    if not c['tuple']:
        compare(got, out['x'][0], tokens, 'return value')
        return
    if opt.get('plain_result') and got is not ret:
        raise Mismatch('the result is not the result of the original')
    if not isinstance(got, tuple) or len(got) != len(out['x']):
        raise Mismatch('returned %r, expected a tuple of %d' % (got, len(out['x'])))
    for i, (x, y) in enumerate(zip(got, out['x'])):
        compare(x, y, tokens, 'return value %d' % i)


def original(box):
    def f(*args, **kwargs):
        box['calls'].append((args, kwargs))
        return box['ret']
    return f


def construct(w, pats_in, pats_out, opt, st):
    box = {}
    try:
        fun = make(callables(original(box), opt.get('callable', 0)), Side(w['ins'], pats_in, opt),
                   Side(w['outs'], pats_out, dict(opt, form=opt.get('form', 0) + 1)), opt)
        got = 'ok'
    except ValueError:
        fun, got = None, 'ValueError'
    if got != st:
        raise Mismatch('construction gave %s, expected %s' % (got, st))
    return fun, box


def run_wrap(b, outs):
    POOL.clear()
    opt = dict(b['opt'], plain_result=not b['w']['outs']['on'])
    fun, box = construct(b['w'], [build(p) for p in b['w']['ins']['pats']],
                         [build(p) for p in b['w']['outs']['pats']], opt, outs[0]['out']['st'])
    for i, (c, rec) in enumerate(zip(b['ops'][1:], outs[1:])):
        try:
            check_call(fun, box, c, rec['out'], opt)
        except Mismatch as e:
            raise Mismatch('wrapper %s with %s, call %d: %s' % (short(b['w']), opt, i, e))


def run_intact(b, outs):
    """What is given to wrappers stays as it was (C21); results are not looked at."""
    POOL.clear()
    opt, box, w = b['opt'], {}, b['w']
    sides = [Side(w['ins'], [build(p) for p in w['ins']['pats']], opt),
             Side(w['outs'], [build(p) for p in w['outs']['pats']], dict(opt, form=opt['form'] + 1))]
    try:
        fun = make(callables(original(box), opt['callable']), sides[0], sides[1], opt)
    except ValueError:
        fun = None
    for c, rec in zip(b['ops'][1:] if fun is not None else [], outs[1:]):
        objs = [[real(x, dict(opt, how='', things=1)) for x in c[k]] for k in ('args', 'rets')]
        before = [detach(o) for o in objs]
        box['ret'] = tuple(objs[1]) if c['tuple'] else objs[1][0]
        box['calls'] = []
        try:
            fun(*objs[0])
        except ValueError:
            pass
        for k, xs, ys in zip(('argument', 'return value'), objs, before):
            for i, (x, y) in enumerate(zip(xs, ys)):
                if not equal(x, y):
                    raise Mismatch('%s %d became %r, was %r (wrapper %s with %s)' % (k, i, x, y, short(w), opt))
    for s in sides:
        if s.on and s.changed():
            raise Mismatch('%s (wrapper %s with %s)' % (s.changed(), short(w), opt))


def detach(x):
    if isinstance(x, dict):
        return type(x)((k, detach(v)) for k, v in x.items())
    if isinstance(x, list):
        return [detach(y) for y in x]
    return np.copy(x) if isinstance(x, np.ndarray) else x


def equal(x, y):
    if isinstance(x, dict):
        return isinstance(y, dict) and list(x) == list(y) and all(equal(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(equal(a, b) for a, b in zip(x, y))
    if isinstance(x, np.ndarray):
        return isinstance(y, np.ndarray) and x.dtype == y.dtype and x.shape == y.shape \
            and bool(np.all((x == y) | (x != x) & (y != y)))
    return x is y or not isinstance(x, Thing) and x == y


def short(w):
    return {s: {k: v for k, v in w[s].items() if k != 'pats'} for s in w if w[s]['on']}


def run_records(req, records):
    """Records of WrapMC."""
    pats = [build(p) for p in req['pats']]
    for i, r in records:
        w = r['w']
        opt = {'form': i, 'cls': i // 2, 'callable': i, 'things': i, 'named': i % 5 == 1, 'kw': ['kw', 'x'][:i % 3],
               'how': ['', 'strided', 'readonly', 'reused'][i % 4], 'plain_result': not w['outs']['on']}
        first = not r['call']['args']
        try:
            fun, box = construct(w, pats[:w['ins']['n']], pats[:w['outs']['n']], opt,
                                 r['out']['st'] if first else 'ok')
            if not first:
                check_call(fun, box, r['call'], r['out'], opt)
        except Mismatch as e:
            raise Mismatch('wrapper %s with %s, call %s: %s' % (w, opt, r['call'], e))


def exhaust(chk, part, req, limit=None, rng=None):
    res = tlc.run('WrapMC', req=req)
    if res.error is not None:
        raise tlc.TLCError('TLC failed on WrapMC:\n' + res.error)
    chk.add_tlc({'states': res.distinct, 'transitions': res.states}, part)
    recs = list(enumerate(res.records))
    if limit and len(recs) > limit:
        recs = rng.sample(recs, limit)
    else:
        chk.exhaustive[part] = True
    parts = [recs[i::16] for i in range(16)]
    for p, r in zip(parts, pmap(run_records, [req] * 16, parts, force=True)):
        chk.validated(part, len(p))
        if r is not None:
            chk.violation('%s: %s' % (part, r), {'module': 'WrapMC', 'req': req})


def fixed(r):
    """Three patterns whose values all have four numbers, and values of them."""
    pats = [{'k': 'num', 'cls': 'arr', 'sh': [2, 2], 'lo': [-1, 1], 'hi': [], 'dv': True, 'fd': 'F'},
            {'k': 'psd', 'n': 2, 'lb': [0, 1], 'dv': True, 'fd': 'N'},
            {'k': 'dict', 'keys': ['m', 'a'], 'fd': 'T', 'subs': [
                {'k': 'sim', 'n': 2, 'sh': [1], 'dv': True, 'fd': 'N'},
                {'k': 'num', 'cls': 'vec', 'sh': [2], 'lo': [0, 1], 'hi': [2, 1], 'dv': True, 'fd': 'N'}]}]
    return pats, [gen.rand_value(r, p) for p in pats]


OFF = {'on': False, 'dir': 'fold', 'pats': [], 'pnd': 1, 'given': True, 'nums': [], 'nnd': 1,
       'free': ['T'], 'fk': 'one'}


def rand_side(r, arity, fault):
    n = r.choice([1, 1, 2, 2, 3, 4])
    if arity > 9:
        n = r.choice([1, 2, 4, 8, 12])
    n = min(n, arity)
    pats = []
    for _ in range(n):
        if pats and r.random() < .3:
            pats.append(r.choice(pats))      # the same pattern twice
            continue
        p = gen.rand_tree(r, r.choice([0, 0, 1, 2]), maxlen=8, psdmax=2)
        p['fd'] = r.choice('NTF')
        pats.append(p)
    s = {'on': True, 'dir': r.choice(['fold', 'flatten']), 'pats': pats, 'pnd': 1, 'given': True,
         'nums': r.sample(range(arity), n), 'nnd': 1}
    if r.random() < .15:
        s['given'] = False
        s['nums'] = []
    flags = 'TTTFFFN'
    s['fk'] = r.choice(['one', 'list', 'list'])
    s['free'] = [r.choice(flags) for _ in range(n if s['fk'] == 'list' and r.random() < .9 else 1)]
    if fault == 'dup' and n > 1 and s['given']:
        s['nums'][-1] = s['nums'][0]
    elif fault == 'number' and s['given']:
        s['nums'] = r.choice([s['nums'] + [arity], s['nums'][1:]])
    elif fault == 'pnd':
        s['pnd'] = 2
    elif fault == 'nnd':
        s['nnd'] = 2
    elif fault == 'free':
        s['fk'] = 'list'
        s['free'] = [r.choice('TF') for _ in range(n + r.choice([1, 2]))]
    elif fault == 'grid':
        s['fk'] = 'grid'
    return s


def misshape(v):
    if 'ks' in v:
        return {'ks': v['ks'], 'vs': [misshape(s) for s in v['vs']]}
    return {'sh': [1, 7], 'a': [[1, 1]] * 7}


def numbers(s):
    return s['nums'] if s['given'] else list(range(len(s['pats'])))


def feed(r, s, n, base, spoil):
    vals = []
    for j in range(n):
        if s['on'] and j in numbers(s):
            i = numbers(s).index(j)
            p = s['pats'][i]
            f = s['free'][0] if len(s['free']) == 1 else s['free'][i]
            f = p['fd'] if f == 'N' else f
            xs = gen.rand_free(r, p)
            raw = [gen.rj(x) for x in gen.fold(p, xs)]
            if s['dir'] == 'flatten':
                v = gen.scramble(r, gen.unflatten(p, raw))
                if spoil and r.random() < .3:
                    v = misshape(v)
                vals.append({'t': 'v', 'v': v})
            else:
                a = gen.free_json(xs) if f == 'T' else raw
                if spoil and r.random() < .3:
                    a = a + a[:1] if a else [[1, 1]]
                vals.append({'t': 'x', 'v': {'sh': [len(a)], 'a': a}})
        else:
            vals.append({'t': 'o', 'v': base + j})
    return vals


def behaviours(r, count, sides):
    bs = []
    for _ in range(count):
        arity, nret = r.randint(1, 6), r.randint(1, 5)
        if r.random() < .06:
            arity, nret = r.randint(10, 15), r.randint(10, 15)
        fault = r.choice([''] * 12 + ['dup', 'number', 'pnd', 'nnd', 'free', 'grid'])
        which = r.choice(sides)
        ins = rand_side(r, arity, fault if which == 'in' else '') if which in ('in', 'both') else OFF
        outs = rand_side(r, nret, fault if which != 'in' else '') if which in ('out', 'both') else OFF
        if which == 'both' and r.random() < .5:
            outs['dir'] = 'fold' if ins['dir'] == 'flatten' else 'flatten'
        w = {'ins': ins, 'outs': outs}
        ops = [{'op': 'new'}]
        if fault == '' or good(w):
            for _ in range(r.randint(1, 3)):
                spoil = r.random() < .2
                a = feed(r, ins, max([arity] + [n + 1 for n in (numbers(ins) if ins['on'] else [])]), 0, spoil)
                m = r.choice([nret, nret, r.randint(1, nret)])
                tup = r.random() < .8
                ops.append({'op': 'call', 'args': a, 'rets': feed(r, outs, m if tup else 1, 100, spoil),
                            'tuple': tup})
        bs.append({'w': w, 'ops': ops,
                   'opt': {'form': r.randrange(60), 'cls': r.randrange(12), 'callable': r.randrange(10),
                           'things': r.randrange(9), 'named': r.random() < .3, 'kw': r.sample(['a', 'free', 'patterns', 'args', 'x'],
                                                                    r.randint(0, 3)),
                           'how': r.choice(['', 'reused', 'reused', 'strided', 'fortran', 'readonly'])}})
    return bs


def good(w):
    for s in (w['ins'], w['outs']):
        if s['on']:
            q = numbers(s)
            if s['pnd'] != 1 or s['given'] and s['nnd'] != 1 or len(q) != len(s['pats']) \
                    or len(set(q)) != len(q) or s['fk'] == 'grid' \
                    or s['fk'] == 'list' and len(s['free']) not in (1, len(s['pats'])):
                return False
    return True


def run_stack(b, outs):
    """A stack of wrappers, outermost first."""
    POOL.clear()
    ws, opt = b['ws'], b['opt']
    objs = {}

    def pats(s):
        for p in s['pats']:
            if opt['copies'] or id(p) not in objs:
                objs[id(p)] = build(p)
            yield objs[id(p)]
    box = {}
    fun = callables(original(box), opt['callable'])
    for i in reversed(range(len(ws))):
        o = dict(opt, cls=opt['cls'][i], form=opt['form'][i])
        fun = make(fun, Side(ws[i]['ins'], list(pats(ws[i]['ins'])), o),
                   Side(ws[i]['outs'], list(pats(ws[i]['outs'])), dict(o, form=o['form'] + 1)), o)
    if outs[0]['out']['st'] != 'ok':
        raise Mismatch('the generator made an ill-formed stack')
    for i, (c, rec) in enumerate(zip(b['ops'][1:], outs[1:])):
        try:
            check_call(fun, box, c, rec['out'], opt)
        except Mismatch as e:
            raise Mismatch('stack %s with %s, call %d: %s' % ([short(w) for w in ws], opt, i, e))


def stack_sides(r, n, levels):
    """Sides that values pass in turn, and what the values start as."""
    pats = []
    for _ in range(n):
        p = gen.rand_tree(r, r.choice([0, 0, 1, 2]), maxlen=8, psdmax=2)
        p['fd'] = r.choice('NTF')
        pats.append(r.choice(pats) if pats and r.random() < .25 else p)
    start, now = [None] * n, [None] * n          # 'v', 'T', 'F' (flat, by which flag)
    sides, prev = [], None
    for _ in range(levels):
        d = r.choice(['fold', 'flatten'])
        js = list(range(n))
        if prev and r.random() < .6:
            d = 'flatten' if prev[0] == 'fold' else 'fold'
            js = prev[1] if r.random() < .8 else js
        fit = [j for j in js if now[j] is None or (now[j] == 'v') == (d == 'flatten')]
        if not (prev and fit == prev[1] and r.random() < .8):
            fit = r.sample(fit, r.randint(0, len(fit)))
        if not fit:
            sides.append(OFF)
            prev = None
            continue
        if r.random() < .7:
            fit = sorted(fit)
        flags = []
        for j in fit:
            f = r.choice('TF')
            if d == 'fold' and now[j] is not None:
                f = now[j]
            if start[j] is None:
                start[j] = f if d == 'fold' else 'v'
            now[j] = 'v' if d == 'fold' else f
            if pats[j]['fd'] == f and r.random() < .3:
                f = 'N'
            flags.append(f)
        s = dict(OFF, on=True, dir=d, pats=[pats[j] for j in fit], nums=list(fit), free=flags, fk='list')
        if len(set(flags)) == 1 and r.random() < .5:
            s['free'], s['fk'] = flags[:1], r.choice(['one', 'list'])
        if fit == list(range(len(fit))) and r.random() < .5:
            s['given'], s['nums'] = False, []
        sides.append(s)
        prev = (d, fit)
    return sides, pats, start


def stack_values(r, pats, start, base):
    vals = []
    for j, (p, k) in enumerate(zip(pats, start)):
        xs = gen.rand_free(r, p)
        raw = [gen.rj(x) for x in gen.fold(p, xs)]
        if k is None:
            vals.append({'t': 'o', 'v': base + j})
        elif k == 'v':
            vals.append({'t': 'v', 'v': gen.scramble(r, gen.unflatten(p, raw))})
        else:
            a = gen.free_json(xs) if k == 'T' else raw
            vals.append({'t': 'x', 'v': {'sh': [len(a)], 'a': a}})
    return vals


def stacks(r, count, sides):
    bs = []
    for _ in range(count):
        levels = r.choice([2, 2, 3])
        which = r.choice(sides)
        arity, nret = r.randint(1, 4), r.randint(1, 4)
        ins, ip, istart = stack_sides(r, arity, levels if which != 'out' else 0)
        outs, op, ostart = stack_sides(r, nret, levels if which != 'in' else 0)
        ins = ins or [OFF] * levels
        outs = (outs or [OFF] * levels)[::-1]
        ops = [{'args': stack_values(r, ip, istart, 0), 'rets': stack_values(r, op, ostart, 100),
                'tuple': True} for _ in range(r.randint(1, 2))]
        if nret == 1 and r.random() < .3:
            for o in ops:
                o['tuple'] = False
        bs.append({'ws': [{'ins': i, 'outs': o} for i, o in zip(ins, outs)], 'ops': [{'op': 'new'}] + ops,
                   'opt': {'form': [r.randrange(60) for _ in range(levels)], 'callable': r.randrange(10),
                           'cls': [r.randrange(12) for _ in range(levels)], 'things': r.randrange(9),
                           'copies': r.random() < .2, 'named': r.random() < .3,
                           'kw': r.sample(['a', 'free', 'patterns', 'args', 'x'], r.randint(0, 3)),
                           'how': r.choice(['', '', 'reused', 'strided', 'readonly'])}})
    return bs


# What an original may raise.
RAISED = [RuntimeError, ValueError, TypeError, IndexError, KeyError, AttributeError, AssertionError, StopIteration,
          NotImplementedError, KeyboardInterrupt]


class Stop(BaseException):
    """Ends the calls that are still under way after a behaviour."""


class Threads:
    """Threads that call wrapped functions, and answer for the original, step by step."""
    def __init__(self, n):
        self.me = threading.local()
        self.chan = [(queue.Queue(), queue.Queue()) for _ in range(n)]
        self.funs, self.thrown = [], None
        self.threads = [threading.Thread(target=self.run, args=(c, ), daemon=True) for c in self.chan]
        for t in self.threads:
            t.start()

    def run(self, chan):
        self.me.chan = chan
        try:
            self.serve()
        except Stop:
            pass

    def original(self, *args, **kwargs):
        self.me.chan[1].put(('seen', args, kwargs))
        return self.serve()

    def serve(self):
        inbox, outbox = self.me.chan
        while True:
            cmd = inbox.get()
            if cmd[0] == 'leave':
                return cmd[1]
            if cmd[0] == 'throw':
                self.thrown = cmd[1]
                raise cmd[1]
            try:
                ev = ('ok', self.funs[cmd[1]](*cmd[2], **cmd[3]))
            except Stop:
                raise
            except BaseException as e:
                ev = ('thrown', e) if e is self.thrown else ('ValueError', None) if isinstance(e, ValueError) \
                    else ('%s: %s' % (type(e).__name__, e), None)
            outbox.put(ev)

    def do(self, t, *cmd):
        self.chan[t][0].put(cmd)
        try:
            return self.chan[t][1].get(timeout=60)
        except queue.Empty:
            raise Mismatch('no answer to %r' % (cmd[0], ))

    def close(self, st):
        for c, frames in zip(self.chan, st):
            for _ in range(len(frames) + 1):
                c[0].put(('throw', Stop()))
        for t in self.threads:
            t.join(10)


def run_nest(b, outs):
    """Calls that are interleaved."""
    POOL.clear()
    opt = b['opt']
    pats, objs = {}, []

    def built(s):
        for p in s['pats']:
            key = repr(p)
            if key not in pats:
                pats[key] = build(p)
            yield pats[key]
    th = Threads(b['threads'])
    st = [[] for _ in range(b['threads'])]
    try:
        original = callables(th.original, opt['callable'])
        for i, w in enumerate(b['ws']):
            o = dict(opt, cls=opt['cls'] + i, form=opt['form'] + 7 * i)
            th.funs.append(make(original, Side(w['ins'], list(built(w['ins'])), o),
                                Side(w['outs'], list(built(w['outs'])), dict(o, form=o['form'] + 1)), o))
        for i, (c, rec) in enumerate(zip(b['ops'], outs)):
            try:
                nest_step(th, st, c, rec['out'], opt)
            except Mismatch as e:
                raise Mismatch('wrappers %s with %s, step %d of %s: %s' % (
                    [short(w) for w in b['ws']], opt, i, [(o['op'], o['t'], o.get('w')) for o in b['ops']], e))
    finally:
        th.close(st)


def nest_step(th, st, c, out, opt):
    if out['st'] == 'skip':
        return
    t = c['t'] - 1
    if c['op'] == 'enter':
        tokens, args = {}, []
        for x in c['args']:
            o = real(x, opt)
            if x['t'] == 'o':
                o = tokens.setdefault(x['v'], o)
            args.append(o)
        kwargs = {k: Thing(i) for i, k in enumerate(opt.get('kw', []))}
        got = th.do(t, 'enter', c['w'] - 1, args, kwargs)
        if got[0] != out['st']:
            raise Mismatch('the call gave %s, expected %s' % (got[0], out['st']))
        if got[0] == 'seen':
            st[t].append({'args': got[1], 'want': out['x'], 'tokens': tokens})
            seen_right(st[t][-1])
            if set(got[2]) != set(kwargs) or any(got[2][n] is not kwargs[n] for n in kwargs):
                raise Mismatch('keyword arguments %r became %r' % (kwargs, got[2]))
        return
    frame = st[t].pop()
    seen_right(frame)
    if c['op'] == 'throw':
        e = RAISED[(opt['form'] + len(c['args']) + sum(map(len, st))) % len(RAISED)]('raised by the original')
        got = th.do(t, 'throw', e)
        if got[0] != 'thrown' or got[1] is not e:
            raise Mismatch('the original raised %r, the call gave %r' % (e, got))
        return
    tokens, rets = {}, []
    for x in c['rets']:
        o = real(x, opt)
        if x['t'] == 'o':
            o = tokens.setdefault(x['v'], o)
        rets.append(o)
    if not c['tuple'] and isinstance(rets[0], tuple):
        rets[0] = tokens[c['rets'][0]['v']] = list(rets[0])
    got = th.do(t, 'leave', tuple(rets) if c['tuple'] else rets[0])
    if got[0] != out['st']:
        raise Mismatch('the call gave %s, expected %s' % (got[0], out['st']))
    if got[0] != 'ok':
        return
    if not c['tuple']:
        compare(got[1], out['x'][0], tokens, 'return value')
        return
    if not isinstance(got[1], tuple) or len(got[1]) != len(out['x']):
        raise Mismatch('returned %r, expected a tuple of %d' % (got[1], len(out['x'])))
    for i, (x, y) in enumerate(zip(got[1], out['x'])):
        compare(x, y, tokens, 'return value %d' % i)


def seen_right(frame):
    """What an original was given, which stays so while the call lasts."""
    if len(frame['args']) != len(frame['want']):
        raise Mismatch('the original got %d arguments, expected %d' % (len(frame['args']), len(frame['want'])))
    for i, (x, y) in enumerate(zip(frame['args'], frame['want'])):
        compare(x, y, frame['tokens'], 'argument %d' % i)


def nested(r, count, sides):
    bs = []
    for _ in range(count):
        ws, arity, nret = [], r.randint(1, 4), r.randint(1, 3)
        for i in range(r.choice([1, 1, 2, 3])):
            which = r.choice(sides)
            w = {'ins': rand_side(r, arity, '') if which != 'out' else OFF,
                 'outs': rand_side(r, nret, '') if which != 'in' else OFF}
            if i and r.random() < .5:
                # the same designations with other flags
                w = {s: dict(ws[0][s], free=[r.choice('TF') for _ in ws[0][s]['free']]) for s in ws[0]}
            if not good(w):
                w = {'ins': OFF, 'outs': OFF}
            ws.append(w)
        threads = r.choice([1, 1, 2])
        ops, st = [], [[] for _ in range(threads)]
        for _ in range(r.randint(4, 12)):
            t = r.randrange(threads)
            c = r.random()
            if not st[t] or len(st[t]) < 4 and c < .45:
                i = r.randrange(len(ws))
                s = ws[i]['ins']
                args = feed(r, s, max([arity] + [n + 1 for n in (numbers(s) if s['on'] else [])]), 0, False)
                if spoil_one(r, args):
                    st[t].append(i)
                ops.append({'op': 'enter', 't': t + 1, 'w': i + 1, 'args': args, 'rets': [], 'tuple': True})
            elif c < .55:
                ops.append({'op': 'throw', 't': t + 1, 'w': st[t].pop() + 1, 'args': [], 'rets': [], 'tuple': True})
            else:
                i = st[t].pop()
                s = ws[i]['outs']
                tup = r.random() < .8
                rets = feed(r, s, nret if tup else 1, 100, False)
                spoil_one(r, rets)
                ops.append({'op': 'leave', 't': t + 1, 'w': i + 1, 'args': [], 'rets': rets, 'tuple': tup})
        bs.append({'ws': ws, 'threads': threads, 'ops': ops,
                   'opt': {'form': r.randrange(60), 'cls': r.randrange(12), 'callable': r.randrange(10),
                           'things': r.randrange(9), 'kw': r.sample(['a', 'free', 'args', 'x'], r.randint(0, 3)),
                           'how': r.choice(['', '', 'strided', 'fortran', 'readonly'])}})
    return bs


def spoil_one(r, vals):
    """Now and then a value that cannot be converted; returns whether all is well."""
    js = [j for j, x in enumerate(vals) if x['t'] != 'o']
    if not js or r.random() < .85:
        return True
    x = vals[r.choice(js)]
    if x['t'] == 'v':
        x['v'] = misshape(x['v'])
    else:
        a = x['v']['a'] + x['v']['a'][:1] or [[1, 1]]
        x['v'] = {'sh': [len(a)], 'a': a}
    return False


def c11(chk):
    r = gen.rng_for(chk.seed, 'C11')
    pats, vals = fixed(r)
    req = {'pats': pats, 'vals': vals, 'dirs': []}
    exhaust(chk, 'all input wrappers', dict(req, what='in', arity=4, maxn=3))
    exhaust(chk, 'all listings of positions', dict(req, what='bad', arity=3, maxn=3))
    conform(chk, 'random input wrappers', 'WrapReplay', behaviours(r, chk.n(400, 6000), ['in', 'in', 'in', 'both']),
            run_wrap, send=('w', 'ops'))
    conform(chk, 'wrappers of wrapped inputs', 'WrapStackReplay', stacks(r, chk.n(300, 5000), ['in', 'in', 'both']),
            run_stack, send=('ws', 'ops'))
    conform(chk, 'input wrappers called while calls are under way', 'WrapNestReplay',
            nested(r, chk.n(200, 4000), ['in', 'in', 'both']), run_nest, send=('ws', 'threads', 'ops'))


def c12(chk):
    r = gen.rng_for(chk.seed, 'C12')
    pats, vals = fixed(r)
    req = {'pats': pats, 'vals': vals, 'dirs': []}
    exhaust(chk, 'all output wrappers', dict(req, what='out', arity=chk.n(3, 4), maxn=3))
    exhaust(chk, 'all listings of positions', dict(req, what='bad', arity=3, maxn=3))
    exhaust(chk, 'all input and output wrappers',
            dict(req, what='both', arity=chk.n(2, 3), maxn=2, dirs=[['fold', 'flatten'], ['flatten', 'fold']]))
    conform(chk, 'random output wrappers', 'WrapReplay', behaviours(r, chk.n(400, 6000), ['out', 'out', 'both', 'both']),
            run_wrap, send=('w', 'ops'))
    conform(chk, 'wrappers of wrapped outputs', 'WrapStackReplay', stacks(r, chk.n(300, 5000), ['out', 'out', 'both']),
            run_stack, send=('ws', 'ops'))
    conform(chk, 'output wrappers called while calls are under way', 'WrapNestReplay',
            nested(r, chk.n(200, 4000), ['out', 'out', 'both']), run_nest, send=('ws', 'threads', 'ops'))
