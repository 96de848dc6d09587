"""Run Origami behaviours on the real pattern objects."""
import autograd
import autograd.numpy as anp
import numpy as np
from collections import OrderedDict

from gen import unflatten as gen_value
from objects import (FREE, Mismatch, build, close, dense, flat, free_num, mask, num, rmat,
                     same_shapes, same_value, value)


# The arrays and dictionaries of the behaviour at hand which are filled again with new
# numbers: an object may be used again by its owner, and only its contents count.
POOL = {}


def reused(x, slot=()):
    if isinstance(x, dict):
        keys = tuple(x)
        d = POOL.setdefault(slot + (keys,), OrderedDict())
        for k in keys:
            d[k] = reused(x[k], slot + (k,))
        return d
    if not isinstance(x, np.ndarray):
        return x
    y = POOL.setdefault(slot + (x.shape, x.dtype), np.empty(x.shape, x.dtype))
    y[...] = x
    return y


def dress(x, how, slot=()):
    """The same numbers in another container."""
    if how == 'reused':
        return reused(x, slot)
    if isinstance(x, dict):
        items = [(k, dress(v, how)) for k, v in x.items()]
        return dict(items) if how == 'dict' else OrderedDict(items)
    if not isinstance(x, np.ndarray) or x.ndim == 0:
        return x
    if how == 'fortran':
        return np.asfortranarray(x)
    if how == 'strided':
        big = np.full(tuple(2 * n for n in x.shape), 77.0)
        view = big[tuple(slice(None, None, 2) for _ in x.shape)]
        view[...] = x
        return view
    if how == 'int' and np.all(np.isfinite(x)) and np.all(x == np.round(x)):
        return x.astype(int)
    if how == 'readonly':
        y = x.copy()
        y.setflags(write=False)
        return y
    return x


def listy(p, v):
    """Numeric leaves as nested lists or scalars (they accept anything array-like)."""
    if p['k'] == 'dict':
        return OrderedDict((k, listy(p['subs'][p['keys'].index(k)], s) if k in p['keys'] else s)
                           for k, s in v.items())
    if p['k'] == 'num' and v.size:
        return v.tolist()
    return v


def call(fn, st, what, extra_ok=()):
    """Call fn; check success or the class of the refusal."""
    try:
        res = fn()
    except Exception as e:
        if st == 'ok':
            raise Mismatch('%s raised %s: %s' % (what, type(e).__name__, e))
        if st == 'ValueError' and isinstance(e, ValueError):
            return None
        if st == 'KeyError' and isinstance(e, KeyError):
            return None
        raise Mismatch('%s raised %s, expected %s' % (what, type(e).__name__, st))
    if st != 'ok':
        raise Mismatch('%s returned %r, expected %s' % (what, res, st))
    return res


def kwargs(o, opt, vv=True):
    kw = {}
    if o['free'] != 'N' or opt.get('explicit_none'):
        kw['free'] = FREE[o['free']]
    if vv and (o['vv'] != 'N' or opt.get('explicit_none')):
        kw['validate_value'] = FREE[o['vv']]
    return kw


def node_of(p, path):
    for i in path:
        p = p['base'] if i == 0 else p['subs'][i - 1]
    return p


def flat_expected(x, big=800.0, eps=1e-9):
    return [free_num(e, big) if isinstance(e[0], str) else num(e, eps) for e in x]


def run_session(req, outs, tol=1e-11):
    """req: {'p', 'ops', 'opts'}; outs: emitted records.  Raises Mismatch."""
    POOL.clear()
    reg = {}
    pat = build(req['p'], reg)
    opts = req.get('opts') or [{}] * len(req['ops'])
    for i, (o, opt, rec) in enumerate(zip(req['ops'], opts, outs)):
        try:
            one(reg[tuple(o['path'])], node_of(req['p'], o['path']), o, opt, rec['out'], tol)
        except Mismatch as e:
            raise Mismatch('op %d (%s) on %s: %s' % (i, o['op'], pat, e))
    return pat


def one(obj, p, o, opt, out, tol):
    st = out['st']
    op = o['op']
    tol = opt.get('tol', tol)
    eps = opt.get('eps', 1e-9)
    big = opt.get('big', 800.0)
    how = opt.get('how', '')
    conv = lambda r: num(r, eps)

    if st == 'open':
        # whether the value is acceptable is left open, but one answer holds
        v = dress(value(o['v'] if op == 'flatten' else gen_value(p, o['x']['a']), conv), how)
        kw = {k: w for k, w in kwargs(o, opt).items() if k == 'validate_value'}
        st = 'ok' if obj.validate_folded(v, **kw)[0] else 'ValueError'
        if st == 'ok' and op == 'flatten' and not out['x']:
            return

    if op == 'setfd':
        obj.free_default = FREE[o['val']]
    elif op == 'setdv':
        obj.default_validate = o['val']
    elif op == 'flatten':
        v = dress(value(o['v'], conv), how)
        if how == 'list':
            v = listy(p, v)
        got = call(lambda: obj.flatten(v, **kwargs(o, opt)), st, 'flatten')
        if st == 'ok':
            if not isinstance(got, np.ndarray) or got.ndim != 1:
                raise Mismatch('flatten did not return a vector: %r' % (got,))
            close(got, flat_expected(out['x'], big, eps), tol, 'flatten')
            if got.size != obj.flat_length(**kwargs(o, opt, False)):
                raise Mismatch('flat vector of size %d, announced %d' % (
                    got.size, obj.flat_length(**kwargs(o, opt, False))))
            if opt.get('back'):
                back = call(lambda: obj.fold(got, **kwargs(o, opt, False)), 'ok', 'fold of flatten')
                same_value(back, opt['back'], max(tol, 1e-10), 'fold(flatten(value))')
    elif op == 'fold':
        x = flat(o['x'], big, eps)
        x = x.tolist() if how == 'list' else dress(x, how)
        got = call(lambda: obj.fold(x, **kwargs(o, opt)), st, 'fold')
        if st == 'ok':
            same_value(got, out['x'], tol, 'fold', conv)
            if opt.get('back'):
                back = call(lambda: obj.flatten(got, **kwargs(o, opt, False)), 'ok', 'flatten of fold')
                close(back, flat(o['x'], big, eps), max(tol, 1e-10), 'flatten(fold(vector))')
    elif op == 'valid':
        v = dress(value(o['v'], conv), how)
        if how == 'list':
            v = listy(p, v)
        kw = {}
        if o['vv'] != 'N' or opt.get('explicit_none'):
            kw['validate_value'] = FREE[o['vv']]
        got = call(lambda: obj.validate_folded(v, **kw), 'ok', 'validate_folded')
        try:
            ok, msg = got
        except Exception:
            raise Mismatch('validate_folded did not return a pair: %r' % (got,))
        want = bool(ok) if out['x'] == 'nan' else out['x'] == ''
        if bool(ok) != want:
            raise Mismatch('validate_folded returned (%r, %r), expected %s (%s)' % (
                ok, msg, want, out['x'] or 'valid'))
        if not want and not (isinstance(msg, str) and msg):
            raise Mismatch('validate_folded rejects without a message: %r' % (msg,))
    elif op == 'len':
        kw = {}
        if o['free'] != 'N' or opt.get('explicit_none'):
            kw['free'] = FREE[o['free']]
        got = call(lambda: obj.flat_length(**kw), st, 'flat_length')
        if st == 'ok' and got != out['x']:
            raise Mismatch('flat_length is %r, expected %r' % (got, out['x']))
    elif op == 'idx':
        m = dress(mask(o['m']), how)
        kw = {}
        if o['free'] != 'N' or opt.get('explicit_none'):
            kw['free'] = FREE[o['free']]
        if st != 'ok' and not _any(m):
            # flat_indices of an empty selection needs no parametrisation
            try:
                got = obj.flat_indices(m, **kw)
            except ValueError:
                return
            if len(got):
                raise Mismatch('flat_indices selects %r for an empty mask' % (got,))
            return
        got = call(lambda: obj.flat_indices(m, **kw), st, 'flat_indices')
        if st == 'ok':
            check_indices(got, out['x'], o, opt, obj, p)
    elif op == 'names':
        args = (FREE[o['free']],)
        kw = {'delim': o['delim']} if o['delim'] != '_' else {}
        got = call(lambda: obj.flat_names(*args, **kw), 'ok', 'flat_names')
        got = [str(g) for g in got]
        if got != list(out['x']):
            raise Mismatch('flat_names %r, expected %r' % (got, out['x']))
    elif op == 'empty':
        same_shapes(obj.empty(False), out['x']['s'], 'empty(False)')
        same_shapes(obj.empty(True), out['x']['s'], 'empty(True)')
        for b in (True, False):
            eb = obj.empty_bool(b)
            same_shapes(eb, out['x']['s'], 'empty_bool')
            if not _all_bool(eb, b):
                raise Mismatch('empty_bool(%s) is %r' % (b, eb))
    elif op == 'jac':
        check_jac(obj, p, o, out['x'], opt, tol)
    elif op == 'dfold':
        check_dfold(obj, o, out['x'], opt)
    elif op == 'dflat':
        check_dflat(obj, o, out['x'], opt)
    elif op == 'dlogdet':
        check_dlogdet(obj, o, out['x'], opt)
    else:
        raise ValueError(op)


def _any(m):
    if isinstance(m, dict):
        return any(_any(v) for v in m.values())
    return bool(np.any(m))


def _all_bool(m, b):
    if isinstance(m, dict):
        return all(_all_bool(v, b) for v in m.values())
    return m.dtype == bool and bool(np.all(m == b))


def check_indices(got, x, o, opt, obj, p):
    got = np.asarray(got)
    if got.ndim != 1:
        raise Mismatch('flat_indices is not a vector: %r' % (got,))
    if got.size and not np.issubdtype(got.dtype, np.integer):
        raise Mismatch('flat_indices are not integers: %r' % (got,))
    g = [int(i) for i in got]
    lo, hi = list(x['lo']), list(x['hi'])
    if lo == hi and opt.get('exact'):
        if g != lo:
            raise Mismatch('flat_indices %r, expected %r' % (g, lo))
        return
    if len(set(g)) != len(g):
        raise Mismatch('flat_indices repeats positions: %r' % (g,))
    if not set(lo) <= set(g):
        raise Mismatch('flat_indices %r lacks %r, which selected entries depend on' % (
            g, sorted(set(lo) - set(g))))
    if not set(g) <= set(hi):
        raise Mismatch('flat_indices %r has %r, where nothing is selected' % (
            g, sorted(set(g) - set(hi))))


def check_jac(obj, p, o, x, opt, tol):
    v = dress(value(o['v']), opt.get('how', 'reused'))
    u, fs, s = rmat(x['u']), rmat(x['fs']), rmat(x['s'])
    rows, cols = x['rows'], x['cols']
    jtol = opt.get('jtol', 1e-9)
    mats = {}
    for name, want in (('unfreeing_jacobian', u.shape), ('freeing_jacobian', u.T.shape)):
        fn = getattr(obj, name)
        sp = call(lambda: fn(v), 'ok', name)
        dn = call(lambda: fn(v, sparse=False), 'ok', name)
        sp2 = call(lambda: fn(v, sparse=True), 'ok', name)
        if not hasattr(sp, 'toarray') or not hasattr(sp2, 'toarray'):
            raise Mismatch('%s is not sparse by default' % name)
        if hasattr(dn, 'toarray'):
            raise Mismatch('%s(sparse=False) is sparse' % name)
        dn = dense(dn)
        if dn.shape != want:
            raise Mismatch('%s has shape %s, expected %s' % (name, dn.shape, want))
        for q in (sp, sp2):
            close(dense(q), dn, 1e-13, name + ' sparse against dense')
        mats[name] = dn
    close(mats['unfreeing_jacobian'], u, jtol, 'unfreeing_jacobian')
    f = mats['freeing_jacobian']
    close(f @ s, fs, jtol, 'freeing_jacobian along valid directions')
    close(f @ mats['unfreeing_jacobian'], np.eye(f.shape[0]), jtol * 10, 'freeing @ unfreeing')
    # different leaves do not mix
    r0 = c0 = 0
    outside = np.ones(f.shape, dtype=bool)
    for r, c in zip(rows, cols):
        outside[c0:c0 + c, r0:r0 + r] = False
        r0 += r
        c0 += c
    if np.any(f[outside] != 0) or np.any(mats['unfreeing_jacobian'][outside.T] != 0):
        raise Mismatch('Jacobian mixes different members')
    if opt.get('logdet'):
        want = float(np.sum(np.log(np.abs(np.diag(u)))))
        for name, w in (('log_abs_det_unfreeing_jacobian', want),
                        ('log_abs_det_freeing_jacobian', -want)):
            got = call(lambda: getattr(obj, name)(v), 'ok', name)
            close(got, w, jtol, name)


def phi_fn(lin, quad, flatten):
    lin = np.array([num(c) for c in lin])

    def phi(folded):
        u = flatten(folded)
        val = anp.sum(lin * u)
        for i, j, w in quad:
            val = val + num(w) * u[i - 1] * u[j - 1]
        return val
    return phi


def check_dfold(obj, o, x, opt):
    import paragami
    tol = opt.get('dtol', 1e-8)
    free = FREE[o['free']]
    pt = reused(np.array([free_num(e) if isinstance(e[0], str) else num(e) for e in o['x']]))
    a = np.array([num(e) for e in o['a']])
    b = np.array([num(e) for e in o['b']])
    phi = phi_fn(o['lin'], o['quad'], raw_flat)
    want = [num(e) for e in x['phi']]
    us = np.array([[num(e) for e in jet] for jet in x['u']]).reshape(-1, 4)
    if opt.get('wrapped'):
        fun = paragami.FlattenFunctionInput(phi, patterns=obj, free=free)
    else:
        fun = lambda w: phi(obj.fold(w, free=free))
    vec = lambda w: raw_flat(obj.fold(w, free=free))
    modes = opt['modes']

    def chk(name, got, target):
        close(got, target, tol, name)

    def jvp(f, d):
        return lambda w: autograd.make_jvp(f)(w)(d)[1]

    try:
        close(fun(pt), want[0], tol, 'function of fold')
        if 'r' in modes:
            g = autograd.grad(fun)(pt)
            chk('gradient . a', g @ a, want[1])
            chk('gradient . b', g @ b, want[2])
        if 'f' in modes:
            chk('jvp a', jvp(fun, a)(pt), want[1])
        if 'J' in modes:
            j = autograd.jacobian(vec)(pt)
            chk('jacobian of fold . a', j @ a, us[:, 1])
            chk('jvp of fold', autograd.make_jvp(vec)(pt)(a)[1], us[:, 1])
        if 'rr' in modes:
            h = autograd.hessian(fun)(pt)
            chk('a . hessian . b', a @ h @ b, want[3])
        if 'hv' in modes:
            chk('hvp', a @ autograd.hessian_vector_product(fun)(pt, b), want[3])
        if 'fr' in modes:   # forward over reverse
            chk('jvp of gradient', autograd.make_jvp(autograd.grad(fun))(pt)(b)[1] @ a, want[3])
        if 'rf' in modes:   # reverse over forward
            chk('gradient of jvp', autograd.grad(jvp(fun, a))(pt) @ b, want[3])
        if 'ff' in modes:
            chk('jvp of jvp', jvp(jvp(fun, a), b)(pt), want[3])
        if 'ffv' in modes:
            chk('jvp of jvp of fold', autograd.make_jvp(jvp(vec, a))(pt)(b)[1], us[:, 3])
    except Mismatch:
        raise
    except Exception as e:
        raise Mismatch('differentiation failed with %s: %s' % (type(e).__name__, e))


def raw_flat(v):
    """All numbers of a folded value in member order, row-major."""
    if isinstance(v, dict):
        parts = [raw_flat(s) for s in v.values()]
        return anp.concatenate(parts) if parts else anp.array([])
    return anp.reshape(v, (-1,))


def check_dflat(obj, o, x, opt):
    tol = opt.get('dtol', 1e-8)
    w = np.array([num(c) for c in o['lin']])
    a = np.array([num(e) for e in o['a']])
    b = np.array([num(e) for e in o['b']])
    pt = reused(np.array(flat_nums(o['v'])))
    fun = lambda u: anp.sum(w * obj.flatten(obj.fold(u, free=False, validate_value=False),
                                            free=True, validate_value=False))
    vec = lambda u: obj.flatten(obj.fold(u, free=False, validate_value=False), free=True,
                                validate_value=False)
    try:
        g = autograd.grad(fun)(pt)
        close(g @ a, num(x['s'][0]), tol, 'gradient through flatten . a')
        close(g @ b, num(x['s'][1]), tol, 'gradient through flatten . b')
        j = autograd.jacobian(vec)(pt)
        close(j @ a, [num(f[2]) for f in x['f']], tol, 'jacobian of flatten . a')
        if opt.get('second'):
            h = autograd.hessian(fun)(pt)
            close(a @ h @ b, num(x['s'][2]), tol, 'a . hessian through flatten . b')
    except Mismatch:
        raise
    except Exception as e:
        raise Mismatch('differentiation failed with %s: %s' % (type(e).__name__, e))


def check_dlogdet(obj, o, x, opt):
    """Derivatives of the log-determinants in the free or in the non-free vector."""
    tol = opt.get('dtol', 1e-8)
    free = FREE[o['free']]
    pt = reused(np.array([free_num(e) if isinstance(e[0], str) else num(e) for e in o['x']]))
    a, b = (np.array([num(e) for e in o[k]]) for k in 'ab')
    want = [float(np.sum(np.log([num(s) for s in x['slopes']])))] + [num(e) for e in x['s']]
    for name, sign in (('unfreeing', 1.0), ('freeing', -1.0)):
        part = getattr(obj, 'log_abs_det_%s_jacobian' % name)
        # some weight besides, as in a log density with a change of variables
        fun = lambda w: part(obj.fold(w, free=free)) + 0.0 * anp.sum(w)
        what = 'log_abs_det_%s_jacobian ' % name
        try:
            close(fun(pt), sign * want[0], tol, what)
            if 'r' in opt['modes']:
                g = autograd.grad(fun)(pt)
                close(g @ a, sign * want[1], tol, what + 'gradient . a')
                close(g @ b, sign * want[2], tol, what + 'gradient . b')
            if 'f' in opt['modes']:
                close(autograd.make_jvp(fun)(pt)(a)[1], sign * want[1], tol, what + 'jvp a')
            if 'rr' in opt['modes']:
                close(a @ autograd.hessian(fun)(pt) @ b, sign * want[3], tol, what + 'a . hessian . b')
            if 'fr' in opt['modes']:
                close(autograd.make_jvp(autograd.grad(fun))(pt)(b)[1] @ a, sign * want[3], tol,
                      what + 'jvp of gradient')
        except Mismatch:
            raise
        except Exception as e:
            raise Mismatch('differentiation of %s failed with %s: %s' % (what, type(e).__name__, e))


def flat_nums(v):
    if 'ks' in v:
        return [e for s in v['vs'] for e in flat_nums(s)]
    return [num(e) for e in v['a']]


# ------------------------------------------------ exhaustive exploration
def preorder(p, path=()):
    yield path, p
    if p['k'] == 'dict':
        for i, s in enumerate(p['subs']):
            for x in preorder(s, path + (i + 1,)):
                yield x
    elif p['k'] == 'parr':
        for x in preorder(p['base'], path + (0,)):
            yield x


def run_states(case, states):
    """All operations in a sequence of settings, on one real object.

    case: {'p', 'ops'}; states: list of (settings, [(op number, out)]).
    """
    POOL.clear()
    reg = {}
    p = case['p']
    obj = build(p, reg)
    nodes = list(preorder(p))
    count = 0
    for sett, todo in states:
        for (path, node), s in zip(nodes, sett):
            if reg[path].free_default != FREE[s[0]] or count == 0:
                reg[path].free_default = FREE[s[0]]
            if len(s) > 1:
                reg[path].default_validate = s[1]
        for i, out in todo:
            o = case['ops'][i - 1]
            if o['op'] in ('setfd', 'setdv'):
                continue        # applied above, in every order
            opt = (case.get('opts') or {}).get(i - 1, {})
            try:
                one(reg[tuple(o['path'])], node_of(p, o['path']), o, opt, out, 1e-11)
            except Mismatch as e:
                raise Mismatch('with settings %s, %s: %s' % (sett, o, e))
            count += 1
    return count
