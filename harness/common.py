"""Driving behaviours through TLC and the real code."""
import json
import multiprocessing
import traceback

import tlc
from objects import Mismatch


def _job(args):
    fn, case, outs = args
    try:
        fn(case, outs)
        return None
    except Mismatch as e:
        return str(e)
    except Exception as e:
        # The code raised where the specification has an outcome, or returned
        # something the comparison cannot even read.
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%s' % (f.filename.rsplit('/', 1)[-1], f.lineno) for f in tb[-4:])
        return 'unexpected %s: %s (%s)' % (type(e).__name__, e, where)


def pmap(fn, cases, outs, procs=8, chunk=None, force=False):
    jobs = [(fn, c, o) for c, o in zip(cases, outs)]
    if len(jobs) < 40 and not force:
        return [_job(j) for j in jobs]
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        return pool.map(_job, jobs, chunk or max(1, len(jobs) // (procs * 8)))


def _value_job(args):
    fn, case = args
    try:
        return fn(case), None
    except Mismatch as e:
        return None, str(e)
    except Exception as e:
        return None, 'unexpected %s: %s' % (type(e).__name__, e)


def pmap_values(fn, cases, procs=8):
    jobs = [(fn, c) for c in cases]
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        return pool.map(_value_job, jobs, max(1, len(jobs) // (procs * 8)))


def conform(chk, part, module, behaviours, runner, send=('p', 'ops'), cfg=None, env=None,
            classify=None, sample=None):
    """Model the behaviours with TLC, run them on the real code, compare."""
    outs, stats = tlc.replay(module, [{k: b[k] for k in send} for b in behaviours], cfg=cfg, env=env)
    chk.add_tlc(stats, part)
    live = [(b, o) for b, o in zip(behaviours, outs) if o is not None]
    if len(live) < 0.7 * len(behaviours):
        raise tlc.TLCError('%s: only %d of %d requests could be evaluated' % (
            part, len(live), len(behaviours)))
    res = pmap(runner, [b for b, _ in live], [o for _, o in live])
    for (b, o), r in zip(live, res):
        chk.validated(part)
        if r is not None:
            chk.violation('%s: %s' % (part, r), {'module': module, 'behaviour': b, 'expected': o},
                          classify(b, r) if classify else None)
    if live:
        b, o = live[len(live) // 2]
        chk.sample({'part': part, 'behaviour': {k: b[k] for k in send}, 'outcomes': o[:3]})
    return live


def explore(chk, part, module, req, runner, rng, cfg=None, env=None, groups=8):
    """Exhaustive exploration of one request; every transition is replayed.

    Transitions are grouped by their first state; each real object visits a
    shuffled sequence of states.
    """
    res = tlc.run(module, cfg=cfg, req={'p': req['p'], 'ops': req['ops']}, env=env)
    if res.error is not None:
        raise tlc.TLCError('TLC failed on %s:\n%s' % (module, res.error))
    chk.add_tlc({'states': res.distinct, 'transitions': len(res.records)}, part)
    by = {}
    for r in res.records:
        key = json.dumps(r['f'])
        by.setdefault(key, (r['f'], {}))[1][r['i']] = r['out']
    states = [(f, sorted(t.items())) for f, t in by.values()]
    rng.shuffle(states)
    for _, t in states:
        rng.shuffle(t)
    parts = [states[i::groups] for i in range(groups) if states[i::groups]]
    out = pmap(runner, [req] * len(parts), parts, force=True)
    for states_i, r in zip(parts, out):
        chk.validated(part, sum(len(t) for _, t in states_i))
        if r is not None:
            chk.violation('%s: %s' % (part, r), {'module': module, 'p': req['p']})
    chk.exhaustive[part] = True
    return res


def edges(chk, part, module, req, runner, rng, send, start, suffix=None, cfg=None, limit=None):
    """Exhaustive exploration; every transition is replayed from a fresh object.

    Records are {f, i, out, t}: state, operation number, outcome, next state.
    start(record) says whether its `f` is the initial state.  A replayed case is
    the path to the state, the transition, and afterwards the operations for
    which suffix(op) holds and that do not change the state.
    """
    res = tlc.run(module, cfg=cfg, req={k: req[k] for k in send})
    if res.error is not None:
        raise tlc.TLCError('TLC failed on %s:\n%s' % (module, res.error))
    chk.add_tlc({'states': res.distinct, 'transitions': len(res.records)}, part)
    key = lambda s: json.dumps(s, sort_keys=True)
    graph, root = {}, None
    for x in res.records:
        graph.setdefault(key(x['f']), {})[x['i'] - 1] = (x['out'], key(x['t']), x['t'])
        if root is None and start(x['f']):
            root = key(x['f'])
    paths = {root: []}
    queue = [root]
    for f in queue:
        for i, (out, t, _) in graph.get(f, {}).items():
            if t not in paths:
                paths[t] = paths[f] + [(i, out)]
                queue.append(t)
    cases, outs = [], []
    for f, es in graph.items():
        if f not in paths:
            raise tlc.TLCError('%s: unreachable state %s' % (module, f))
        for i, (out, t, tv) in es.items():
            seq = paths[f] + [(i, out)]
            if suffix:
                seq = seq + [(j, o) for j, (o, u, _) in graph.get(t, {}).items()
                             if u == t and suffix(req['ops'][j])]
            case = {k: req[k] for k in req if k not in ('ops', 'opts')}
            case['ops'] = [req['ops'][j] for j, _ in seq]
            case['opts'] = [(req.get('opts') or [{}] * len(req['ops']))[j] for j, _ in seq]
            cases.append(case)
            outs.append([{'out': o} for _, o in seq])
    order = list(range(len(cases)))
    rng.shuffle(order)
    full = limit is None or len(order) <= limit
    order = order if full else order[:limit]
    cases, outs = [cases[i] for i in order], [outs[i] for i in order]
    for c, o, r in zip(cases, outs, pmap(runner, cases, outs)):
        chk.validated(part)
        if r is not None:
            chk.violation('%s: %s' % (part, r), {'module': module, 'behaviour': c, 'expected': o})
    chk.exhaustive[part] = full
